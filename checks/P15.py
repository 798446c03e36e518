"""The merge front end: which reducer runs on which inputs, and what a failed
merge leaves behind."""
import itertools
import absint as ai
import vlib
import strs
import vecs
import world
import P13
from vlib import argobj
from world import Op, World

MINOBS = 280
LOC = 'rdt/rdt.hpp'
TIME = (2 << 60)
FORMS = {'lww': 13, 'rga': 14, 'mx': 15, 'max': 19, 'log': 2, 'yarn': 1, 'meta': 8, 'error': 255, 'csv': 17}
K = {n: (world.base64name(n) if n != 'error' else (1 << 60) - 1, 0) for n in FORMS}
K['T'] = (12345, TIME | 99)
K['U'] = (12345, (3 << 60) | 99)
K['H'] = (777, (1 << 60) | 5)


def run(c, m, fn, w, args, init):
    def ini(it, st):
        w.init(it, st)
        init(it, st)

    def subs(cd):
        return P13.subs(cd) or 'ron::MergeCursors<' in cd or 'ron::GetForm<' in cd
    try:
        it = ai.Interp(c.fn(m, fn), m, model=w.model, init=ini, decide=w.decide, partition=True, unroll=True, subs=subs,
                       loadhook=strs.hook, argvals=args, maxctx=4000, maxiter=60000, strict=True).run()
    except ai.Undecided as e:
        raise vlib.Broken('%s cannot be decided at %s' % (e.args[0], vlib.where(e.args[1])))
    c.need(len(it.rets) == 1, '%s: %d exits' % (fn, len(it.rets)))
    (rv, st), = it.rets.values()
    return it, st


def mkworld(frames, **kw):
    w = World(frames, 'abcdefgh', consts=K, **kw)
    w.forms = {K[n][0]: f for n, f in FORMS.items()}
    w.forms[0] = 0
    return w


def check(c):
    m = P13.module(c)
    # -- the form of a set of inputs
    refs = ['lww', 'rga', 'T', 'U', 'H', '-']     # '-': an invalid cursor; T, U, H: references to events and hashes
    n = 0
    for k in (0, 1, 2, 3):
        with c.trying():
            for rs in itertools.product(refs, repeat=k):
                frames = [[] if r == '-' else [Op('abc'[i], r)] for i, r in enumerate(rs)]
                w = mkworld(frames)
                it, st = run(c, m, '^h_form$', w, {}, lambda it, st: w.cursors(it, st, ai.P(argobj(1), 0), list(range(k))))
                named = [r for r in rs if r in FORMS]
                ok = len(set(named)) <= 1
                got = w.code(it, st, ai.P(argobj(2), 0))
                f = it.load(st, ai.P(argobj(0), 0), 1, False, ('q',))
                want = FORMS[named[0]] if named else 0
                show = ', '.join('invalid' if r == '-' else 'nil' if r is None else r for r in rs) or 'no inputs'
                if ok:
                    c.ob('form of inputs with references %s' % show, got == 'OK' and f.const() == want,
                         'got %s, form %r; want OK, form %d' % (got, f, want), LOC)
                else:
                    c.ob('form of inputs with references %s' % show, got == 'BADARGS', 'got %s, want BADARGS' % got, LOC)
                n += 1
    # -- merging cursors: the result is replaced on success only
    A, B = [Op('a', 'lww'), Op('b', 'a')], [Op('a', 'lww'), Op('c', 'a')]
    R = [Op('a', 'rga'), Op('b', 'a')]
    S = [Op('d', 'c')]
    X = [Op('a', 'csv'), Op('b', 'a')]
    P = [Op('c', 'T')]
    E = []
    cases = [('one form', [A, B], 'OK', 'abc'), ('another form', [R], 'OK', 'ab'), ('mixed forms', [A, R], 'BADARGS', None),
             ('a form without a reducer', [X], 'NOT_IMPLEMENTED', None), ('a stray piece', [R, S], 'CAUSEBREAK', None),
             ('a state and a patch', [A, P], 'OK', 'abc'), ('a patch and a state', [P, A], 'OK', 'abc'),
             ('four causal trees', [R, R, R, R], 'NOT_IMPLEMENTED', None)]

    def result(st, want, code, got, ret):
        t = st.aux.get(('trace', ret, 0), ())
        if got != code:
            return 'got %s, want %s' % (got, code)
        if want is None:
            return None if t == () else 'a failed merge changed the result to %s' % (t,)
        if len(t) != 1 or t[0][0] != 'released':
            return 'the result is not set once: %s' % (t,)
        ops = ''.join(x[1] for x in t[0][1] if x[0] == 'op')
        return None if ops == want else 'the result is %s, want %s' % (ops, want)
    for name, frames, code, want in cases:
        with c.trying():
            w = mkworld(frames)
            it, st = run(c, m, '^h_cursors2$', w, {}, lambda it, st: w.cursors(it, st, ai.P(argobj(1), 0), list(range(len(frames)))))
            err = result(st, want, code, w.code(it, st, ai.P(argobj(2), 0)), argobj(0))
            c.ob('merge of cursors: %s' % name, err is None, err or '', LOC)
            form = next((FORMS[f[0].ref] for f in frames if f and f[0].ref in FORMS), 0)
            if name != 'mixed forms':
                w = mkworld(frames)
                it, st = run(c, m, '^h_cursors$', w, {1: ai.const(8, form)},
                             lambda it, st: w.cursors(it, st, ai.P(argobj(2), 0), list(range(len(frames)))))
                err = result(st, want, code, w.code(it, st, ai.P(argobj(3), 0)), argobj(0))
                c.ob('merge of cursors, form given: %s' % name, err is None, err or '', LOC)
            # -- frames: each is read from its start, empty ones are left out
            for extra in (0, 1, 2):
                fs = frames[:]
                if extra == 1:
                    fs = [E] + fs
                if extra == 2:
                    fs = fs[:1] + [E] + fs[1:] + [E]
                w = mkworld(fs)
                w.arrays[('framevec',)] = list(range(len(fs)))

                def init(it, st):
                    vecs.put(it, st, ai.P(argobj(1), 0), ai.P(('framevec',), 0), ai.P(('framevec',), 32 * len(fs)))
                it, st = run(c, m, '^h_frames$', w, {}, init)
                err = result(st, want, code, w.code(it, st, ai.P(argobj(2), 0)), argobj(0))
                c.ob('merge of frames: %s%s' % (name, ('', ', an empty frame first', ', empty frames among them')[extra]),
                     err is None, err or '', LOC)
                if name != 'mixed forms':
                    w = mkworld(fs)
                    w.arrays[('framevec',)] = list(range(len(fs)))
                    it, st = run(c, m, '^h_strings$', w, {1: ai.const(8, form)}, lambda it, st: vecs.put(
                        it, st, ai.P(argobj(2), 0), ai.P(('framevec',), 0), ai.P(('framevec',), 32 * len(fs))))
                    err = result(st, want, code, w.code(it, st, ai.P(argobj(3), 0)), argobj(0))
                    c.ob('merge of texts: %s%s' % (name, ('', ', an empty text first', ', empty texts among them')[extra]),
                         err is None, err or '', LOC)
                n += 1
    # -- an unnamed merge keeps the last input
    for fs in ([P], [P, [Op('d', 'T'), Op('e', 'T')]]):
        with c.trying():
            w = mkworld(fs)
            it, st = run(c, m, '^h_cursors2$', w, {}, lambda it, st: w.cursors(it, st, ai.P(argobj(1), 0), list(range(len(fs)))))
            err = result(st, ''.join(o.name for o in fs[-1]), 'OK', w.code(it, st, ai.P(argobj(2), 0)), argobj(0))
            c.ob('merge of cursors with no form: %s' % fs, err is None, err or '', LOC)
    c.rule('the front end is walked over inputs whose references, positions and reducer outcomes are enumerated; on each '
           'path the form picked, the status returned and the writes to the result are compared with the property')
    c.paths += n
