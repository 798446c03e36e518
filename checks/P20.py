"""Comparing, copying and rewriting frames: every op counts, in order, whole."""
import itertools
import re
import absint as ai
import P13
import strs
import vecs
import vlib
import world
from P13 import FLOAT, INT, STRING, UUID, Val
from vlib import argobj
from world import HEADER, QUERY, RAW, REDUCED, Op, World

MINOBS = 4700
H = vlib.VERIF + '/harness/P20.cc'
SRC = 'ron/frames.hpp'
K = {'R': (world.base64name('lww'), 0), 'K': (world.base64name('~'), 0), 'Y': (world.base64name('rga'), 0)}
TYPES = ('uuid', 'int', 'str', 'float')


class Side(Val):
    """the value as it stands in one of the frames: its text is elsewhere in each"""

    def __init__(self, ty, rank, side):
        super().__init__(ty, rank)
        self.side = side

    def raw(self):
        return super().raw() + (self.side << 20) + (self.side << 52)


def valtype(x):
    """the type of the value this word holds; -1 for a number that is not one of the symbolic values"""
    l = x.label() if isinstance(x, ai.V) else x
    if isinstance(l, ai.Label) and l.t[0] == 'in':
        m = re.match(r'(?:pay|val)\.v(\d)\d$', str(l.t[1]))
        return int(m.group(1)) if m else None
    return -1 if isinstance(x, ai.V) and x.const() is not None else None


def setup(w):
    P13.valsetup(w)
    for side in (0, 1):
        for ty in (INT, STRING, FLOAT):
            for r in range(4):
                w.payload[(ty, Side(ty, r, side).raw())] = Val(ty, r).parsed()
    floats = w.order.extra

    def fcmp(od, t):
        r = floats(od, t)
        if r is None and t[0] == 'fcmp':        # a float against a value of another type: they may coincide
            return t[1][1:] in ('eq', 'le', 'ge', 'rd')
        if r is None and t[0] == 'eq':          # so may any other two
            a, b = valtype(t[1]), valtype(t[2])
            if None not in (a, b) and a != b:
                return True
        return r
    w.order.extra = fcmp


def op(side, name, ref, vals, term=REDUCED):
    o = Op(name, ref, term, atoms=[Side(ty, r, side).atom() for ty, r in vals])
    o.key = (name, ref, tuple(vals))
    return o


def show(o):
    return '%s>%s%s' % (o.name, o.ref, ''.join(' %s%d' % (TYPES[t], r) for t, r in o.key[2]))


class Copies(World):
    ends = ()

    def model(self, it, I, cd, args, st, ctx):
        h = cd.split('(')[0]
        if cd.endswith('TextFrame::Builder::Builder()'):
            st.aux[('trace', args[0].o, args[0].off)] = ()
            return None
        if h.endswith('Builder::Release') and len(args) == 2:
            to, b = args if cd.endswith('Release()') else args[::-1]
            self.emit(st, to, ('released', self.trace(st, b)))
            st.aux[('trace', b.o, b.off)] = ()
            return None
        if 'std::vector<ron::TextFrame,' in h:
            m = vecs.member(cd)
            if m == 'clear':
                st.aux[('trace', args[0].o, args[0].off)] = ()
                return None
            if m in ('emplace_back', 'push_back') and len(args) == 2:
                t = self.trace(st, args[1])
                self.emit(st, args[0], t[-1] if t else ('frame?',))
                return args[0] if I.get('w') or I.get('ty') == 'ptr' else None
        if h.endswith('Cursor::Next') and self.ends:
            w = self.at(it, st, args[1])
            r = super().model(it, I, cd, args, st, ctx)
            if w and w[1] + 1 >= len(self.frames[w[0]]) and self.ends[w[0]]:
                self.status(it, st, args[0], self.ends[w[0]])
            return r
        return super().model(it, I, cd, args, st, ctx)


JOBS = []
A, B, RET = argobj(0), argobj(1), argobj(2)


def play(i):
    fn, fs, var, want, ends = JOBS[i]
    fr = [[op(s, *x) for x in f] for s, f in enumerate(fs)]
    names = sorted({x[0] for f in fs for x in f} | {x[1] for f in fs for x in f} - {None})
    w = Copies(fr, [n for n in names if n not in K], var, consts=K)
    setup(w)
    w.ends = ends
    title = {'h_ops': 'ops %s', 'h_frames': 'frames %s', 'h_append': 'copy of %s', 'h_rewrite': 'rewriting %s'}[fn] % \
        ' and '.join('[%s]' % ', '.join(show(o) + ('' if o.term == REDUCED else ' ;,!?'[0] + 'end%d' % o.term) for o in f) for f in fr)

    def init(it, st):
        w.init(it, st)
        if fn == 'h_rewrite':
            w.emit(st, ai.P(A, 0), ('what was there',))
        o = ('g', '_ZN3ron4Uuid7COMMENTE')
        it.store(st, ai.P(o, 0), ai.const(64, K['K'][1]), 8)
        it.store(st, ai.P(o, 8), ai.const(64, K['K'][0]), 8)
        if fn == 'h_ops':
            w.place(it, st, ai.P(A, 0), 0, 0)
            w.place(it, st, ai.P(B, 0), 1, 0)
        elif fn == 'h_frames':
            w.arrays[A], w.arrays[B] = [0], [1]
        elif fn == 'h_append':
            w.arrays[B] = [0]
        else:
            w.cursors(it, st, ai.P(B, 0), list(range(len(fr))))
    try:
        it = ai.Interp(C.fn(M, '^%s$' % fn), M, model=w.model, init=init, decide=w.decide, partition=True, unroll=True,
                       loadhook=strs.hook, maxctx=4000, maxiter=60000, strict=True).run()
    except ai.Undecided as e:
        raise vlib.Broken('%s: %s cannot be decided at %s' % (title, e.args[0], vlib.where(e.args[1])))
    if len(it.rets) != 1:
        raise vlib.Broken('%s: %d exits' % (fn, len(it.rets)))
    (rv, st), = it.rets.values()
    if fn == 'h_append':
        got = w.trace(st, ai.P(A, 0))
        return title, got == want, 'gives %s, wanted %s' % (P13.tr(got), P13.tr(want))
    if w.bad:
        return title, False, w.bad
    got = w.code(it, st, ai.P(RET, 0))
    if fn == 'h_rewrite':
        code, want = want
        tr = w.trace(st, ai.P(A, 0))
        if got != code:
            return title, False, 'returns %s, wanted %s' % (got, code)
        return title, code != 'OK' or tr == want, 'gives %s, wanted %s' % (tr, want)
    return title, got in want, 'returns %s, wanted %s' % (got, ' or '.join(want))


def opcode(x, y):
    """what tells two ops apart"""
    if x[0] != y[0]:
        return ('BADID',)
    if x[1] != y[1]:
        return ('BADREF',)
    return ('OK',) if x[2] == y[2] else ('BADVALUE',)


def framecode(f, g):
    if (not f) != (not g):
        return ('BADVALUE', 'BADFRAME')
    f, g = ([x for x in k if x[0] != 'K'] for k in (f, g))
    for x, y in zip(f, g):
        r = opcode(x, y)
        if r != ('OK',):
            return r
    return ('OK',) if len(f) == len(g) else ('BADFRAME',)


def jobs():
    vals = [(t, r) for t in range(4) for r in range(4)]
    one = lambda vs: ('b', 'a', vs)
    for x in vals:
        for y in vals:
            if x[0] == y[0] or x[1] == y[1] == 0:
                for var in 'AC':
                    JOBS.append(('h_ops', [[one([x])], [one([y])]], var, None, ()))
    few = [(t, r) for t in range(4) for r in (0, 1)]
    lists = [[]] + [[v] for v in few] + [list(p) for p in itertools.product(few, repeat=2)]
    for x in lists:
        for y in lists:
            if len(x) != len(y) or len(x) == 2 and (x[0] == y[0] or x[1] == y[1]):
                JOBS.append(('h_ops', [[one(x)], [one(y)]], 'A', None, ()))
    for n in (3, 4):
        x = few[1:1 + n]
        JOBS.append(('h_ops', [[one(x)], [one(x)]], 'A', None, ()))
        for i in range(n):
            for v in few:
                if v != x[i]:
                    JOBS.append(('h_ops', [[one(x)], [one(x[:i] + [v] + x[i + 1:])]], 'A', None, ()))
            JOBS.append(('h_ops', [[one(x)], [one(x[:i] + x[i + 1:])]], 'A', None, ()))
    for (i, r), (j, s), v in itertools.product(itertools.product('abR', 'abRY'), itertools.product('abR', 'abRY'), 'ABC'):
        JOBS.append(('h_ops', [[(i, r, [few[2]])], [(j, s, [few[2]])]], v, None, ()))
        if (i, r) != (j, s):
            JOBS.append(('h_ops', [[(i, r, [few[2]])], [(j, s, [few[3]])]], v, None, ()))
    # frames
    H_ = ('a', 'R', [])
    X, Y, Z, W, Q = ('b', 'a', [few[2]]), ('b', 'a', [few[3]]), ('c', 'b', []), ('b', 'R', [few[2]]), ('K', 'K', [few[4]])
    pool = [[]] + [[x] for x in (H_, X, Y, Z, W)] + [[H_, x] for x in (X, Y, Z, W)] + \
        [[H_, X, Z], [H_, Y, Z], [H_, Z, X], [H_, X, X], [X, Z, H_]]
    for f in pool:
        for g in pool:
            JOBS.append(('h_frames', [f, g], 'A', None, ()))
    noted = [[Q, H_, X], [H_, Q, X], [H_, X, Q], [Q, Q, H_, X], [H_, Q, Q, X, Q], [H_, X], [H_], [Q, H_], [H_, Q], [Q, H_, Y], [Q, H_, Q, Z], [Q]]
    for f in noted:
        for g in noted:
            JOBS.append(('h_frames', [f, g], 'A', None, ()))
    for k, j in enumerate(JOBS):
        if j[0] == 'h_ops':
            JOBS[k] = j[:3] + (opcode(j[1][0][0], j[1][1][0]), ())
        else:
            JOBS[k] = j[:3] + (framecode(*j[1]), ())
    # copies
    for n in range(0, 4):
        for terms in itertools.product((REDUCED, RAW, HEADER, QUERY), repeat=n):
            f = [(('a', 'b', 'c')[i], 'R' if not i else 'a', [few[i]], t) for i, t in enumerate(terms)]
            want = []
            for x in f:
                want.append(('op', x[0]))
                if x[3] != REDUCED:
                    want.append(('end', x[3]))
            JOBS.append(('h_append', [f], 'A', tuple(want), ()))
    for ns in itertools.product((1, 2, 3), repeat=2):
        for k in (0, 1, 2):
            fs = [[(('a', 'b', 'c', 'd', 'e', 'f')[3 * j + i], 'R' if not i else 'a', [few[i]]) for i in range(n)] for j, n in enumerate(ns[:k])]
            want = tuple(('released', tuple(('op', x[0]) for x in f)) for f in fs)
            JOBS.append(('h_rewrite', fs, 'A', ('OK', want), ()))
            for bad in range(k):
                JOBS.append(('h_rewrite', fs, 'A', ('BADSYNTAX', None), tuple('BADSYNTAX' if j == bad else None for j in range(k))))


STRFLAGS = STRING << 62
TEXTS = ('', 'A', 'AB', '\u07ff\0', 'x\u20ac\U0001f600y', '\0', '\U0010ffff\u0080\u0800')


def reading(c):
    """a string is read whole: every codepoint the frame gives, after what the target had"""
    M = c.ir([H], ['^h_(read|nth|get|char)', '_GLOBAL__sub_I_P20'], inline=P13.INLINE + ['^__cxx_global'],
             keep=['NextCodepoint', 'utf16append', 'basic_string', 'push_back'])
    G = vlib.static_init(M, 'sub_I', model=strs.model).mem
    codes = {'OK': 0, 'ENDOFINPUT': 0x1111, 'BADSYNTAX': 0x7777, 'OUTOFRANGE': 0x2222, 'NOT_IMPLEMENTED': 0x3333}

    def run(fn, texts, at, stop, single, had):
        """texts: the op's values; at: the one to read, `single`: it is a bare codepoint"""
        state = {}

        def model(it, I, cd, args, st, ctx):
            h = cd.split('(')[0]
            if h.endswith('Cursor::NextCodepoint'):
                # the atom remembers which text it reads and how far it got
                a = args[1]
                org = it.load(st, a, 8, False, ('cp',)).const()
                if org is None:
                    raise vlib.Broken('%s: NextCodepoint on an unknown atom' % fn)
                k, n = (org >> 16 & 0xff) - 1, org & 0xff
                if not 0 <= k < len(texts):
                    state['bad'] = 'takes the codepoints of no value'
                    k, n = 0, 255
                t = texts[k]
                if n < len(t):
                    it.store(st, a, ai.const(64, org + 1), 8)
                    it.store(st, ai.P(a.o, a.off + 8), ai.const(32, ord(t[n])), 4)
                    r = ai.const(64, 0)
                else:
                    it.store(st, ai.P(a.o, a.off + 8), ai.const(32, 0), 4)
                    r = ai.const(64, codes[stop])
                return r if I.get('w') == 64 else ai.A([r])
            if h.endswith('utf16append'):
                x = strs.get(st, args[0])
                strs.put(st, args[0], None if x is None or args[1].const() is None else
                         x + tuple(ai.const(8, b) for b in chr(args[1].const()).encode('utf-32-le')))
                return None
            return strs.model(it, I, cd, args, st, ctx)
        ats = argobj(9)

        def init(it, st):
            for o, cells in G.items():
                st.mem[o] = dict(cells)
            for k, v in codes.items():
                it.store(st, ai.P(('g', '_ZN3ronL%d%sE' % (len(k), k)), 0), ai.const(64, v), 8)
            strs.put(st, ai.P(A, 0), None if fn == 'h_get' else [ai.const(8, x) for x in had])
            for off, v in ((16, ai.P(ats, 0)), (24, ai.P(ats, 32 + 16 * len(texts))), (32, ai.P(ats, 32 + 16 * len(texts)))):
                it.store(st, ai.P(B, off), v, 8)
            for i, t in enumerate(texts):
                cp = ord(t[0]) if single else 0
                it.store(st, ai.P(ats, 32 + 16 * i), ai.const(64, STRFLAGS | (i + 1) << 16), 8)
                it.store(st, ai.P(ats, 40 + 16 * i), ai.const(64, (len(t) + 1) << 32 | cp), 8)
                if i == at:
                    it.memcpy(st, ai.P(RET, 0), ai.P(ats, 32 + 16 * i), 16)
        RES = argobj(3)
        av = {2: ai.const(32, at + 2)} if fn in ('h_nth', 'h_get') else {1: ai.const(32, at + 2)} if fn == 'h_char' else {}
        if fn == 'h_char':
            av[0] = ai.P(B, 0)
        it = ai.Interp(c.fn(M, '^%s$' % fn), M, model=model, init=init, partition=True, unroll=True, loadhook=strs.hook,
                       argvals=av, strict=True).run()
        if len(it.rets) != 1:
            raise vlib.Broken('%s: %d exits' % (fn, len(it.rets)))
        (rv, st), = it.rets.values()
        if fn == 'h_char':
            return None, rv.const(), None, state.get('bad')
        got = strs.get(st, ai.P(A, 0))
        if got is not None:
            got = bytes(x.const() for x in got) if all(x.const() is not None for x in got) else None
        res = None
        if fn != 'h_get':
            r = it.load(st, ai.P(RES, 0), 8, False, ('res',))
            res = {0: 'OK', 0x7777: 'the error', None: None}.get(r.const(), 'another code')
        return got, None, res, state.get('bad')

    def want(fn, t, single, had, stop):
        u = t[:1] if single else t
        x = u.encode('utf-32-le') if fn == 'h_read16' else u.encode('utf-8', 'surrogatepass')
        return bytes(had) + x, 'OK' if single or stop == 'ENDOFINPUT' else 'the error'
    for fn in ('h_read', 'h_read16', 'h_nth', 'h_get', 'h_char'):
        for t in TEXTS:
            for single in (False, True):
                if single and (not t or t[0] == '\0' or fn == 'h_read16') or fn == 'h_char' and not single:
                    continue
                for stop in ('ENDOFINPUT', 'BADSYNTAX'):
                    for texts, at in (((t,), 0), ((t, 'other'), 0), (('other', t), 1), (('o', 'p', t, 'q'), 2)):
                        for had in (b'', b'ab'):
                            got, rv, res, bad = run(fn, texts, at, stop, single, had)
                            title = '%s of %r at %d of %d%s%s%s' % (fn[2:], t, at, len(texts), ' as one' if single else '',
                                                                    ', ending badly' if stop != 'ENDOFINPUT' else '',
                                                                    ' after %s' % had.decode() if had else '')
                            if bad:
                                c.ob(title, False, bad, SRC)
                            elif fn == 'h_char':
                                if rv is None:
                                    raise vlib.Broken('%s: the codepoint is not known' % title)
                                c.ob(title, rv == ord(t[0]), 'gives %s' % rv, SRC)
                            else:
                                w, wr = want(fn, t, single, b'' if fn == 'h_get' else had, stop)
                                if got is None or fn != 'h_get' and res is None:
                                    raise vlib.Broken('%s: what was read is not known' % title)
                                ok = got == w if wr == 'OK' else True
                                ok = ok and (fn == 'h_get' or res == wr)
                                c.ob(title, ok, 'reads %r, says %s; wanted %r, %s' % (got, res, w, wr), SRC)


def check(c):
    global C, M
    c.rule('two ops compare as equal exactly when ids, references, numbers of values and every value with its type agree; two '
           'frames when all their ops do, in order, comments left out')
    c.rule('a copy has every op of the frame, in order, and ends its chunks where the frame does')
    M = c.ir([H], ['^h_', '_GLOBAL__sub_I_P20'], inline=P13.INLINE + ['^__cxx_global'],
             keep=P13.KEEP + ['TextFrame::Builder::Builder', 'std::vector<ron::TextFrame,'])
    world.GLOBALS = vlib.static_init(M, 'sub_I', model=strs.model).mem
    C = c
    del JOBS[:]
    jobs()
    for t, ok, d in vlib.pmap(play, [(i,) for i in range(len(JOBS))]):
        c.ob(t, ok, '' if ok else d, SRC)
    # whether there is a value of a type
    for n in range(0, 4):
        for ty in range(4):
            w = Copies([[op(0, 'b', 'a', [(ty if i == n - 1 else (ty + 1) % 4, 0) for i in range(n)])]], 'ab')
            setup(w)
            for at in range(0, 6):
                for q in range(4):
                    def init(it, st):
                        w.init(it, st)
                        w.place(it, st, ai.P(A, 0), 0, 0)
                    it = ai.Interp(c.fn(M, '^h_has$'), M, model=w.model, init=init, decide=w.decide, partition=True, unroll=True,
                                   loadhook=strs.hook, argvals={1: ai.const(32, q), 2: ai.const(32, at)}, strict=True).run()
                    tys = [UUID, UUID] + [ty if i == n - 1 else (ty + 1) % 4 for i in range(n)]
                    want = at < len(tys) and tys[at] == q
                    got = [rv.b[0] if isinstance(rv, ai.V) else None for rv, st in it.rets.values()]
                    c.ob('is there a %s at %d among %d values' % (TYPES[q], at, n), got == [int(want)], 'says %s' % got, SRC)
    c.paths += len(JOBS)
    c.part(reading, c)
