"""From an object's log to its state: the log is cut into chains, up to the
cutoff, and those are merged."""
import itertools
import absint as ai
import P13
import strs
import vecs
import vlib
import world
from vlib import argobj
from world import Op, World

MINOBS = 1300
H = vlib.VERIF + '/harness/P19.cc'
SRC = 'rdt/rdt.hpp'
KEEP = P13.KEEP + ['MergeCursorsInto<']
OUT, IN, CUT, RET = argobj(0), argobj(1), argobj(2), argobj(3)
FORMS = {'lww': 13, 'rga': 14, 'mx': 15, 'max': 19, 'log': 2}
K = {n: (world.base64name(n), 0) for n in FORMS}
FATAL = ((1 << 60) - 1, (1 << 60) - 1)
NOLIMIT = 1 << 32
NAMES = 'abcdefg'


class Logs(World):
    """the text of op p of a frame ends at offset p + 1; a cursor reads up to where
    its data ends"""
    broken = None      # how the last read ends, if not by the end of the frame
    script = ()        # what the merge returns
    merged = ()

    def at(self, it, st, p):
        w = it.load(st, ai.P(p.o, p.off + 8), 8, False, ('at',))
        d = it.load(st, p, 8, True, ('at',))
        if not isinstance(d, ai.P) or d.o[0] != 'frame' or not isinstance(w, ai.V) or w.const() is None:
            return None
        return d.o[1], (w.const() & 0xffffffff) - 1

    def limit(self, it, st, p):
        n = it.load(st, ai.P(p.o, p.off + 8), 8, False, ('at',)).const() >> 32
        return NOLIMIT if n == world.FRESH else n - 1

    def text(self, it, I, cd, args, st):
        if cd.startswith('std::__cxx11::basic_string<') and vecs.member(cd) == 'basic_string' and len(args) == 2 and \
                isinstance(args[1], ai.P) and args[1].o in self.arrays and isinstance(args[0], ai.P):
            self.arrays[args[0].o] = [self.arrays[args[1].o][args[1].off // 32]]     # a copy of a frame
            return None
        return super().text(it, I, cd, args, st)

    def model(self, it, I, cd, args, st, ctx):
        h = cd.split('(')[0]
        if h.endswith('Cursor::Next'):
            w = self.at(it, st, args[1])
            if w is None:
                return NotImplemented
            k, pos = w
            lim = self.limit(it, st, args[1])
            n = pos + 1
            stop = n >= len(self.frames[k]) or n > lim
            it.store(st, ai.P(args[1].o, args[1].off + 8), ai.const(64, n + 1 | (world.FRESH if lim == NOLIMIT else lim + 1) << 32), 8)
            self.setop(it, st, args[1], k, len(self.frames[k]) if stop else n)
            self.status(it, st, args[0], 'OK' if not stop else self.broken or 'ENDOFFRAME')
            return None
        if 'MergeCursorsInto<' in h and len(args) == 4:
            cs = self.chains(it, st, args[3])
            if cs is None:
                return NotImplemented
            self.emit(st, args[1], ('merge', args[2].const(), cs))
            self.status(it, st, args[0], self.script)
            return None
        return super().model(it, I, cd, args, st, ctx)

    def chains(self, it, st, v):
        """[(first op, last op)] of the cursors at v"""
        b, n = vecs.span(it, st, v)
        if n is None:
            return None
        out = []
        for o in range(0, n, 56):
            p = ai.P(b.o, b.off + o)
            w = self.at(it, st, p)
            if w is None:
                return None
            last = len(self.frames[w[0]]) - 1
            lim = self.limit(it, st, p)
            out.append((w[1], min(lim, last)))
        return tuple(out)


JOBS = []


def due(refs, cut):
    """chains of a log: refs[i] is the op referred to; cut: index of the last op"""
    out = []
    for i in range(len(refs) if cut is None else cut + 1):
        if out and refs[i] == i - 1 and not (cut is not None and i - 1 == cut):
            out[-1][1] = i
        else:
            out.append([i, i])
    return tuple(map(tuple, out))


def logs(n, wide):
    """references of a log of n ops: the root is first"""
    opts = [[None]] + [list(range(i)) if wide else sorted({i - 1, 0}) for i in range(1, n)]
    return itertools.product(*opts)


def play(i):
    fn, refs, cut, form, code, broken, var = JOBS[i]
    names = NAMES[:len(refs)]
    # ids grow along the log, but for variant C where nothing but equality tells
    ops = [Op(names[k], form if r is None else names[r]) for k, r in enumerate(refs)]
    w = Logs([ops], list(names) + ['z'], var, consts=dict(K, F=FATAL))
    w.forms = {K[n][0]: f for n, f in FORMS.items()}
    w.broken, w.script = broken, code
    w.arrays[IN] = [0]
    cname = 'F' if cut is None else 'z' if cut == 'absent' else names[cut]
    title = '%s of %s%s%s%s' % ({'h_split': 'chains', 'h_into': 'state', 'h_state': 'state as a frame', 'h_state_all': 'whole state'}[fn],
                                ' '.join('%s>%s' % (names[k], form if r is None else names[r]) for k, r in enumerate(refs)) or 'nothing',
                                '' if cut is None else ' up to %s' % ('an id not there' if cut == 'absent' else names[cut]),
                                ', then %s' % broken if broken else '', ', the merge says %s' % code if code != 'OK' else '')

    def init(it, st):
        w.init(it, st)
        it.store(st, ai.P(CUT, 0), w.word(cname, 'o'), 8)
        it.store(st, ai.P(CUT, 8), w.word(cname, 'v'), 8)
        vecs.put(it, st, ai.P(OUT, 0), ai.NULL, ai.NULL)
    try:
        it = ai.Interp(C.fn(M, '^%s$' % fn), M, model=w.model, init=init, decide=w.decide, partition=True, unroll=True,
                       loadhook=strs.hook, maxctx=4000, maxiter=60000, strict=True).run()
    except ai.Undecided as e:
        raise vlib.Broken('%s: %s cannot be decided at %s' % (title, e.args[0], vlib.where(e.args[1])))
    if len(it.rets) != 1:
        raise vlib.Broken('%s: %d exits' % (fn, len(it.rets)))
    (rv, st), = it.rets.values()
    got = w.code(it, st, ai.P(RET, 0))
    pos = None if cut in (None, 'absent') else cut
    want = due(refs, pos)
    # the reader looks one op past a chain: what breaks there is told
    reached = broken and (pos is None or pos == len(refs) - 1)
    wantcode = broken if reached else 'OK'
    if refs == () and broken:
        return None      # the first read fails: not claimed
    if fn == 'h_split':
        v = w.chains(it, st, ai.P(OUT, 0))
        bad = 'returns %s, wanted %s' % (got, wantcode) if got != wantcode else \
            'chains %s, wanted %s' % (v, want) if v != want and not reached else None
        return title, bad is None, bad or ''
    tr = w.trace(st, ai.P(OUT, 0))
    merge = [('merge', FORMS[form], want)] if refs else []
    if not reached:
        wantcode = code if refs else 'OK'
    if got != wantcode:
        bad = 'returns %s, wanted %s' % (got, wantcode)
    elif fn == 'h_into':
        bad = None if list(tr) == ([] if reached else merge) else 'does %s, wanted %s' % (tr, merge)
    elif got != 'OK':
        bad = None if tr == () else 'the result is changed: %s' % (tr,)
    else:
        bad = None if tr == (('released', tuple(merge)),) else 'the result is %s, wanted %s' % (tr, merge)
    return title, bad is None, bad or ''


def check(c):
    global C, M
    c.rule('every op up to the cutoff is in one chain, in log order; a chain ends where an op does not refer to the one before '
           'it or where the cutoff is; those chains are merged under the form the first op names')
    c.rule('the result is set only when log and merge are in order')
    M = c.ir([H, 'ron/uuid.cc'], ['^h_', '_GLOBAL__sub_I_P19', '_GLOBAL__sub_I_uuid'], inline=P13.INLINE + ['^__cxx_global'], keep=KEEP)
    world.GLOBALS = vlib.static_init(M, 'sub_I', model=strs.model).mem
    C = c
    del JOBS[:]
    for n in range(0, 8):
        for refs in (logs(n, n < 7) if n else [()]):
            for cut in [None, 'absent'] + list(range(n)):
                for fn in ('h_split', 'h_into', 'h_state', 'h_state_all') if n < 4 else ('h_split',) if n < 6 else ('h_into',):
                    if fn == 'h_state_all' and cut is not None:
                        continue
                    JOBS.append((fn, refs, cut, 'rga', 'OK', None, 'A' if n % 2 else 'B'))
                    if n < 4:
                        JOBS.append((fn, refs, cut, 'lww', 'CAUSEBREAK' if n else 'OK', None, 'A'))
                        JOBS.append((fn, refs, cut, 'lww', 'OK', 'BADSYNTAX', 'C'))
    for r in vlib.pmap(play, [(i,) for i in range(len(JOBS))]):
        if r:
            c.ob(r[0], r[1], r[2], SRC)
    c.paths += len(JOBS)
