"""Status codes: distinct, self-describing, and success/failure is decided by
the code alone."""
import absint as ai
import vlib
import order
import tab
import numpy as np     # found by way of tab
from vlib import argobj, showbits, arg

MINOBS = 60
NAMES = ['OK', 'ENDOFFRAME', 'ENDOFINPUT', 'NOT_IMPLEMENTED', 'NOT_FOUND', 'BAD_STATE', 'BADARGS', 'BADSYNTAX',
         'DB_FAIL', 'IOFAIL', 'BADFRAME', 'BADID', 'BADREF', 'BADVALUE', 'NOTYPE', 'NOTOPEN', 'CHAINBREAK',
         'HASHBREAK', 'TREEBREAK', 'CAUSEBREAK', 'TREEGAP', 'YARNGAP', 'REPEAT', 'REORDER', 'CONFLICT']
# codes that are already on the wire under another spelling
TEXT = {'NOT_IMPLEMENTED': 'NOTIMPLTED', 'NOT_FOUND': 'NotFound'}
B64 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~"
ERR = (1 << 60) - 1
S = 'ron/status.hpp'


def text(v):
    s = ''.join(B64[(v >> (54 - 6 * i)) & 63] for i in range(10))
    return s.rstrip('0') or '0'


def check(c):
    c.level = 'proof'
    c.rule('values of the status constants as left by their initialiser; bit provenance and decision tables of '
           'the Status operations; IFOK propagates exactly the failures')
    m = c.ir([vlib.VERIF + '/harness/P06.cc', 'ron/status.cc', 'ron/uuid.cc'], ['^h_', '_GLOBAL__sub_I_status'],
             inline=['ron::', '^__cxx_global'], keep=['^ron::Uuid::Uuid.ron::Slice', '^ron::Uuid::write', '^ron::Word::write'])
    init = vlib.static_init(m, 'sub_I')
    seen = {}
    for i, n in enumerate(NAMES):
        with c.trying():
            it = ai.walk(c.fn(m, '^h_list$'), m, argvals={0: ai.const(32, i)}, init=init)
            for rv, st in it.rets.values():
                c.need(isinstance(rv, ai.P) and rv.o[0] == 'g', 'status %s' % n)
                o = ai.V(64, vlib.bits_of(st, rv.o, rv.off, 8)).const()
                v = ai.V(64, vlib.bits_of(st, rv.o, rv.off + 8, 8)).const()
                c.need(v is not None and o is not None, 'constant value of Status::%s' % n)
                if n == 'OK':
                    c.ob('OK is the nil code', (v, o) == (0, 0), '%x %x' % (v, o), 'ron/status.cc')
                else:
                    c.ob('%s is in the error space' % n, o == ERR, hex(o), 'ron/status.cc')
                    want = TEXT.get(n, n)
                    c.ob('%s reads as its own name' % n, text(v) == want, text(v), 'ron/status.cc')
                c.ob('%s is distinct' % n, (v, o) not in seen, 'same as %s' % seen.get((v, o)), 'ron/status.cc')
                seen[(v, o)] = n

    def words(nm, out, want):
        it = ai.walk(c.fn(m, '^%s$' % nm), m)
        for rv, st in it.rets.values():
            for i in (0, 1):
                got = vlib.bits_of(st, argobj(out), 8 * i, 8)
                c.ob('%s: %s' % (nm[2:], ('value', 'origin')[i]), list(got) == want[i], showbits(got), S)

    def mem(a, off):
        l = ai.Label(('m', argobj(a), off, 0), 64)
        return [(l, i) for i in range(64)]
    words('h_code', 1, (mem(0, 8), mem(0, 0)))
    words('h_uuid', 1, (mem(0, 8), mem(0, 0)))
    words('h_comment', 2, (mem(0, 8), mem(0, 0)))
    words('h_new', 1, (arg(0), vlib.k(ERR, 64)))
    words('h_default', 0, (vlib.k(0, 64), vlib.k(0, 64)))
    words('h_from', 2, (arg(0), arg(1)))
    E = ai.Label(('m', argobj(0), 0, 0), 64)
    for nm, lab, want in (('h_bool', E, lambda eq: int(not eq)), ('h_is_error', ai.Label(('in', 'a1'), 64), int)):
        with c.trying():
            for r in ((0, 0), (0, 1), (1, 0)):
                od = order.Order({lab: r[0]}, consts={ERR: r[1]})
                it = ai.walk(c.fn(m, '^%s$' % nm), m, decide=od.decide)
                try:
                    got = {od.value(rv) for rv, st in it.rets.values()}
                except order.Unknown as e:
                    # not a plain comparison: look for a value it gets wrong
                    it = ai.walk(c.fn(m, '^%s$' % nm), m, track=True)
                    e0 = tab.edges(64, ERR)
                    v, other = np.tile(e0, 3), np.repeat(np.array([0, ERR, 5], dtype=np.uint64), len(e0))
                    ok = (v == ERR) if want(1) else (v != ERR)
                    val = ai.Label(('m', argobj(0), 8, 0), 64) if lab is E else ai.Label(('in', 'a0'), 64)
                    try:
                        bad = tab.refute(it, {lab: v, val: other}, ok)
                    except tab.NoTab as e2:
                        raise vlib.Broken('%s: %r %r' % (nm, e, e2))
                    if bad is None:
                        raise vlib.Broken('%s: %r' % (nm, e))
                    c.ob('%s: failure iff the origin is the error marker' % nm[2:], False, bad, S)
                    break
                c.ob('%s: failure iff the origin is the error marker (%s)' % (nm[2:], r), got == {want(r[0] == r[1])},
                     repr(got), S)
    L = [ai.Label(('m', argobj(a), off, 0), 64) for a in (0, 1) for off in (8, 0)]
    for nm, fn in (('h_eq', lambda r: (r[0], r[1]) == (r[2], r[3])), ('h_ne', lambda r: (r[0], r[1]) != (r[2], r[3]))):
        with c.trying():
            for r in order.weak_orders(4):
                od = order.Order(dict(zip(L, r)))
                it = ai.walk(c.fn(m, '^%s$' % nm), m, decide=od.decide)
                try:
                    got = {od.value(rv) for rv, st in it.rets.values()}
                except order.Unknown as e:
                    raise vlib.Broken('%s: %r' % (nm, e))
                c.ob('%s compares the whole code (%s)' % (nm[2:], r), got == {int(fn(r))}, repr(got), S)
    # IFOK: failures are returned unchanged, success falls through
    it = ai.walk(c.fn(m, '^h_ifok$'), m, track=True)
    src = ai.Label(('m', argobj(1), 0, 0), 64)
    kinds = {}

    def kind(rv, st):
        o, v = (list(vlib.bits_of(st, argobj(0), 8 * i, 8)) for i in (0, 1))
        if o == mem(1, 0) and v == mem(1, 8):
            return ai.const(8, 1)
        if 'REPEAT' in repr(o[0]):
            return ai.const(8, 0)
        return ai.const(8, 2)
    v = tab.edges(64, ERR)
    n = set()
    for (ctx, b), (rv, st) in it.rets.items():
        with c.trying():
            k = kind(rv, st).const()
            n.add(k)
            lits = [(e[1], e[2]) for e in ctx if e[0] == '?']
            plain = [pol for t, pol in lits if t[0] == 'eq' and src in t[1:] and ('c', ERR) in t[1:]]
            if len(plain) == 1 and len(lits) == 1:
                c.ob('IFOK returns a failure unchanged' if plain[0] else 'IFOK falls through on success', k == plain[0],
                     'exit kind %d' % k, S)
                continue
            try:
                bad = tab.refute(it, {src: v}, (v == ERR), kind)
            except tab.NoTab as e:
                raise vlib.Broken('outcome test of IFOK: %r' % e)
            c.need(bad is not None, 'plain outcome test of IFOK')
            c.ob('IFOK returns a failure unchanged', False, bad, S)
    c.ob('IFOK has both outcomes', n == {0, 1}, repr(n), S)
