"""Chain metadata: each step of OpMeta follows the op graph."""
import itertools
import re
import absint as ai
import vlib
import strs
import sha
import order
import P11
from vlib import argobj

MINOBS = 60
H = vlib.VERIF + '/harness/P12.cc'
F = 'ron/opmeta.hpp'
TIME, NAME = 2, 0


def offsets(c, m):
    out = {}
    for n in ('id', 'rdt', 'object', 'hash', 'prev', 'chain', 'bits', 'known'):
        it = ai.walk(c.fn(m, '^o_%s$' % n), m)
        for rv, st in it.rets.values():
            c.need(isinstance(rv, ai.P) and rv.o == argobj(0) and isinstance(rv.off, int), 'member %s' % n)
            out[n] = rv.off
    return out


def word(o, off):
    l = ai.Label(('m', o, off, 0), 64)
    return ai.V(64, [(l, i) for i in range(64)])


def show(v):
    return repr(v)[:120]


class Meta:
    def __init__(self, st, o, of):
        g = lambda off: vlib.mem_value(st, o, off, 8)
        self.id = (g(of['id'] + 8), g(of['id']))
        self.rdt = (g(of['rdt'] + 8), g(of['rdt']))
        self.object = (g(of['object'] + 8), g(of['object']))
        self.prev = g(of['prev'])
        self.chain = g(of['chain'])
        s = strs.get(st, ai.P(o, of['hash'] + of['bits']))
        self.hash = P11.digest_of(s)
        self.known = vlib.mem_value(st, o, of['hash'] + of['known'], 4)


def ats3(types, idver=None):
    a = P11.atoms(types)
    if idver is not None:
        v, o = a[0]
        a[0] = (v, ai.V(64, list(o.b[:60]) + vlib.k(idver, 4)))
    return a


def rows(n):
    return order.weak_orders(n)


def key(v):
    t = ai.term(v)
    return t


def decide_table(c, m, fn, args, rank_rows, setup, of, want, loc):
    """run fn once per ordering; want(row, rv, st) -> error text or None"""
    f = c.fn(m, fn)
    for label, rank in rank_rows:
        od = order.Order(rank)
        it = ai.walk(f, m, partition=True, decide=od.decide, init=setup[0], model=setup[1], loadhook=strs.hook,
                       argvals=args)
        if len(it.rets) != 1:
            # still tells apart exits: every one has to be right
            pass
        err = None
        for (ctx, b), (rv, st) in it.rets.items():
            try:
                err = err or want(rank, rv, st, od)
            except order.Unknown as e:
                raise vlib.Broken('%s: undecided %r' % (fn, e))
        c.ob(label, err is None and bool(it.rets), err or 'no exit', loc)
        c.paths += len(it.rets)


def step(c, m, fn, ver, types, ats, event, of, setup, M):
    """does an op continue the meta; event: the meta and the reference are known to be events"""
    org, ro = ats[0][1], ai.V(64, P11.lab(64, 'ref', 'origin'))
    mv, mo = word(M, of['id'] + 8), word(M, of['id'])
    init, model = setup(types, ats)
    if event:
        ro, mo = (ai.V(64, list(x.b[:60]) + vlib.k(2, 4)) for x in (ro, mo))
    ats[1] = (ats[1][0], ro)
    install = init

    def init(it, st):
        install(it, st)
        if event:
            it.store(st, ai.P(M, of['id']), mo, 8)
    rr = []
    for a in rows(3):
        if event and ver != 2 and not all((a[0] < x) == (ver < 2) and a[0] != x for x in a[1:]):
            continue        # the version bits order them
        for b in rows(3):
            rr.append(('%s, op version %d, origins (op, ref, meta%s) ordered as %s, values as %s' % (
                fn, ver, ', both events' if event else '', a, b),
                {key(org): a[0], key(ro): a[1], key(mo): a[2], key(ats[0][0]): b[0], key(ats[1][0]): b[1], key(mv): b[2]}))

    def want(rank, rv, st, od):
        a = [rank[key(x)] for x in (org, ro, mo)]
        b = [rank[key(x)] for x in (ats[0][0], ats[1][0], mv)]
        refmeta = a[1] == a[2] and b[1] == b[2]
        if fn == 'is_next':
            w = VER[ver] == 'TIME' and a[0] == a[2] and b[0] > b[2] and refmeta
        else:
            w = VER[ver] == 'NAME' and refmeta
        got = od.value(rv)
        return None if bool(got) == w else 'answers %d' % got
    decide_table(c, m, '^h_%s$' % fn, None, rr, (init, model), of, want, F)


def check(c):
    m = c.ir([H], ['^h_', '^o_'], inline=P11.INLINE, keep=P11.KEEP)
    of = offsets(c, m)
    hb = of['hash'] + of['bits']
    M, R = argobj(0), argobj(2)
    MINE, ARG = P11.hashstr('mine'), P11.hashstr('arg')

    def setup(types, ats, alias=False):
        def init(it, st):
            P11.install(it, st, argobj(1), ats, 'op', types)
            strs.put(st, ai.P(M, hb), MINE)
            if not alias:
                strs.put(st, ai.P(R, hb), ARG)
        return init, sha.makemodel(lambda k, cur: ats[k])
    # -- the next op in the yarn
    for alias in (False, True):
        with c.trying():
            o2 = M if alias else R
            for types in ((0, 0), (0, 0, 1), (0, 0, 2, 0)):
                # same author: the id's origin is the meta's
                ats = P11.atoms(types)
                mo = word(M, of['id'])
                ats[0] = (ats[0][0], mo)
                ats[1] = (ats[1][0], ai.V(64, P11.lab(64, 'ref', 'origin')))
                ko, kr, kv, kp = key(mo), key(ats[1][1]), key(ats[1][0]), key(word(M, of['id'] + 8))
                kid = key(ats[0][0])
                rr = []
                for a in rows(2):
                    for b in rows(3):
                        if b[2] <= b[1]:
                            continue   # the new id is above the previous one
                        rr.append(('ref origin %s ours, ref value/previous/new id ordered as %s' % (cmps(a), b),
                                   {kr: a[0], ko: a[1], kv: b[0], kp: b[1], kid: b[2]}))
                spec = (('algo', 'SHA_512_256'),) + P11.opspec(ats, types, MINE, MINE if alias else ARG)

                def want(rank, rv, st, od):
                    g = Meta(st, M, of)
                    if g.id != (ats[0][0], ats[0][1]):
                        return 'the id becomes %s' % (g.id,)
                    if g.prev != word(M, of['id'] + 8):
                        return 'the yarn-previous id becomes %s' % show(g.prev)
                    same = rank[kr] == rank[ko] and rank[kv] == rank[kp]
                    w = word(M, of['chain']) if same else ats[0][0]
                    if g.chain != w:
                        return 'the chain becomes %s, want %s' % (show(g.chain), show(w))
                    for nm in ('rdt', 'object'):
                        w = (word(o2, of[nm] + 8), word(o2, of[nm]))
                        if getattr(g, nm) != w:
                            return 'the %s becomes %s, want that of the referenced op' % (nm, getattr(g, nm))
                    if g.hash is None:
                        return 'the hash is not a digest'
                    d = P11.diff(g.hash, spec)
                    if d:
                        return d
                    if g.known.const() != 256:
                        return 'the hash is not marked as fully known'
                    return None
                decide_table(c, m, '^h_next$', {2: ai.P(M, 0)} if alias else None,
                             [('next op, %d values%s, %s' % (len(types) - 2, ', referring to the same meta' * alias, l), r)
                              for l, r in rr], setup(types, ats, alias), of, want, F)
    # -- the root op
    for types in ((0, 0), (0, 0, 1)):
        with c.trying():
            ats = P11.atoms(types)
            spec = (('algo', 'SHA_512_256'),) + P11.opspec(
                ats, types, ARG, sha.digest(sha.pack((('algo', 'SHA_512_256'),) + sha.be(ats[1][0]) + sha.be(ats[1][1]))))

            def want(rank, rv, st, od):
                g = Meta(st, M, of)
                for nm, got, w in (('id', g.id, ats[0]), ('type', g.rdt, ats[1]), ('object', g.object, ats[0]),
                                   ('chain', g.chain, ats[0][0]), ('previous', g.prev, word(R, of['id'] + 8))):
                    if got != w:
                        return 'the %s is %s, want %s' % (nm, show(got), show(w))
                d = 'not a digest' if g.hash is None else P11.diff(g.hash, spec)
                return d or (None if g.known.const() == 256 else 'the hash is not marked as fully known')
            decide_table(c, m, '^h_root$', None, [('root op, %d values' % (len(types) - 2), {})],
                         setup(types, ats), of, want, F)
    # -- which op is next, which is a check
    types = (0, 0, 1)
    for ver in range(4):
        with c.trying():
            ats = ats3(types)
            org = ai.V(64, P11.lab(64, 'atom', 'op', 0, 'origin')[:60] + vlib.k(ver, 2) + vlib.k(0, 2))
            ats[0] = (ats[0][0], org)
            for event in (True, False):
                for fn in ('is_next', 'is_check'):
                    c.part(step, c, m, fn, ver, types, list(ats), event, of, setup, M)
    # -- chain id, head
    it = ai.walk(c.fn(m, '^h_chain_id$'), m)
    for rv, st in it.rets.values():
        with c.trying():
            v, o = vlib.mem_value(st, argobj(1), 8, 8), vlib.mem_value(st, argobj(1), 0, 8)
            c.ob('the chain id is named by the chain value', v == word(M, of['chain']), show(v), F)
            w = ai.V(64, list(word(M, of['id']).b[:60]) + vlib.k(2, 4))
            w2 = w
            c.ob('the chain id is an event id of the same author', o in (w, w2) or time_of(o, word(M, of['id'])), show(o), F)
    kc, ki, ko = key(word(M, of['chain'])), key(word(M, of['id'] + 8)), key(word(M, of['id']))
    decide_table(c, m, '^h_is_head$', None, [('head, chain/id/author ordered as %s' % (r,), dict(zip((kc, ki, ko), r))) for r in rows(3)],
                 (None, None), of, lambda rank, rv, st, od: None if bool(od.value(rv)) == (rank[kc] == rank[ki]) else
                 'answers %s' % od.value(rv), F)
    c.rule('all field values left by a step are provenance-exact for every ordering of the compared ids; hashes are '
           'compared as byte sequences fed to the digest')
    c.assumptions.append('preconditions asserted by the code: same author, increasing ids')


VER = {0: 'NAME', 1: 'HASH', 2: 'TIME', 3: 'DERIVED'}


def time_of(o, src):
    return list(o.b[:60]) == list(src.b[:60]) and list(o.b[60:]) == vlib.k(2, 4)


def cmps(a):
    return 'equals' if a[0] == a[1] else 'below' if a[0] < a[1] else 'above'
