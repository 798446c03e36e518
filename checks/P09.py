"""Hashes as text: hex and base64 carry every bit of the hash in order, both
ways, for every number of known bits; partial hashes match on common bits."""
import re
import absint as ai
import vlib
import strs
import tab
import numpy as np
from vlib import argobj, showbits, tabindex

MINOBS = 900
F = 'ron/hash.hpp'
H = vlib.VERIF + '/harness/P09.cc'


def chars(n, tag='byte', w=8):
    return [ai.V(8, [(ai.Label((tag, i), 8), b) if b < w else 0 for b in range(8)]) for i in range(n)]


def stream(vs, w):
    """bits of the units, most significant first"""
    return [v.b[b] for v in vs for b in range(w - 1, -1, -1)]


def setup(n, nchars, obj=('P', ('in', 'a1')), tag='byte'):
    def init(it, st):
        it.store(st, ai.P(obj, 0), ai.const(32, n), 4)
        strs.put(st, ai.P(obj, 8), chars(32, tag))
    return init


def writers(c, m):
    for nm, w, tbl in (('hex', 4, 'HEX_PUNCT'), ('base64', 6, 'BASE_PUNCT')):
        with c.trying():
            f = c.fn(m, '^t_%s$' % nm)
            for n in range(257):
                it = ai.walk(f, m, init=setup(n, 32), model=strs.model, loadhook=strs.hook, partition=True)
                src = stream(chars(32), 8)[:n]
                src += [0] * (-n % w)
                for rv, st in it.rets.values():
                    out = strs.get(st, ai.P(argobj(0), 0))
                    c.need(out is not None, 'text of %s() for %d known bits' % (nm, n))
                    err = None
                    if len(out) != (n + w - 1) // w:
                        err = '%d digits, want %d' % (len(out), (n + w - 1) // w)
                    for i, v in enumerate(out):
                        if err:
                            break
                        want = list(reversed(src[i * w:(i + 1) * w]))
                        t = tabindex(v)
                        while want and want[-1] == 0:
                            want.pop()
                        if t is None or tbl not in t[0]:
                            err = 'digit %d is not from the alphabet: %r' % (i, v)
                        elif (loose(t[1]) if n % 8 else t[1]) != want and not digit_eq(t[1], want, n, i * w, w):
                            err = 'digit %d shows %s, want %s' % (i, showbits(t[1]), showbits(want))
                    c.paths += 1
                    c.ob('%s(): %d known bits' % (nm, n), err is None, err or '', F)


def loose(b):
    return b


def digit_eq(got, want, n, lo, w):
    """beyond the known bits the digit may show whatever the (zero) rest of
    the hash holds"""
    got = list(got) + [0] * (w - len(got))
    want = list(want) + [0] * (w - len(want))
    for k in range(w):
        pos = lo + (w - 1 - k)
        if pos < n and got[k] != want[k]:
            return False
        if pos >= n and got[k] != 0:
            src = (ai.Label(('byte', pos // 8), 8), 7 - pos % 8)
            if got[k] != src:
                return False
    return True


def readers(c, m):
    for nm, w, tbl, full in (('hex', 4, 'ABC16', 64), ('base64', 6, 'ABC64', 43)):
        with c.trying():
            f = c.fn(m, '^p_%s$' % nm)

            def mkhook(bad=None):
                def hook(it, st, p, size, isptr, site):
                    if p.o[0] == 'g' and tbl in p.o[1] and size == 1 and not isinstance(p.off, int):
                        o = p.off
                        if o[0] == 'lin' and o[1] == 0 and len(o[2]) == 1 and o[2][0][1] == 1:
                            b = [x for x in vlib.termbits(o[2][0][0]) if x != 0]
                            if len(b) == 8 and all(isinstance(x, tuple) for x in b) and b == [(b[0][0], i) for i in range(8)]:
                                l = b[0][0]
                                if l.t[0] == 'chr':
                                    if l.t[1] == bad:
                                        return ai.const(8, 255)
                                    return ai.V(8, [(ai.Label(('digit', l.t[1]), w), i) if i < w else 0 for i in range(8)])
                    return strs.hook(it, st, p, size, isptr, site)
                return hook

            def init(n):
                def go(it, st):
                    strs.put(st, ai.P(argobj(1), 0), chars(n, 'chr'))
                return go
            for n in range(full + 1):
                it = ai.walk(f, m, init=init(n), model=strs.model, loadhook=mkhook(), partition=True)
                known = min(n * w, 256)
                src = stream([ai.V(8, [(ai.Label(('digit', i), w), b) if b < w else 0 for b in range(8)])
                              for i in range(n)], w)[:known]
                src += [0] * (256 - len(src))
                for rv, st in it.rets.values():
                    out = strs.get(st, ai.P(argobj(0), 8))
                    c.need(out is not None, 'bits parsed from %d %s digits' % (n, nm))
                    kb = vlib.mem_value(st, argobj(0), 0, 4).const()
                    c.ob('%s of %d digits: known bits' % (nm, n), kb == known, '%r, want %d' % (kb, known), F)
                    got = stream(out, 8)
                    err = None
                    if len(out) != 32:
                        err = '%d bytes, want 32' % len(out)
                    elif got != src:
                        i = [x == y for x, y in zip(got, src)].index(False)
                        err = 'bit %d is %s, want %s' % (i, showbits([got[i]]), showbits([src[i]]))
                    c.ob('%s of %d digits: bits' % (nm, n), err is None, err or '', F)
                    c.paths += 1
            for n in range(1, full + 1, 7):
                for bad in {0, n // 2, n - 1}:
                    it = ai.walk(f, m, init=init(n), model=strs.model, loadhook=mkhook(bad), partition=True)
                    for rv, st in it.rets.values():
                        kb = vlib.mem_value(st, argobj(0), 0, 4).const()
                        c.ob('%s of %d digits, digit %d invalid: nothing is known' % (nm, n, bad), kb == 0, repr(kb), F)
                        out = strs.get(st, ai.P(argobj(0), 8))
                        c.ob('%s of %d digits, digit %d invalid: full-size buffer' % (nm, n, bad),
                             out is not None and len(out) == 32, repr(out)[:80], F)


def valid(c, m):
    f = c.fn(m, '^h_valid$')

    def one(n, table):
        def hook(it, st, p, size, isptr, site):
            if p.o[0] == 'g' and 'ABC64' in p.o[1] and size == 1 and not isinstance(p.off, int):
                for x in vlib.termbits(p.off[2][0][0]):
                    if isinstance(x, tuple) and x[0].t[0] == 'chr':
                        return ai.const(8, table.get(x[0].t[1], 0))
            return strs.hook(it, st, p, size, isptr, site)

        def init(it, st):
            strs.put(st, ai.P(argobj(0), 0), chars(n, 'chr'))
        it = ai.walk(f, m, init=init, model=strs.model, loadhook=hook, partition=True)
        r = {rv.const() for rv, st in it.rets.values()}
        c.need(None not in r and len(r) == 1, 'answer of valid()')
        return r.pop()
    for n in (0, 1, 42, 43, 44, 64):
        with c.trying():
            c.ob('valid(): text of %d digits' % n, one(n, {}) == int(n == 43), '', F)
    for i in range(43):
        with c.trying():
            c.ob('valid(): digit %d outside the alphabet' % i, one(43, {i: 255}) == 0, 'accepted', F)
            if i < 42:
                c.ob('valid(): digit %d any' % i, one(43, {i: 63}) == 1, 'rejected', F)
    for d in range(64):
        with c.trying():
            c.ob('valid(): last digit %d' % d, one(43, {42: d}) == int(d % 4 == 0), '', F)


def compare(c, m):
    f = c.fn(m, '^h_matches$')
    for n, k in [(n, 256) for n in range(257)] + [(256, n) for n in range(0, 257, 5)]:
        with c.trying():
            def init(it, st):
                for o, tag, kb in ((argobj(0), 'mine', n), (argobj(1), 'theirs', k)):
                    it.store(st, ai.P(o, 0), ai.const(32, kb), 4)
                    strs.put(st, ai.P(o, 8), chars(32, tag))
            cmpd = set()

            def model(it, I, cd, args, st, ctx):
                nm = (I.get('callee') or cd).split('(')[0]
                if nm in ('memcmp', 'bcmp'):
                    ln = args[2].const()
                    offs = []
                    for a in args[:2]:
                        if not isinstance(a, ai.P) or a.o[0] != 'strdata' or a.o[2] != 8 or not isinstance(a.off, int):
                            return NotImplemented
                        offs.append((a.o[1], a.off))
                    if {x[0] for x in offs} == {argobj(0), argobj(1)} and offs[0][1] == offs[1][1] and ln is not None:
                        return ai.lab(32, ('memcmp', offs[0][1], ln))
                if nm.startswith('llvm.umin') or nm.startswith('llvm.smin'):
                    a, b = args[0].const(), args[1].const()
                    if a is not None and b is not None:
                        return ai.const(args[0].w, min(a, b))
                return strs.model(it, I, cd, args, st, ctx)
            it = ai.walk(f, m, init=init, model=model, loadhook=strs.hook, partition=True, track=True)
            bits = min(n, k)
            want = {(p // 8, 7 - p % 8) for p in range(bits)}
            for (ctx, b), (rv, st) in it.rets.items():
                c.paths += 1
                conds = [(e[1], e[2]) for e in ctx if e[0] == '?']
                r = rv.const()
                lits = []
                if r is None:
                    l = rv.label()
                    c.need(l is not None, 'answer of matches()')
                    lits = ai.conj(l.t, True)
                eqs, ne = set(), 0
                for t, pol in list(conds) + list(lits):
                    s = bits_equal(t)
                    if s is None:
                        raise vlib.Broken('matches(): condition %r' % (t,))
                    if pol:
                        eqs |= s
                    else:
                        ne += 1
                        if not s <= want:
                            ne = 99
                name = 'matches(): %d and %d known bits' % (n, k)
                if r == 0:
                    c.ob(name + ': differs only on common bits', 0 < ne < 99, repr(conds), F)
                else:
                    # true on this exit (under lits): compared bits are exactly
                    # the common known ones
                    c.ob(name + ': compares exactly the common bits', ne == 0 and eqs == want,
                         'missing %s, extra %s' % (sorted(want - eqs)[:4], sorted(eqs - want, key=repr)[:4]), F)
    S = r'operator==<char'
    for nm, neg in (('h_eq', 0), ('h_ne', 1)):
        with c.trying():
            it = ai.walk(c.fn(m, '^%s$' % nm), m)
            cs = it.calls(lambda d: 'operator==' in d or 'compare(' in d)
            ok = len(cs) == 1 and [a for a in cs[0][2][:2]] in ([ai.P(argobj(0), 8), ai.P(argobj(1), 8)],
                                                              [ai.P(argobj(1), 8), ai.P(argobj(0), 8)])
            c.ob('%s compares the hash bits' % nm[2:], ok, repr([x[2] for x in cs]), F)
            for rv, st in it.rets.values():
                l = rv.label()
                isnot = l is not None and l.t[0] == 'not'
                c.ob('%s: polarity' % nm[2:], l is not None and isnot == bool(neg), repr(rv), F)
    it = ai.walk(c.fn(m, '^h_defined$'), m)
    l0 = ai.Label(('m', argobj(0), 0, 0), 64)
    for rv, st in it.rets.values():
        with c.trying():
            if rv.const() is not None:
                c.ob('defined(): some bits are known', False, 'always %d' % rv.const(), F)
                continue
            t, pol = list(ai.conj(rv.label().t, True))[0]
            z = {b for x in t[1:] for b in vlib.termbits(x)} if t[0] == 'eq' else None
            c.ob('defined(): some bits are known', z == {(l0, i) for i in range(32)} and not pol and ('c', 0) in t[1:] or
                 t[0] == 'ult' and t[1] == ('c', 0) and pol, repr(rv), F)


def bits_equal(t):
    """set of (byte, bit) positions compared for equality"""
    r = bits_equal1(t)
    if r is None:
        # any expression of one byte of each: read the mask off its table
        ls = sorted(tab.leaves(t), key=lambda l: l.t[0])
        if [l.t[0] for l in ls] == ['mine', 'theirs'] and ls[0].t[1] == ls[1].t[1]:
            a = np.repeat(np.arange(256, dtype=np.uint64), 256)
            b = np.tile(np.arange(256, dtype=np.uint64), 256)
            try:
                v = np.broadcast_to(tab.value(t, {ls[0]: a, ls[1]: b}), a.shape).reshape(256, 256)
            except tab.NoTab:
                return None
            mask = sum(1 << k for k in range(8) if not v[0, 1 << k])
            exact = ((a ^ b) & np.uint64(mask)) == 0
            if (exact.reshape(256, 256) == (v != 0)).all():
                return {(ls[0].t[1], k) for k in range(8) if mask >> k & 1}
            return {('not an equality of bit positions, byte', ls[0].t[1])}
    return r


def bits_equal1(t):
    while isinstance(t, ai.Label):
        t = t.t
    if t[0] == 'b':
        return bits_equal(t[1])
    if t[0] != 'eq':
        return None
    for x, y in ((t[1], t[2]), (t[2], t[1])):
        if isinstance(x, ai.Label) and x.t[0] == 'memcmp' and y == ('c', 0):
            return {(i, b) for i in range(x.t[1], x.t[1] + x.t[2]) for b in range(8)}
    a, b = vlib.termbits(t[1]), vlib.termbits(t[2])
    if t[2] == ('c', 0) or t[1] == ('c', 0):
        # an exclusive-or compared with zero
        x = t[1] if t[2] == ('c', 0) else t[2]
        bs = [q for q in vlib.termbits(x) if q != 0]
        out = set()
        for q in bs:
            l = q[0]
            if not isinstance(l.t, tuple) or l.t[0] != 'xor':
                return None
            va, vb = (vlib.termbits(z) for z in l.t[1:])
            r = pair(va[q[1]], vb[q[1]])
            if r is None:
                return None
            out.add(r)
        return out
    n = max(len(a), len(b))
    a += [0] * (n - len(a))
    b += [0] * (n - len(b))
    out = set()
    for x, y in zip(a, b):
        if x == y:
            continue
        r = pair(x, y)
        if r is None:
            return None
        out.add(r)
    return out


def pair(x, y):
    if not (isinstance(x, tuple) and isinstance(y, tuple)):
        return None
    s = {x[0].t[0], y[0].t[0]}
    if s == {'mine', 'theirs'} and x[0].t[1] == y[0].t[1] and x[1] == y[1]:
        return (x[0].t[1], x[1])
    return None


def check(c):
    c.level = 'proof'
    c.rule('bit provenance of every digit written and every hash bit read, for every number of known bits and '
           'every text length; comparison conditions decomposed into the set of bit positions they equate')
    m = c.ir([H, 'ron/uuid.cc'], ['^[thp]_'], inline=['ron::', '^std::pair', 'std::min'])
    c.part(writers, c, m)
    c.part(readers, c, m)
    c.part(valid, c, m)
    c.part(compare, c, m)
