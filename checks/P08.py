"""UTF-8 and UTF-16 coding of codepoints: each class of codepoints has exactly
the bytes Unicode prescribes, and the readers give the codepoint back."""
import absint as ai
import vlib
import strmodel
import tab
import numpy as np
from vlib import argobj

MINOBS = 40
E = 'ron/encdec.hpp'
u = np.uint64


def u8(n):
    """byte formulas of the n-byte form"""
    head = {1: 0, 2: 0xc0, 3: 0xe0, 4: 0xf0}[n]
    fs = [lambda cp, s=6 * (n - 1): (cp >> u(s)) | u(head)]
    for i in range(n - 2, -1, -1):
        fs.append(lambda cp, s=6 * i: ((cp >> u(s)) & u(63)) | u(128))
    return fs


CLASSES8 = [(0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xd7ff, 3), (0xe000, 0xffff, 3), (0x10000, 0x10ffff, 4)]
ESC = {0x22: '"', 0x27: "'", 0x5c: '\\', 8: 'b', 0xc: 'f', 0xa: 'n', 0xd: 'r', 9: 't'}


def cut(lo, hi, points):
    """maximal runs of [lo,hi] without the points, and the points alone"""
    cur = lo
    for p in sorted(points):
        if lo <= p <= hi:
            if cur < p:
                yield cur, p - 1
            yield p, p
            cur = p + 1
    if cur <= hi:
        yield cur, hi


def run(c, m, nm, lo, hi, **kw):
    w = max(hi.bit_length(), 1)
    l = ai.Label(('in', 'cp%x' % lo), w)
    v = ai.const(32, lo) if lo == hi else ai.V(32, [(l, i) if i < w else 0 for i in range(32)])

    def init(it, st):
        st.facts[l] = ((lo, hi),)
    return l, ai.walk(c.fn(m, "^%s$" % nm), m, argvals={1: v}, init=init, model=strmodel.model, track=True, **kw)


def writes(c, m, nm, lo, hi, fs, what):
    l, it = run(c, m, nm, lo, hi)
    c.need(it.rets, nm)
    dom = np.arange(lo, hi + 1, dtype=np.uint64)
    for (ctx, b), (rv, st) in it.rets.items():
        c.paths += 1
        out = strmodel.out(st, ai.P(argobj(0), 0))
        name = '%s %x..%x' % (what, lo, hi)
        if out[:1] == ('join',) or any(x[0] != 'ch' for x in out):
            raise vlib.Broken('%s: emitted units not determined: %r' % (name, out))
        # the part of the class this exit is taken on
        d = restrict(ctx, l, dom, name)
        if not len(d):
            continue
        if not c.ob('%s: number of units' % name, len(out) == len(fs), '%d units, want %d' % (len(out), len(fs)), E):
            continue
        for i, f in enumerate(fs):
            w = out[i][1]
            bad = tab.same(w, l, d, lambda cp: f(cp) & tab.mask(w.w))
            c.ob('%s: unit %d' % (name, i), bad is None, 'codepoint %s %s' % bad if bad else '', E)


def restrict(ctx, l, dom, name):
    for e in ctx:
        if e[0] != '?' or not ai.mentions(e[1], l.t):
            continue
        try:
            t = np.broadcast_to(np.asarray(tab.term(e[1], 1, {l: dom})).astype(bool), dom.shape)
        except tab.NoTab:
            raise vlib.Broken('%s: condition %r' % (name, e[1]))
        dom = dom[t == e[2]]
    return dom


BUF = ('buf',)


def reader(c, m, nm, size, lo, hi, n, formula, what):
    """head unit in [lo,hi]; exactly n units are consumed, and the codepoint
    is the formula over them"""
    f = c.fn(m, '^%s$' % nm)
    H = ai.Label(('head', lo), size * 8)
    labs = [H] + [ai.Label(('unit', j), size * 8) for j in range(1, n)]

    def hook(it, st, p, sz, isptr, site):
        if p.o != BUF or isptr or sz != size or not isinstance(p.off, int):
            return None
        k = p.off // size
        l = labs[k] if k < n else ai.Label(('beyond', k), size * 8)
        return ai.V(size * 8, [(l, i) for i in range(size * 8)])
    for left in range(n if size == 2 else 1, n + 2):
        name = '%s, head %x..%x, %s' % (what, lo, hi, 'truncated to %d' % left if left < n else '%d units left' % left)

        def init(it, st):
            st.facts[H] = ((lo, hi),)
            it.store(st, ai.P(argobj(0), 0), ai.P(BUF, 0), 8)
            it.store(st, ai.P(argobj(1), 0), ai.P(BUF, left * size), 8)
        it = ai.walk(f, m, loadhook=hook, init=init, track=lambda t: ai.mentions(t, H.t) or ai.mentions(t, H))
        c.need(it.rets, nm)
        for (ctx, b), (rv, st) in it.rets.items():
            dom = np.arange(lo, hi + 1, dtype=np.uint64)
            dom = restrict(ctx, H, dom, name)
            if not len(dom):
                continue
            c.paths += 1
            adv = vlib.mem_value(st, argobj(0), 0, 8)
            if left < n:
                c.ob('%s: is the error codepoint' % name, rv.const() == 0, repr(rv), E)
                continue
            c.ob('%s: consumes %d units' % (name, n), adv == ai.P(BUF, n * size), repr(adv), E)
            # every unit contributes separately: one runs over its whole range
            # while the others sit at either end of theirs
            for k in range(n):
                for alt in (0, 1):
                    tail = ((0x80, 0xbf), (0xdc00, 0xdfff))[size == 2]
                    vals = [int(dom[-alt])] + [tail[alt]] * (n - 1)
                    d = dom if k == 0 else np.arange(tail[0], tail[1] + 1, dtype=np.uint64)
                    env = {l: np.broadcast_to(u(x), d.shape) for l, x in zip(labs, vals)}
                    env[labs[k]] = d
                    us = [env[l] for l in labs]
                    try:
                        with np.errstate(over='ignore'):
                            got = np.broadcast_to(np.asarray(tab.value(rv, dict(env))), d.shape)
                    except tab.NoTab as e:
                        raise vlib.Broken('%s: value %r' % (name, e))
                    want = formula(us)
                    bad = np.nonzero(got != want)[0]
                    c.ob('%s: unit %d lands in its bits (%d)' % (name, k, alt), not len(bad),
                         'units %s give %#x, want %#x' % ([hex(int(x[bad[0]])) for x in us], int(got[bad[0]]),
                                                         int(want[bad[0]])) if len(bad) else '', E)


def f8(n):
    m = {1: 0x7f, 2: 0x1f, 3: 0xf, 4: 7}[n]

    def f(us):
        r = us[0] & u(m)
        for x in us[1:]:
            r = (r << u(6)) | (x & u(63))
        return r
    return f


def check(c):
    c.level = 'proof'
    c.rule('per Unicode class of codepoints: the sequence of units appended and the expression of each unit, '
           'compared as finite tables with the Unicode formula; for the readers, the expression of the codepoint '
           'over the units of every head class, and the number of units consumed')
    m = c.ir([vlib.VERIF + '/harness/P08.cc'], ['^h_'], inline=['ron::', '__gnu_cxx::', '^bool __gnu', '^__gnu'])
    for lo, hi, n in CLASSES8:
        c.part(writes, c, m, 'h_utf8', lo, hi, u8(n), 'UTF-8')
    for lo, hi, n in CLASSES8:
        for a, b in cut(lo, hi, ESC):
            if a in ESC:
                ch = ord(ESC[a])
                writes(c, m, 'h_esc', a, b, [lambda cp: cp * u(0) + u(0x5c), lambda cp: cp * u(0) + u(ch)],
                       'escaped')
            else:
                c.part(writes, c, m, 'h_esc', a, b, u8(n), 'escaped')
    one = [lambda cp: cp]
    two = [lambda cp: u(0xd800) + ((cp - u(0x10000)) >> u(10)), lambda cp: u(0xdc00) + (cp & u(0x3ff))]
    c.part(writes, c, m, 'h_utf16', 0, 0xd7ff, one, 'UTF-16')
    c.part(writes, c, m, 'h_utf16', 0xe000, 0xffff, one, 'UTF-16')
    c.part(writes, c, m, 'h_utf16', 0x10000, 0x10ffff, two, 'UTF-16')
    for lo, hi, n in ((0, 0x7f, 1), (0xc2, 0xdf, 2), (0xe0, 0xef, 3), (0xf0, 0xf4, 4)):
        c.part(reader, c, m, 'h_read8', 1, lo, hi, n, f8(n), 'UTF-8 reader')
    for lo, hi in ((0, 0xd7ff), (0xe000, 0xffff)):
        c.part(reader, c, m, 'h_read16', 2, lo, hi, 1, lambda us: us[0], 'UTF-16 reader')
    reader(c, m, 'h_read16', 2, 0xd800, 0xdbff, 2,
           lambda us: u(0x10000) + ((us[0] - u(0xd800)) << u(10)) + (us[1] - u(0xdc00)), 'UTF-16 reader')
