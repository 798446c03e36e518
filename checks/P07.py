"""Hybrid timestamps: every calendar field lands in its own bit field, most
significant first, so later instants get greater words."""
import re
import absint as ai
import vlib
from vlib import showbits, linear, lsum

MINOBS = 10
U = 'ron/uuid.cc'


def small(name, n):
    l = ai.Label(('tm', name), n)
    return [(l, i) for i in range(n)]


def v32(bits):
    return ai.V(32, bits + [0] * (32 - len(bits)))


F = {'sec': small('sec', 6), 'min': small('min', 6), 'hour': small('hour', 5), 'mday0': small('mday0', 5),
     'mon': small('mon', 4), 'year': small('year', 9)}


def check(c):
    c.level = 'proof'
    c.rule('bit provenance of the timestamp word, given the C library contract for struct tm '
           '(sec<64, min<64, hour<32, 1<=mday<=31, 0<=mon<=11, 2010<=year<=2350)')
    c.assumptions.append('clock between years 2010 and 2350; nanoseconds below one second')
    seen = []

    def model(it, I, cd, args, st, ctx):
        n = I.get('callee', '') or cd
        if re.match(r'^gmtime(_r)?$', n.split('(')[0]):
            src = vlib.mem_value(st, args[0].o, args[0].off, 8)
            seen.append((I, src))
            out = args[1] if len(args) > 1 else ai.P(('tm',), 0)
            vals = [v32(F['sec']), v32(F['min']), v32(F['hour']), ai.binop('add', v32(F['mday0']), ai.const(32, 1)),
                    v32(F['mon']), ai.binop('add', v32(F['year']), ai.const(32, 110))]
            for i, v in enumerate(vals):
                it.store(st, ai.P(out.o, out.off + 4 * i), v, 4)
            return out
        return NotImplemented
    m = c.ir([vlib.VERIF + '/harness/P07.cc', U], ['^h_'], inline=['ron::'])
    ns = ai.V(64, small('nanos', 30) + [0] * 34)
    it = ai.walk(c.fn(m, '^h_time$'), m, argvals={1: ns}, model=model)
    c.need(seen, 'conversion of the time to calendar fields (UTC)')
    for I, src in seen:
        with c.trying():
            c.ob('calendar fields are those of the given time', src == ai.lab(64, ('in', 'a0')), repr(src), vlib.where(I))
    for kk, (rv, st) in it.rets.items():
        with c.trying():
            b = list(rv.b)
            q = ai.binop('udiv', ns, ai.const(64, 100))
            c.ob('fraction: nanos/100 in bits 0..23', b[0:24] == list(q.b[0:24]) and not any(q.b[24:]),
                 showbits(b[0:24]), U)
            for nm, lo in (('sec', 24), ('min', 30), ('hour', 36), ('mday0', 42)):
                w = (F[nm] + [0])[:6]
                c.ob('%s in bits %d..%d' % (nm, lo, lo + 5), b[lo:lo + 6] == w, showbits(b[lo:lo + 6]), U)
            x = b[48:64]
            ok = all(isinstance(p, tuple) for p in x) and x == [(x[0][0], i) for i in range(16)]
            got = linear(x[0][0]) if ok else None
            Y, M = F['year'][0][0], F['mon'][0][0]
            c.ob('month count since 2010 in bits 48..63', ok and got == lsum((Y, 12), (M, 1)),
                 '%s = %r' % (showbits(x), got), U)
    # Now() feeds the wall clock, with microseconds scaled to nanoseconds
    m = c.ir([vlib.VERIF + '/harness/P07.cc', U], ['^h_now'], inline=['ron::'], keep=['HybridTime'])
    clocks = []

    def clock(it, I, cd, args, st, ctx):
        n = (I.get('callee', '') or cd).split('(')[0]
        if n in ('gettimeofday', 'clock_gettime'):
            out = args[0] if n == 'gettimeofday' else args[1]
            for i, x in enumerate(('sec', 'sub')):
                it.store(st, ai.P(out.o, out.off + 8 * i), ai.lab(64, ('clock', I['id'], x)), 8)
            clocks.append((I['id'], 'us' if n == 'gettimeofday' else 'ns',
                           None if n == 'gettimeofday' else args[0].const()))
            return ai.const(32, 0)
        return NotImplemented
    it = ai.walk(c.fn(m, '^h_now$'), m, model=clock)
    cs = it.calls(lambda d: 'HybridTime' in d)
    c.need(cs, 'Now() builds a HybridTime')
    for key, I, args, st, pos in cs:
        with c.trying():
            s, n = args[0], args[1]
            c.need(clocks, 'a clock known to this analysis')
            ok, why = False, 'not the seconds and the scaled microseconds of one reading: %r %r' % (s, n)
            for k, kind, cid in clocks:
                sec, sub = ai.lab(64, ('clock', k, 'sec')), ai.lab(64, ('clock', k, 'sub'))
                if kind == 'us':
                    want = [lsum((sub.label(), 1000), w=64)]
                    ok |= s == sec and linear(n, 64) in want
                else:
                    th = ai.const(64, 1000)
                    want = [linear(sub, 64), linear(ai.binop('sub', sub, ai.binop('srem', sub, th)), 64),
                            linear(ai.binop('mul', ai.binop('sdiv', sub, th), th), 64)]
                    ok |= s == sec and linear(n, 64) in want and cid == 0
            c.ob('Now(): seconds and microseconds*1000 of one clock reading', ok, why, vlib.where(I))
            c.ob('Now(): reads the wall clock', bool(clocks), '', vlib.where(I))
    for kk, (rv, st) in it.rets.items():
        with c.trying():
            l = rv.label()
            c.ob('Now(): returns that timestamp', l is not None and l.t[0] == 'call' and 'HybridTime' in l.t[1], repr(rv), U)
