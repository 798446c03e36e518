"""Atoms, ranges and slices: type tags, packed byte ranges and the interval
algebra of Range/Slice are exact for every value."""
import absint as ai
import vlib
from vlib import arg, k, showbits, argobj, linear, lsum

MINOBS = 60
H = vlib.VERIF + '/harness/P04.cc'
U = 'ron/uuid.hpp'
S = 'ron/slice.hpp'


def check(c):
    c.level = 'proof'
    c.rule('bit provenance of atom words; linear forms of range and slice offsets')
    m = c.ir([H], ['^h_', '_GLOBAL__sub_I_P04'], inline=['ron::', '^__cxx_global'])
    init = vlib.static_init(m, 'sub_I')

    def run(nm):
        f = c.fn(m, '^%s$' % nm)
        it = ai.walk(f, m, init=init)
        c.need(it.rets, nm)
        return list(it.rets.values())

    def words(nm, out, want, what):
        for rv, st in run(nm):
            for i, w in enumerate(want):
                got = vlib.bits_of(st, argobj(out), 8 * i, 8)
                c.ob('%s: %s %s' % (nm[2:], ('value', 'origin')[i], what), list(got) == list(w),
                     'got %s want %s' % (showbits(got), showbits(w)), U)

    def value(nm, want, what, w=None):
        for rv, st in run(nm):
            c.ob('%s: %s' % (nm[2:], what), list(rv.b[:len(want)]) == want and not any(rv.b[len(want):]),
                 repr(rv), U)
    v, o = arg(0), arg(1)
    b30 = arg(1, 32)[0:30]
    e30 = arg(2, 32)[0:30]

    def rng(tag, b=b30, e=e30):
        return b + [0, 0] + e + list(tag)
    words('h_int', 3, [v, rng([1, 0])], 'INT atom')
    words('h_float', 3, [v, rng([1, 1])], 'FLOAT atom')
    words('h_string', 4, [arg(0, 32) + arg(3, 32), rng([0, 1])], 'STRING atom')
    words('h_typed', 3, [k(0, 64), b30 + [0, 0] + e30 + arg(0, 8)[0:2]], 'typed atom')
    value('h_type', o[62:64], 'type tag is the two top bits')
    value('h_safe_origin', o[0:30] + [0, 0] + o[32:62], 'range without the tag')
    value('h_begin', o[0:30], 'begin offset')
    value('h_end', o[32:62], 'end offset')
    value('h_rsb', o[0:30], 'begin offset')
    value('h_rse', o[32:62], 'end offset')
    value('h_integer', v, 'integer value')
    value('h_cp', v[0:32], 'codepoint')
    value('h_cpsz', v[32:64], 'remaining codepoints')
    value('h_payload', v[0:60], '60 payload bits')
    value('h_flags', v[60:64], '4 flag bits')
    value('h_be', [v[(7 - i // 8) * 8 + i % 8] for i in range(64)], 'big-endian')
    for rv, st in run('h_float_back'):
        with c.trying():
            got = vlib.bits_of(st, argobj(2), 0, 8)
            c.ob('float value', got == v, showbits(got), U)
    for nm in ('h_atom', 'h_atomw', 'h_uuid', 'h_a2u'):
        with c.trying():
            words(nm, 2, [v, o], 'kept as is')
    words('h_nil', 0, [k(0, 64), k(0, 64)], 'nil')
    words('h_time', 2, [v, o[0:60] + [0, 1, 0, 0]], 'event id')
    words('h_event', 2, [v, o[0:60] + [0, 1, 0, 0]], 'event id')
    words('h_derive', 2, [v, o[0:60] + [1, 1, 0, 0]], 'derived id')
    words('h_derived', 2, [v, o[0:60] + [1, 1, 0, 0]], 'derived id')
    import order
    labs = [ai.Label(('in', 'a%d' % i), 64) for i in range(4)]
    for nm, fn in (('h_aeq', lambda r: (r[0], r[1]) == (r[2], r[3])), ('h_ane', lambda r: (r[0], r[1]) != (r[2], r[3]))):
        with c.trying():
            f = c.fn(m, '^%s$' % nm)
            for r in order.weak_orders(4):
                od = order.Order(dict(zip(labs, r)))
                it = ai.walk(f, m, decide=od.decide)
                got = {od.value(rv) for rv, st in it.rets.values()}
                c.ob('Atom %s under %s' % (nm[2:], r), got == {int(fn(r))}, repr(got), U)
    # ranges
    A, B, X = (ai.Label(('in', 'a%d' % i), 32) for i in range(3))

    def two(nm, b, e):
        for rv, st in run(nm):
            for i, w in enumerate((b, e)):
                got = linear(vlib.mem_value(st, argobj(3), 4 * i, 4))
                c.ob('Range %s: %s' % (nm[4:], ('begin', 'end')[i]), got == w, '%r want %r' % (got, w), S)
    a, b, x = (A, 1), (B, 1), (X, 1)
    two('h_r_froto', lsum(a), lsum(b))
    two('h_r_atfor', lsum(a), lsum(a, b))
    two('h_r_consume', lsum(a, x), lsum(b))
    two('h_r_shorten', lsum(a), lsum(b, (X, -1)))
    two('h_r_endat', lsum(a), lsum(x))
    two('h_r_resize', lsum(a), lsum(a, x))
    two('h_r_inc', lsum(a, 1), lsum(b))
    two('h_r_size', lsum(b, (A, -1)), lsum(b, (A, -1)))
    two('h_r_word', lsum(a), lsum(b))
    l32 = [ai.Label(('in', 'a%d' % i), 32) for i in range(4)]

    def pairs(od, t):
        # equality of concatenated halves is equality of both
        if t[0] == 'eq' and isinstance(t[1], ai.V) and isinstance(t[2], ai.V) and t[1].w == 64:
            r = True
            for h in (0, 32):
                p = ai.V(32, t[1].b[h:h + 32]).label()
                q = ai.V(32, t[2].b[h:h + 32]).label()
                if p not in od.rank or q not in od.rank:
                    return None
                r = r and od.rank[p] == od.rank[q]
            return r
        return None
    for nm, n, fn in (('h_r_empty', 2, lambda r: r[0] == r[1]), ('h_r_valid', 2, lambda r: r[1] >= r[0]),
                      ('h_r_eq', 4, lambda r: (r[0], r[1]) == (r[2], r[3])),
                      ('h_r_ne', 4, lambda r: (r[0], r[1]) != (r[2], r[3]))):
        with c.trying():
            f = c.fn(m, '^%s$' % nm)
            for r in order.weak_orders(n):
                od = order.Order(dict(zip(l32, r)), extra=pairs)
                it = ai.walk(f, m, decide=od.decide)
                try:
                    got = {od.value(rv) for rv, st in it.rets.values()}
                except order.Unknown as e:
                    raise vlib.Broken('%s: %r' % (nm, e))
                c.ob('Range %s under %s' % (nm[4:], r), got == {int(fn(r))}, repr(got), S)
    # slices: begin/end pointers relative to the buffer
    A, B, X, Y = (ai.Label(('in', 'a%d' % i), 32) for i in range(1, 5))
    a, b, x, y = (A, 1), (B, 1), (X, 1), (Y, 1)

    def sl(nm, lo, hi):
        for rv, st in run(nm):
            p = [vlib.mem_value(st, argobj(5), 8 * i, 8) for i in range(3)]
            for i, (nmq, w) in enumerate((('begin', lo), ('end', hi), ('buffer', lsum()))):
                ok = isinstance(p[i], ai.P) and p[i].o == argobj(0) and linear(p[i].off) == w
                c.ob('Slice %s: %s' % (nm[4:], nmq), ok, repr(p[i]), S)
            n = linear(vlib.mem_value(st, argobj(6), 0, 4))
            d = dict(hi[0])
            for t, q in lo[0]:
                d[t] = (d.get(t, 0) - q) % (1 << 32)
            want = (frozenset((t, q) for t, q in d.items() if q), (hi[1] - lo[1]) % (1 << 32))
            c.ob('Slice %s: size is end - begin' % nm[4:], n == want, '%r want %r' % (n, want), S)
    sl('h_s_range', lsum(a), lsum(b))
    sl('h_s_reset', lsum(), lsum(b))
    sl('h_s_consumed', lsum(), lsum(a))
    sl('h_s_slice', lsum(a, x), lsum(a, y))
    sl('h_s_cutoff', lsum(a), lsum(x))
    sl('h_s_inc', lsum(a, 1), lsum(b))
    sl('h_s_consume', lsum(a, x), lsum(b))
    sl('h_s_endat', lsum(a), lsum(x))
    sl('h_s_resize', lsum(a), lsum(a, x))
    for nm, w in (('h_s_at', lsum(a, x)), ('h_s_idx', lsum(a, x)), ('h_s_deref', lsum(a))):
        with c.trying():
            for rv, st in run(nm):
                l = rv.label() if isinstance(rv, ai.V) else None
                ok = l is not None and l.t[0] == 'idx' and l.t[1] == argobj(0) and linear(l.t[2]) == w and l.t[3] == 1
                c.ob('Slice %s: reads the stated byte' % nm[4:], ok, repr(rv), S)
    for rv, st in run('h_s_rangeof'):
        with c.trying():
            for i, w in enumerate((lsum(x, (A, -1)), lsum(y, (A, -1)))):
                got = linear(vlib.mem_value(st, argobj(5), 4 * i, 4))
                c.ob('Slice range_of: %s' % ('begin', 'end')[i], got == w, '%r' % (got,), S)
    f = c.fn(m, '^h_s_str$')
    it = ai.walk(f, m, init=init)
    n = 0
    for key, I, args, st, pos in it.calls(lambda d: 'basic_string' in d and '::~' not in d):
        with c.trying():
            src, ns, viewed = [], [], False
            for q in args[1:]:
                if isinstance(q, ai.P) and q.o == argobj(0):
                    src.append(q)
                elif isinstance(q, ai.P) and q.o[0] == 'al' and isinstance(q.off, int):
                    x = vlib.mem_value(st, q.o, q.off, 8)
                    if isinstance(x, ai.P) and x.o == argobj(0):
                        src.append(x)
                        viewed = True      # goes through a NUL-terminated view
                elif isinstance(q, ai.V) and q.w == 64:
                    ns.append(linear(q))
            if not src:
                continue
            n += 1
            c.sites += 1
            ok = not viewed and (
                len(src) == 1 and linear(src[0].off) == lsum(a) and ns == [lsum(b, (A, -1))] or
                len(src) == 2 and not ns and linear(src[0].off) == lsum(a) and linear(src[1].off) == lsum(b))
            c.ob('Slice str: copies exactly [begin, end)', ok, '%s %r' % (I['cd'][:120], args), vlib.where(I))
    c.need(n, 'string built by Slice::str')
