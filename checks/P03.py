"""Store keys: the 128-bit key is a bijective, order-preserving image of
(form, origin, value) and it is what crosses the database boundary."""
import re
import absint as ai
import vlib
import order
from vlib import arg, argobj, bits_of, k, showbits

MINOBS = 300


def ret1(c, m, name):
    f = c.fn(m, '^%s$' % name)
    it = ai.walk(f, m, partition=True)
    c.need(it.rets, '%s returns' % name)
    return f, it


def expect(c, m, name, obj, off, spec, what):
    f, it = ret1(c, m, name)
    for key, (rv, st) in it.rets.items():
        got = bits_of(st, argobj(obj), off, len(spec) // 8)
        c.ob('%s@%d: %s' % (name, off, what), list(got) == list(spec),
             'got %s, want %s' % (showbits(got), showbits(spec)), 'db/key.hpp')


def check(c):
    c.level = 'proof'
    c.rule('bit provenance: every bit of the stored key comes from the stated bit of '
           '(form, origin, value), and back; comparison decision tables over all orderings')
    m = c.ir(['db/key.cc', 'ron/uuid.cc', vlib.VERIF + '/harness/P03.cc'],
             ['^h_', '_GLOBAL__sub_I_key', '_GLOBAL__sub_I_uuid'],
             inline=['ron::', '^std::pair', 'std::operator[<>!=]', 'std::make_pair', '^__cxx_global'])
    v, o, fm = arg(0), arg(1), arg(2, 8)
    # in-order key: form(8) origin(60) value(60), most significant first
    lo = v[0:60] + o[0:4]
    hi = o[4:60] + fm
    expect(c, m, 'h_pack', 3, 0, hi, 'first word is form:8 | origin[4..59]')
    expect(c, m, 'h_pack', 3, 8, lo, 'second word is origin[0..3] | value:60')
    a, b = arg(0), arg(1)

    def bs(x):
        return [x[(7 - i // 8) * 8 + i % 8] for i in range(64)]
    expect(c, m, 'h_be', 2, 0, bs(a), 'big-endian first word')
    expect(c, m, 'h_be', 2, 8, bs(b), 'big-endian second word')

    def mem(objarg, off):
        l = ai.Label(('m', argobj(objarg), off, 0), 64)
        return [(l, i) for i in range(64)]
    expect(c, m, 'h_unbe', 1, 0, bs(mem(0, 0)), 'decodes the first word from big-endian bytes')
    expect(c, m, 'h_unbe', 1, 8, bs(mem(0, 8)), 'decodes the second word')
    # id() inverts the packing
    expect(c, m, 'h_id', 3, 0, b[0:60] + [0] * 4, 'value payload back')
    expect(c, m, 'h_id', 3, 8, b[60:64] + a[0:56] + arg(2, 8)[0:2] + [0, 0],
           'origin payload back with the requested flags')
    expect(c, m, 'h_id_default', 2, 0, b[0:60] + [0] * 4, 'value payload back')
    expect(c, m, 'h_id_default', 2, 8, b[60:64] + a[0:56] + [0, 1, 0, 0],
           'default flags: event (time) id')
    f, it = ret1(c, m, 'h_form')
    for kk, (rv, st) in it.rets.items():
        with c.trying():
            c.ob('h_form: form is the top byte', list(rv.b[:8]) == a[56:64], repr(rv), 'db/key.hpp')
    # order: lexicographic on (first, second), i.e. memcmp order of be()
    labs = [ai.Label(('in', 'a%d' % i), 64) for i in range(4)]
    spec = {'h_lt': lambda r: (r[0], r[1]) < (r[2], r[3]),
            'h_gt': lambda r: (r[0], r[1]) > (r[2], r[3]),
            'h_eq': lambda r: (r[0], r[1]) == (r[2], r[3]),
            'h_ne': lambda r: (r[0], r[1]) != (r[2], r[3])}
    for nm, fn in spec.items():
        with c.trying():
            f = c.fn(m, '^%s$' % nm)
            for r in order.weak_orders(4):
                od = order.Order(dict(zip(labs, r)))
                it = ai.walk(f, m, decide=od.decide)
                try:
                    got = {od.value(rv) for rv, st in it.rets.values()}
                except order.Unknown as e:
                    raise vlib.Broken('%s: not decided by the order of the key words: %r' % (nm, e))
                c.ob('%s under order %s' % (nm, r), got == {int(fn(r))},
                     'operands ordered %s: answers %s' % (r, got), 'db/key.hpp')
    # END is above every key; ZERO is below every key
    f = c.fn(m, '_GLOBAL__sub_I_key')
    it = ai.walk(f, m)
    for kk, (rv, st) in it.rets.items():
        with c.trying():
            got = bits_of(st, ('g', '_ZN3ron3Key3ENDE'), 0, 16)
            c.ob('Key::END is the greatest key', got == [1] * 128, showbits(got), 'db/key.cc')
    boundary(c)


INL = ['^ron::', '^std::__shared_ptr', '^std::shared_ptr', 'static_pointer_cast',
       'rocksdb::Slice::', 'std::pair', 'std::operator[<>!=]', 'std::make_pair']
KEEP = ['MasterRDT', 'ron::TextFrame::', r'ron::Uuid::(str|write|Uuid\(ron::Slice)', 'ron::Word::write']


def boundary(c):
    """every key-shaped slice given to, or taken from, the database"""
    R = r'^ron::RocksDBStore<ron::TextFrame>::'
    m = c.ir(['db/rocks_store.cc', 'db/key.cc'],
             [R + r'(Write|Read)\(', R + r'Iterator::(SeekTo|key)\(',
              r'RDTMerge<ron::TextFrame>::(FullMergeV2|PartialMergeMulti)'],
             inline=INL, keep=KEEP + [r'^ron::Key::be\(ron::Slice'])

    def be(bits):
        return [bits[(7 - i // 8) * 8 + i % 8] for i in range(64)]

    def unbe(it, I, cd, args, st, ctx):
        """the decoder, whose own bits are decided above (h_unbe)"""
        if cd.startswith('ron::Key::be(ron::Slice') and len(args) == 2 and isinstance(args[0], ai.P):
            if isinstance(args[1], ai.V) and args[1].b[:32] == (0,) * 32 or list(args[1].b[:32]) == [0] * 32:
                ws = [it.load(st, ai.P(args[0].o, args[0].off + n), 8, False, ('be', I['id'], n)) for n in (0, 8)]
                return ai.A([ai.V(64, be(list(w.b))) for w in ws])
        return NotImplemented

    def sliceargs(st, args):
        """byte contents of 16-byte slices among the arguments"""
        for a in args:
            if isinstance(a, ai.P) and isinstance(a.off, int):
                c0 = st.mem.get(a.o, {})
                x = c0.get(a.off)
                if x and x[0] == 'p' and isinstance(x[1], ai.P):
                    n = bits_of(st, a.o, a.off + 8, 8)
                    ln = ai.V(64, n).const() if all(not (isinstance(q, tuple) and q[0] == 'ptr') for q in n) else None
                    yield x[1], ln

    def keyparam(f, i):
        return arg(i)

    def dbcalls(f, it, need):
        out = []
        for key, I, args, st, pos in it.calls(lambda n: True):
            cd = I.get('cd', '')
            if 'fnptr' in I or cd.startswith('rocksdb::WriteBatch::Merge') or cd.startswith('rocksdb::WriteBatchBase'):
                for p, ln in sliceargs(st, args):
                    if ln == 16 and isinstance(p.off, int):
                        out.append((I, p, st))
        c.need(len(out) >= need, 'database call taking a key in %s' % f['d'])
        return out

    # Write(Key,..), Read(Key,..), SeekTo(Key,..): key in i64 params 2,3 (after sret,this)
    for rx, need in ((R + r'Write\(ron::Key', 1), (R + r'Read\(ron::Key', 1),
                     (R + r'Iterator::SeekTo', 2)):
        f = c.fn(m, rx)
        it = ai.walk(f, m)
        want = be(arg(2)) + be(arg(3))
        for I, p, st in dbcalls(f, it, need):
            c.sites += 1
            got = bits_of(st, p.o, p.off, 16)
            c.ob('%s: key bytes given to the database' % f['d'].split('(')[0], got == want,
                 'got %s want big-endian(key)' % showbits(got), vlib.where(I))
    # batch: the key of the record being written
    f = c.fn(m, R + r'Write\(std::vector')
    it = ai.Interp(f, m).run()
    for I, p, st in dbcalls(f, it, 1):
        c.sites += 1
        got = bits_of(st, p.o, p.off, 16)
        labs = {x[0] for x in got if isinstance(x, tuple)}
        ok = False
        if all(isinstance(x, tuple) for x in got):
            for l1 in labs:
                for l2 in labs:
                    if be([(l1, i) for i in range(64)]) + be([(l2, i) for i in range(64)]) == got:
                        ok = ok or vlib.adjacent(l1, l2)
        c.ob('Write(Records): key bytes given to the database', ok,
             'got %s want big-endian of the record key' % showbits(got), vlib.where(I))
    # iterator key: decoded big-endian from the slice of the row
    f = c.fn(m, R + r'Iterator::key')
    it = ai.walk(f, m, track=True, model=unbe)
    n = 0
    for kk, (rv, st) in it.rets.items():
        vals = rv.f if isinstance(rv, ai.A) else None
        if vals is None:
            raise vlib.Broken('Iterator::key: return shape')
        a = list(vals[0].b)
        if all(isinstance(x, tuple) for x in a) and a[0][0].t[0] == 'm' and a[0][0].t[1][0] == 'g':
            n += 1  # Key::END
            c.ob('Iterator::key: END when there is no row', a[0][0].t[1][1] == '_ZN3ron3Key3ENDE', repr(rv))
            continue
        b = list(vals[1].b)
        l1 = a[56][0] if isinstance(a[56], tuple) else None
        l2 = b[56][0] if isinstance(b[56], tuple) else None
        ok = (l1 is not None and l2 is not None and a == be([(l1, i) for i in range(64)]) and
              b == be([(l2, i) for i in range(64)]) and vlib.adjacent(l1, l2))
        c.ob('Iterator::key: decodes the row key', ok, repr(rv), f['file'])
        n += 1
    c.need(n >= 2, 'returns of Iterator::key')
    # merge operator: reduces with the form stored in the key's first byte
    for rx, ki in ((r'FullMergeV2', None), (r'PartialMergeMulti', 1)):
        f = c.fn(m, rx)
        it = ai.Interp(f, m, model=unbe).run()
        cs = it.calls(lambda d: re.search(r'MasterRDT<ron::TextFrame>::Merge\(', d))
        c.need(cs, 'MasterRDT::Merge call in ' + rx)
        for key, I, args, st, pos in cs:
            c.sites += 1
            forms = [a for a in args if isinstance(a, ai.V) and a.w == 8]
            c.need(len(forms) == 1, 'form argument of MasterRDT::Merge')
            b = forms[0].b
            ok = all(isinstance(x, tuple) and x[0].t[0] == 'm' and x[0].t[2] == 0 and x[1] == i
                     for i, x in enumerate(b))
            c.ob('%s: reduces by the form in the row key' % rx, ok, repr(forms[0]), vlib.where(I))
