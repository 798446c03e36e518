"""UUID text form: every payload and flag bit of both words goes to its own
base64 digit, and comes back from it; order and equality are those of the two
words."""
import absint as ai
import vlib
import order
import textout
from vlib import arg, argobj, showbits, tabindex

MINOBS = 2500
H = vlib.VERIF + '/harness/P02.cc'
U = 'ron/uuid.cc'


def classes(nm):
    """every value of the 60 payload bits falls into exactly one: zero, or the
    least one bit is at place p, the bits above it being anything"""
    l = ai.Label(('in', nm), 60)
    yield 'zero', [0] * 60, 1
    for p in range(60):
        yield 'least one bit %d' % p, [0] * p + [1] + [(l, i) for i in range(p + 1, 60)], 10 - p // 6


def symbol(v, bits, alphabet):
    """None when the byte v is the symbol the alphabet gives to these bits"""
    n = ai.V(8, (list(bits) + [0] * 8)[:8]).const()
    if v.const() is not None:
        return None if n is not None and v.const() == ord(alphabet[1][n]) else 'writes the byte %d' % v.const()
    t = tabindex(v)
    if t is None:
        raise vlib.Broken('a symbol which is not from an alphabet: %r' % (v,))
    want = list(bits)
    while want and want[-1] == 0:
        want.pop()
    if alphabet[0] not in t[0]:
        return 'a symbol of %s' % t[0]
    return None if t[1] == want else 'shows bits %s, wanted %s' % (showbits(t[1]), showbits(want))


BASE = ('BASE_PUNCT', '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~')
VERSION = ('UUID_PUNCT', '$%+-')


def same(got, want):
    """got: items of the string written; want: (bits, alphabet) or a character"""
    for i, w in enumerate(want):
        if i >= len(got):
            return 'only %d symbols are written, wanted %d' % (len(got), len(want))
        if got[i][0] != 'c':
            return 'symbol %d is not a character: %r' % (i, got[i])
        if isinstance(w, str):
            e = None if got[i][1].const() == ord(w) else 'not %r' % w
        else:
            e = symbol(got[i][1], *w)
        if e:
            return 'symbol %d: %s' % (i, e)
    return None if len(got) == len(want) else '%d symbols are written, wanted %d' % (len(got), len(want))


def nibble(n, k):
    return [n >> i & 1 for i in range(k)]


def digits(bits, n):
    return [(bits[54 - 6 * i:60 - 6 * i], BASE) for i in range(n)]


def globals_of(m):
    if 'consts' not in m:
        m['consts'] = vlib.static_init(m, '_GLOBAL__sub_I')
    return m['consts']


PREV = (('t', 'prev'),)     # what the string held before


def texts(c, m, f, words, ret, before):
    consts = globals_of(m)

    def init(it, st):
        consts(it, st)
        for (o, off), bits in words.items():
            it.store(st, ai.P(o, off), ai.V(64, bits), 8)
        if before:
            textout.put(st, ret, before)
    it = ai.walk(f, m, partition=True, track=True, model=textout.model, loadhook=textout.hook, init=init)
    c.need(it.rets, '%s returns' % f['d'])
    for (ctx, b), (rv, st) in it.rets.items():
        c.paths += 1
        g = textout.get(st, ret)
        c.need(g is not None, 'the text written by %s' % f['d'].split('(')[0])
        yield g[len(before):] if g[:len(before)] == before else (('overwritten',),)


def writer(c):
    src, kw = [U, H], dict(inline=['ron::', '^std::pair', '^__cxx_global'])
    A0, A1 = ai.P(argobj(0), 0), ai.P(argobj(1), 0)
    # -- a word, whatever its four flag bits
    fl = [(ai.Label(('in', 'flags'), 4), i) for i in range(4)]
    for rx, ret, before, obj in (('^ron::Word::write_base64\\(', A1, PREV, argobj(0)), ('^h_wstr$', A0, (), argobj(1))):
        m = c.ir(src, [rx, '_GLOBAL__sub_I'], **kw)
        f = c.fn(m, rx)
        for name, bits, n in classes('w'):
            with c.trying():
                for got in texts(c, m, f, {(obj, 0): bits + fl}, ret, before):
                    err = same(got, digits(bits, n))
                    c.ob('%s, %s: exactly its %d leading digits' % ('Word writer' if before else 'Word::str', name, n),
                         err is None, err or '', U)
    # -- a UUID: every variety and version, every class of either word
    for rx, ret, before, obj in (('^ron::Uuid::write_base64\\(', A1, PREV, argobj(0)),
                                 ('^ron::Uuid::str[([]', A0, (), argobj(1)),
                                 ('^ron::Uuid::ToString[([]', A0, (), argobj(1))):
        m = c.ir(src, [rx, '_GLOBAL__sub_I'], **kw)
        f = c.fn(m, rx)
        vals, orgs = list(classes('v')), list(classes('o'))
        few = (0, 1, 30, 60) if before else (0, 30)
        cases = [(vr, vs, i, j) for vr in range(16) for vs in range(4) for i in few for j in few]
        if before:
            for k in range(61):
                for vr in (0, 5):
                    for vs in (0, 2):
                        cases += [(vr, vs, k, j) for j in (0, 17)] + [(vr, vs, i, k) for i in (0, 17)]
        for vr, vs, i, j in cases:
            with c.trying():
                (vn, vb, vl), (on, ob, ol) = vals[i], orgs[j]
                words = {(obj, 0): ob + nibble(vs, 4), (obj, 8): vb + nibble(vr, 4)}
                want = ([(nibble(vr, 4), BASE), '/'] if vr else []) + digits(vb, vl)
                if vs or j:
                    want += [(nibble(vs, 2), VERSION)] + digits(ob, ol)
                for got in texts(c, m, f, words, ret, before):
                    err = same(got, want)
                    c.ob('Uuid::%s, variety %d, version %d, value %s, origin %s' % (rx.split('::')[2].rstrip('[(\\'), vr, vs, vn, on),
                         err is None, err or '', U)


def abc_hook(it, st, p, size, isptr, site):
    """ABC[x] on the 64 base64 characters (the caller's guarantee): six
    significant bits (P01 decides the table itself)"""
    if p.o[0] == 'g' and 'ABC' in p.o[1] and size == 1 and not isinstance(p.off, int):
        l = ai.Label(('abc', p.off), 8)
        return ai.V(8, [(l, i) for i in range(6)] + [0, 0])
    return None


def abc_of(off):
    return ai.Label(('abc', off), 8)


def reader(c):
    m = c.ir([U, H], ['^h_'], inline=['ron::', '^std::pair', r'std::operator[<>!=]'],
             keep=['^ron::Uuid::Uuid\\(ron::Slice'])
    for n in range(11):
        with c.trying():
            f = c.fn(m, '^h_word%d$' % n)
            it = ai.walk(f, m, partition=True, loadhook=abc_hook)
            c.need(it.rets, 'word constructor')
            for key, (rv, st) in it.rets.items():
                check_word(c, 'Word reader, %d digits' % n, rv.b, ('P', ('in', 'a1')), n, arg(0, 8)[0:4], f)
    for nm in ('h_uuid', 'h_parse'):
        with c.trying():
            f = c.fn(m, '^%s$' % nm)
            it = ai.walk(f, m, partition=True, loadhook=abc_hook)
            for key, (rv, st) in it.rets.items():
                for off, ob, fl in ((0, 1, 0), (8, 3, 2)):
                    got = vlib.bits_of(st, vlib.argobj(4), off, 8)
                    fb = flagbits(got[60:64])
                    c.ob('%s: %s flags come from its own punctuation' % (nm, 'value' if off == 0 else 'origin'),
                         fb == 'a%d' % fl, showbits(got[60:64]), 'ron/uuid.hpp')
                    check_word(c, '%s: %s' % (nm, 'value' if off == 0 else 'origin'), got,
                               ('P', ('in', 'a%d' % ob)), 10, None, f)
    for nm, lo, n in (('h_version', 1, 2), ('h_variety', 0, 4)):
        with c.trying():
            f = c.fn(m, '^%s$' % nm)
            it = ai.walk(f, m)
            for key, (rv, st) in it.rets.items():
                want = arg(lo)[60:60 + n] + [0] * (32 - n)
                c.ob('%s reads its own flag bits' % nm[2:], list(rv.b) == want, repr(rv), 'ron/uuid.hpp')
    # order
    labs = [ai.Label(('in', 'a%d' % i), 64) for i in range(4)]
    cmp = {'lt': lambda a, b: a < b, 'gt': lambda a, b: a > b, 'le': lambda a, b: a <= b,
           'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
    for nm, fn in cmp.items():
        with c.trying():
            for pre, n in (('h_', 4), ('h_w', 2)):
                f = c.fn(m, '^%s%s$' % (pre, nm))
                for r in order.weak_orders(n):
                    od = order.Order(dict(zip(labs, r)))
                    it = ai.walk(f, m, decide=od.decide)
                    try:
                        got = {od.value(rv) for rv, st in it.rets.values()}
                    except order.Unknown as e:
                        raise vlib.Broken('%s: %r' % (f['d'], e))
                    want = int(fn(r[0], r[1]) if n == 2 else fn((r[0], r[1]), (r[2], r[3])))
                    c.ob('%s%s under order %s' % ('Uuid ' if n == 4 else 'Word ', nm, r), got == {want},
                         'answers %s, want %d' % (got, want), 'ron/uuid.hpp')


def flagbits(b):
    if not all(isinstance(x, tuple) for x in b):
        return None
    l = b[0][0]
    if [x for x in b] != [(l, i) for i in range(4)]:
        return None
    off = l.t[1]
    if off[0] == 'lin' and off[1] == 0 and len(off[2]) == 1:
        tb = vlib.termbits(off[2][0][0])
        if tb and isinstance(tb[0], tuple) and tb[0][0].t[0] == 'in':
            return tb[0][0].t[1]
    return None


def check_word(c, name, bits, obj, n, flags, f):
    for i in range(10):
        got = list(bits[54 - 6 * i:60 - 6 * i])
        if i >= n:
            c.ob('%s: missing digit %d reads as zero' % (name, i), got == [0] * 6, showbits(got), 'ron/uuid.hpp')
            continue
        ok = all(isinstance(x, tuple) for x in got) and got == [(got[0][0], j) for j in range(6)]
        if ok:
            off = got[0][0].t
            ok = off[0] == 'abc' and src_char(off[1]) == (obj, i)
        c.ob('%s: digit %d fills its own six bits' % (name, i), ok, showbits(got), 'ron/uuid.hpp')
    if flags is not None:
        if n == 10:
            c.ob('%s: flags' % name, list(bits[60:64]) == flags, showbits(bits[60:64]), 'ron/uuid.hpp')
        else:
            c.ob('%s: flags' % name, list(bits[60:64]) == flags, showbits(bits[60:64]), 'ron/uuid.hpp')


def src_char(off):
    """(object, byte offset) of the character used as the table index"""
    if not (isinstance(off, tuple) and off[0] == 'lin' and off[1] == 0 and len(off[2]) == 1 and off[2][0][1] == 1):
        return None
    tb = vlib.termbits(off[2][0][0])
    tb = [x for x in tb[:8]]
    if len(tb) < 7 or not all(isinstance(x, tuple) for x in tb[:7]):
        return None
    l = tb[0][0]
    b0 = tb[0][1]
    if b0 % 8 or any(x != (l, b0 + i) for i, x in enumerate(tb)):
        return None
    t = l.t
    if t[0] == 'm':
        return (t[1], t[2] + b0 // 8)
    return None


def check(c):
    c.level = 'proof'
    c.rule('bit provenance of every base64 digit written and of every word bit read; '
           'the writers are walked for every class of words by their least one bit, so how many digits are due is known; '
           'comparison decision tables over all orderings of the four words')
    c.assumptions.append('the reader constructor is given base64 characters only (its documented contract, '
                         'established by the grammars of P07/P08)')
    c.part(writer, c)
    c.part(reader, c)
