"""Numbers of a frame: integers are the value their digits say over the whole
range of 64 bits, what is outside of it is told apart; floats go to strtod whole."""
import itertools
import re
import absint as ai
import linear
import tab
import textout
import vlib
from vlib import argobj

MINOBS = 550
SRC = 'ron/text.cc'
H = vlib.VERIF + '/harness/P10.cc'
MAX = '9223372036854775807'
BUF = ('heap', 'text')
START = (0, 0x15555557, 0x2aaaaaa9)          # where the text of the value begins in the frame


INLINE = ['ron::', '^([^()]* )?std::(vector<ron::Atom|pair|forward|move|copy|__copy|__miter|__niter|fill|__fill)']


def digit(i):
    return ai.Label(('digit', i), 4)


def text_bytes(sign, classes):
    """[V]: a sign and digits; classes: (lo, hi) of each digit"""
    out = [ai.const(8, ord(sign))] if sign else []
    facts = {}
    for i, (lo, hi) in enumerate(classes):
        if lo == hi:
            out.append(ai.const(8, 0x30 + lo))
        else:
            out.append(ai.V(8, [(digit(i), k) for k in range(4)] + [1, 1, 0, 0]))
            facts[digit(i)] = ((lo, hi),)
    return out, facts


def put(it, st, at, bs):
    for i in range(at - 8, at + 56):
        v = bs[i - at] if 0 <= i - at < len(bs) else ai.lab(8, ('around', i - at))
        it.store(st, ai.P(BUF, i), v, 1)


def memcmp(it, st, a, b, n):
    """sign of the comparison, when the bytes settle it"""
    for i in range(n):
        x = it.load(st, ai.P(a.o, a.off + i), 1, False, 'memcmp')
        y = it.load(st, ai.P(b.o, b.off + i), 1, False, 'memcmp')
        (xl, xh), (yl, yh) = bounds(x, st), bounds(y, st)
        if xl == xh == yl == yh:
            continue
        return -1 if xh < yl else 1 if xl > yh else None
    return 0


def bounds(v, st):
    try:
        f = linear.fit(linear.of(v, st.facts), v.w, st.facts)
        if f is not None:
            return f.interval(st.facts)
    except (linear.NoForm, KeyError):
        pass
    return ai.vrange(v, st.facts)


def model(it, I, cd, args, st, ctx):
    h = cd.split('(')[0]
    if h in ('memcmp', 'bcmp', 'strncmp', '__builtin_memcmp') and len(args) == 3:
        n = args[2].const() if isinstance(args[2], ai.V) else None
        if n is None or not all(isinstance(a, ai.P) and isinstance(a.off, int) for a in args[:2]):
            return NotImplemented
        r = memcmp(it, st, args[0], args[1], n)
        return ai.const(32, r % (1 << 32)) if r is not None else NotImplemented
    if h in ('strtod', 'strtod_l', '__strtod_internal', 'atof') or re.match(r'^std::(__cxx11::)?stod\(', cd):
        its = cstring(it, st, args[0])
        st.aux['strtod'] = st.aux.get('strtod', ()) + (its,)
        if len(args) > 1 and isinstance(args[1], ai.P) and args[1].o != ai.NULL.o:
            it.havoc(st, args[1].o, ('endptr',))
        return ai.lab(64, ('strtod', len(st.aux['strtod']) - 1))
    if h in ('strtoll', 'strtol', 'atol', 'atoll') or re.match(r'^std::(__cxx11::)?sto(l|ll)\(', cd):
        if len(args) > 2 and args[2].const() not in (10, None):
            st.aux['other'] = h
        if len(args) > 1 and isinstance(args[1], ai.P) and args[1].o != ai.NULL.o:
            it.havoc(st, args[1].o, ('endptr',))
        return integer(cstring(it, st, args[0]))
    if h in ('strtof', 'strtold', 'atoi') or re.match(r'^std::(__cxx11::)?sto(i|f)\(', cd):
        st.aux['other'] = h
        return ai.lab(I.get('w') or 64, ('by', h))
    return textout.model(it, I, cd, args, st, ctx)


def integer(bs):
    """what strtoll gives for a sign and digits (within the range)"""
    v, neg = ai.const(64, 0), False
    for i, b in enumerate(bs):
        if i == 0 and b.const() in (0x2b, 0x2d):
            neg = b.const() == 0x2d
            continue
        if b.b[4:] != (1, 1, 0, 0):
            raise vlib.Broken('a text of other than digits is given to strtoll')
        v = ai.binop('add', ai.binop('mul', v, ai.const(64, 10)), ai.V(64, b.b[:4] + (0,) * 60))
    return ai.binop('sub', ai.const(64, 0), v) if neg else v


class NoEnd(Exception):
    pass


def cstring(it, st, p):
    """the bytes of a C string and the room its buffer has"""
    if not isinstance(p, ai.P) or not isinstance(p.off, int):
        raise vlib.Broken('the text given to strtod')
    its = textout.get(st, p) or (p.o[0] == 'txtdata' and p.off == 0 and textout.get(st, ai.P(p.o[1], p.o[2])))
    if its:
        if any(x[0] != 'c' for x in its):
            raise vlib.Broken('the text given to strtod')
        return tuple(x[1] for x in its)
    out = []
    for i in range(64):
        v = it.load(st, ai.P(p.o, p.off + i), 1, False, 'cstr')
        if v.const() == 0:
            return tuple(out)
        if p.o[0] == 'al' and isinstance(v.b[0], tuple) and v.b[0][0].t[:1] == ('m',):
            if p.o in st.ep:
                raise vlib.Broken('the text given to strtod')
            raise NoEnd()     # never written
        out.append(v)
    raise vlib.Broken('a text without an end')


def room(it, p):
    for b in it.fn['blocks']:
        for J in b['ins']:
            if J['op'] == 'alloca' and ('al', J['id']) == p[:2]:
                return J['size']
    return None


def overrun(c, it):
    """locals written past their end"""
    for st in [s for _, s in it.rets.values()]:
        for o, cells in st.mem.items():
            if o[0] == 'al':
                n = room(it, o)
                for off in cells:
                    if isinstance(off, int) and n is not None and not 0 <= off < n:
                        return 'byte %d of a local of %d bytes is written' % (off, n)
    return None


def classes():
    """all texts of n digits, cut where they part from the largest integer"""
    any_ = (0, 9)
    for n in list(range(1, 19)) + list(range(20, 25)):
        yield n, 'any', [any_] * n
    d = [int(x) for x in MAX]
    for i in range(18):
        pre = [(x, x) for x in d[:i]]
        if d[i] > 0:
            yield 19, 'below at digit %d' % i, pre + [(0, d[i] - 1)] + [any_] * (18 - i)
        if d[i] < 9:
            yield 19, 'above at digit %d' % i, pre + [(d[i] + 1, 9)] + [any_] * (18 - i)
    pre = [(x, x) for x in d[:18]]
    yield 19, 'below at digit 18', pre + [(0, 6)]
    yield 19, 'the largest', pre + [(7, 7)]
    yield 19, 'one over the largest', pre + [(8, 8)]
    yield 19, 'two over the largest', pre + [(9, 9)]


def fits(n, name, sign):
    if n != 19:
        return n < 19
    return name.startswith('below') or name == 'the largest' or name.startswith('one over') and sign == '-'


def statics(m, f):
    """initial values of the static locals of f which nothing writes: no other
    function can name them"""
    own = re.match(r'_Z(N?\w*)', f['name']).group(1)
    written = set()
    for b in f['blocks']:
        for I in b['ins']:
            if I['op'] in ('store', 'call', 'invoke'):
                written |= {o['g'] for o in I['ops'][-1:] if I['op'] == 'store' and 'g' in o}
                written |= {o['g'] for o in I['ops'] if I['op'] != 'store' and 'g' in o}
    out = [(n, g['init']) for n, g in m['globals'].items()
           if not g.get('const') and g.get('init') and n.startswith('_ZZ' + own[:8]) and f['name'][2:] in n and n not in written]

    def init(it, st):
        for n, g in out:
            for i, b in enumerate(g['bytes']):
                it.store(st, ai.P(('g', n), i), ai.const(8, b), 1)
            for r in g['relocs']:
                it.store(st, ai.P(('g', n), r['off']), ai.P(('g', r['g']), r['goff']), 8)
    return init


def parts(cl):
    i = [k for k, x in enumerate(cl) if x[0] != x[1]]
    if not i:
        yield cl
        return
    for d in range(cl[i[0]][0], cl[i[0]][1] + 1):
        yield cl[:i[0]] + [(d, d)] + cl[i[0] + 1:]


def members(cl):
    for pick in (0, 1):
        yield [(x[pick], x[pick]) for x in cl]
    for i, x in enumerate(cl):
        if x[0] != x[1]:
            for pick in (0, 1):
                yield [(y[pick],) * 2 if k == i else (y[1 - pick],) * 2 for k, y in enumerate(cl)]


def answers(c, f, m, init):
    it = ai.walk(f, m, partition=True, model=model, decide=linear.decide, init=init, loadhook=textout.hook)
    c.need(it.rets, 'int_too_big returns')
    got = set()
    for (ctx, b), (rv, st) in it.rets.items():
        c.paths += 1
        x = rv.b[0] if isinstance(rv, ai.V) else None
        if isinstance(x, tuple):
            d = linear.decide(it, ai.V(1, [x]), st, None)
            x = None if d is None else int(d)
        got.add(x if x in (0, 1) else None)
    return got


def too_big(c):
    m = c.ir([SRC], ['::int_too_big\\('], inline=INLINE, globals_=['^\\.str'])
    f = c.fn(m, '::int_too_big\\(')
    loc, pending = SRC, []
    consts = statics(m, f)
    sl = ai.P(argobj(0), 0)
    for n, name, cl in classes():
        with c.trying():
            for sign in ('', '+', '-'):
                for at in START[:1] if n != 19 else START:
                    bs, facts = text_bytes(sign, cl)

                    def init(it, st):
                        consts(it, st)
                        st.facts.update(facts)
                        put(it, st, at, bs)
                        it.store(st, sl, ai.P(BUF, 0), 8)
                        it.store(st, ai.P(sl.o, 8), ai.const(64, at | (at + len(bs)) << 32), 8)
                    want = int(not fits(n, name, sign))
                    got = answers(c, f, m, init)
                    if None in got or len(got) > 1:
                        # the class in parts; its members tell which way it goes wrong
                        got = set()
                        for one in parts(cl):
                            bs, facts = text_bytes(sign, one)
                            got |= answers(c, f, m, init)
                        if None in got:
                            for one in members(cl):
                                bs, facts = text_bytes(sign, one)
                                g = answers(c, f, m, init)
                                if len(g) == 1 and None not in g and g != {want}:
                                    got = g
                                    break
                            else:
                                pending.append('%s%d digits, %s: undecided' % (sign, n, name))
                                continue
                    c.ob('%s%d digits, %s: %s' % (sign, n, name, 'over the range' if want else 'within the range'),
                         got == {want}, 'is taken as %s' % ('within the range' if want else 'over the range'), loc)
    if pending and all(o[1] for o in c.obs):
        raise vlib.Broken('int_too_big of ' + pending[0])


def differs(v, want, st, n):
    """how the value read differs from the form wanted, or '' """
    try:
        got = linear.of(v, st.facts).mod(64)
        return '' if got == want else 'the value is %s' % show(got)
    except (linear.NoForm, KeyError) as e:
        why = e
    hs = heads(v)
    if hs & {'around', 'heap'}:
        return 'bytes outside of its text are read'
    if hs & {'strtod', 'fptosi', 'fptoui'}:
        return 'the value goes through a double, which does not hold 64 bits'
    for k in range(40):
        ds = [(7 * i * k + 3 * i + k) % 10 if k else 9 for i in range(n)]
        env = {digit(i): tab.np.array([d], dtype=tab.np.uint64) for i, d in enumerate(ds)}
        try:
            g = int(tab.np.asarray(tab.value(v, env)).reshape(-1)[0])
        except tab.NoTab:
            break
        co = dict(want[0])
        w = sum(co.get(digit(i), 0) * d for i, d in enumerate(ds)) % (1 << 64)
        if g != w and w not in (0, 1 << 63) and digits_fit(ds):
            return '%s reads as %d' % (''.join(map(str, ds)), g)
    raise vlib.Broken('the value is no linear form of the digits: %s' % why)


def heads(x, seen=None):
    seen = set() if seen is None else seen
    out = set()
    if isinstance(x, ai.V):
        for b in x.b:
            if isinstance(b, tuple):
                out |= heads(b[0], seen)
    elif isinstance(x, ai.Label):
        if x not in seen:
            seen.add(x)
            out |= heads(x.t, seen)
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str):
            out.add(x[0])
        for y in x:
            out |= heads(y, seen)
    return out


def digits_fit(ds):
    return int(''.join(map(str, ds))) < 1 << 63


def cursor(it, st, cur, at, n, atoms):
    it.store(st, cur, ai.P(BUF, 0), 8)
    it.store(st, ai.P(cur.o, 8), ai.const(64, 40 | 64 << 32), 8)
    it.store(st, ai.P(cur.o, 16), ai.P(('atoms',), 0), 8)
    it.store(st, ai.P(cur.o, 24), ai.P(('atoms',), 16 * len(atoms)), 8)
    it.store(st, ai.P(cur.o, 32), ai.P(('atoms',), 16 * len(atoms)), 8)
    for i, (o, v) in enumerate(atoms):
        it.store(st, ai.P(('atoms',), 16 * i), o, 8)
        it.store(st, ai.P(('atoms',), 16 * i + 8), v, 8)


def word(name, top):
    """a word of an atom, its two highest bits given"""
    l = ai.Label(('in', name), 62)
    return ai.V(64, [(l, i) for i in range(62)] + [top & 1, top >> 1])


def range_word(at, n, ty, flags=0):
    return ai.const(64, at | (at + n) << 32 | ty << 62)


UUID, INT, STRING, FLOAT = range(4)


def reader(c):
    m = c.ir([SRC, H], ['^h_atom$', '^h_id$', '^h_ref$'], inline=INLINE)
    f = c.fn(m, '^h_atom$')
    out, cur = ai.P(argobj(0), 0), ai.P(argobj(1), 0)
    U = lambda n: (word('o%d' % n, 0), ai.lab(64, ('in', 'v%d' % n)))

    def run(idx, atoms, at, bs, facts, fn=f):
        def init(it, st):
            st.facts.update(facts)
            put(it, st, at, bs)
            cursor(it, st, cur, at, len(bs), atoms)
        av = {0: out, 1: cur}
        if idx is not None:
            av[2] = ai.const(32, idx)
        try:
            it = ai.walk(fn, m, partition=True, model=model, decide=linear.decide, init=init, argvals=av, loadhook=textout.hook)
        except NoEnd:
            yield None, None, None, None, False
            return
        c.need(it.rets, 'atom() returns')
        for (ctx, b), (rv, st) in it.rets.items():
            c.paths += 1
            if st.aux.get('other'):
                yield it, None, None, None, False
                continue
            o, v = (ai.V(64, vlib.bits_of(st, out.o, k, 8)) for k in (0, 8))
            same = all(ai.V(64, vlib.bits_of(st, ('atoms',), 16 * i + 8 * k, 8)) == a[k]
                       for i, a in enumerate(atoms) for k in (0, 1))
            yield it, st, o, v, same
    # -- integers: any digits, either sign
    for n in range(1, 20):
        with c.trying():
            for sign in ('', '+', '-'):
                for at in START:
                    bs, facts = text_bytes(sign, [(0, 9)] * n)
                    a = (range_word(at, len(bs), INT), ai.const(64, 0))
                    atoms = [U(0), U(1), U(2), a] if at else [U(0), U(1), a]
                    want = linear.Form({digit(i): (-1 if sign == '-' else 1) * 10 ** (n - 1 - i) for i in range(n)}, 0).mod(64)
                    for it, st, o, v, same in run(len(atoms) - 1, atoms, at, bs, facts):
                        bad = 'it is read as another kind of number' if st is None else differs(v, want, st, n)
                        if st and o.b[62:] != (1, 0):
                            bad = 'it is no integer any more'
                        c.ob('an integer of %s%d digits at %d has the value they say' % (sign, n, at), not bad, bad, SRC)
                        c.ob('reading it leaves the op as it was (%s%d digits at %d)' % (sign, n, at), same, 'the op is changed', SRC)
    # -- floats: the text goes to strtod whole
    for n in range(1, 25):
        with c.trying():
            for at in START:
                bs = [ai.lab(8, ('char', i)) for i in range(n)]
                bs = [ai.V(8, b.b[:7] + (0,)) for b in bs]
                fcts = {ai.Label(('char', i), 8): ((1, 127),) for i in range(n)}
                a = (range_word(at, n, FLOAT), ai.const(64, 0))
                for it, st, o, v, same in run(2, [U(0), U(1), a, U(3)], at, bs, fcts):
                    calls = st.aux.get('strtod', ()) if st else ()
                    bad = ''
                    if not calls:
                        bad = 'its text is not read as a C string and a double'
                    elif v != ai.lab(64, ('strtod', len(calls) - 1)):
                        bad = 'the value is not what strtod gives'
                    elif calls[-1] != tuple(bs):
                        bad = 'strtod gets %d bytes of other text' % len(calls[-1])
                    elif o.b[62:] != (1, 1):
                        bad = 'it is no float any more'
                    else:
                        bad = overrun(c, it) or ''
                    c.ob('a float of %d bytes at %d is what strtod makes of them' % (n, at), not bad, bad, SRC)
                    c.ob('reading it leaves the op as it was (float of %d bytes at %d)' % (n, at), same, 'the op is changed', SRC)
    # -- what is no number
    for at in START:
        with c.trying():
            bs = [ai.lab(8, ('char', i)) for i in range(5)]
            for i in range(4):
                atoms = [U(0), U(1), U(2), U(3)]
                for it, st, o, v, same in run(i, atoms, at, bs, {}):
                    c.ob('a UUID, atom %d: the value is itself' % i, (o, v) == atoms[i] and same, 'is changed', SRC)
            for fn, i in (('^h_id$', 0), ('^h_ref$', 1)):
                for it, st, o, v, same in run(None, atoms, at, bs, {}, c.fn(m, fn)):
                    c.ob('the %s is atom %d' % (fn[3:-1], i), (o, v) == atoms[i] and same, 'is another value', SRC)
            for cp in (1, 0):
                l = ai.Label(('in', 'size'), 32)
                ch = ai.Label(('in', 'cp'), 21)
                v0 = [(ch, i) if i else 1 for i in range(21)] + [0] * 11 if cp else [0] * 32
                v0 = ai.V(64, v0 + [0] * 32 if cp else v0 + [(l, i) for i in range(32)])
                a = (range_word(at, 5, STRING), v0)
                for it, st, o, v, same in run(2, [U(0), U(1), a], at, bs, {}):
                    if cp:
                        want = (ai.const(64, 2 << 62), v0)
                        c.ob('a char of a span is a string of its own', (o, v) == want and same, 'is %r' % ((o, v),), SRC)
                    else:
                        c.ob('a string stays as it is', (o, v) == a and same, 'is changed', SRC)


def show(f):
    co, k = f
    ks = sorted(co, key=lambda x: x[0].t[1])
    t = ' + '.join('%s*d%d' % (n if n < 1 << 63 else n - (1 << 64), a.t[1]) for a, n in ks)
    return (t or '0') + (' + %d' % (k if k < 1 << 63 else k - (1 << 64)) if k else '')


def made(c):
    m = c.ir([H], ['^h_int$', '^h_float$', '^h_type$'], inline=INLINE)
    for nm, ty in (('^h_int$', 1), ('^h_float$', 3)):
        with c.trying():
            f = c.fn(m, nm)
            v = ai.lab(64, ('in', 'n'))
            it = ai.walk(f, m, partition=True, argvals={0: ai.P(argobj(0), 0), 1: v})
            for (ctx, b), (rv, st) in it.rets.items():
                c.paths += 1
                o, g = (ai.V(64, vlib.bits_of(st, argobj(0), k, 8)) for k in (0, 8))
                c.ob('a new %s has its type and all of its 64 bits' % ('integer' if ty == 1 else 'float'),
                     g == v and o == ai.const(64, ty << 62), '%r %r' % (o, g), 'ron/uuid.hpp')
    f = c.fn(m, '^h_type$')
    w = ai.lab(64, ('in', 'o'))

    def init(it, st):
        it.store(st, ai.P(argobj(0), 0), w, 8)
    it = ai.walk(f, m, partition=True, init=init)
    for (ctx, b), (rv, st) in it.rets.items():
        with c.trying():
            c.ob('the type is the two highest bits', rv.b == w.b[62:] + (0,) * 30, repr(rv), 'ron/uuid.hpp')


def check(c):
    c.rule('for every class of digit texts (length, sign, first digit apart from the limit) the range test has one '
           'result, the right one')
    c.rule('the value of an integer is the linear form sum(sign * 10^k * digit) modulo 2^64; the text of a float '
           'arrives at strtod whole and terminated, inside of its buffer')
    c.rule('atoms of other types come out as the grammar left them, and no path writes to the op')
    c.part(too_big, c)
    c.part(reader, c)
    c.part(made, c)
