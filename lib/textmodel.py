"""Models of the text primitives (Slice, Range, Word, Atom vectors) for the
analyses of scanners: a slice or a range is the label ('sl', begin, end) of two
text positions."""
import re
import absint as ai
import auto
import vlib

BUF = ai.P(('buf',), 0)
TEXT0 = ai.P(auto.TEXT, 0)
END0 = ai.P(auto.END, 0)


def sl(b, e):
    if b == e:
        return ai.lab(64, ('nil', b)) if b != ai.NULL else ai.const(64, 0)
    return ai.lab(64, ('sl', b, e))


def lost(w):
    return ai.lab(w, ('lost',))


def ends(v):
    """(begin, end) of the label of a slice"""
    l = v.label() if isinstance(v, ai.V) else None
    if l is None:
        return None
    if l.t[0] == 'sl':
        return l.t[1], l.t[2]
    if l.t[0] == 'nil':
        return l.t[1], l.t[1]
    return None


def size(v):
    if isinstance(v, ai.V):
        if v.const() is not None:
            return ai.const(32, 0)
        l = v.label()
        if l is not None and l.t[0] == 'nil':
            return ai.const(32, 0)
        if l is not None and l.t[0] == 'sl':
            return ai.lab(32, ('size', l))
        if l is not None and l.t[0] == 'reg':
            return ai.lab(32, ('size', l))
    return lost(32)


def diff(n):
    """(x, y) when n is the distance from y to x"""
    b0 = n.b[0]
    if n.w < 64 and isinstance(b0, tuple) and b0[0].w == 64 and n.b == tuple((b0[0], i) for i in range(n.w)):
        n = ai.V(64, [(b0[0], i) for i in range(64)])     # cut down to n.w bits
    co, c = vlib.linear(n, n.w)
    if not co and c < 1 << 20:
        return None, c
    pos = neg = None
    for a, k in co:
        if not (isinstance(a, ai.Label) and a.t[0] == 'p2i'):
            return None, None
        if k == 1 and pos is None:
            pos = a
        elif k == (1 << n.w) - 1 and neg is None:
            neg = a
        else:
            return None, None
    if pos is None or neg is None:
        return None, None
    c = c - (1 << n.w) if c >> (n.w - 1) else c
    if not isinstance(pos.t[2], int):
        return None, None
    return ai.P(pos.t[1], pos.t[2] + c), ai.P(neg.t[1], neg.t[2])


def after(b, n):
    """the pointer n bytes after b"""
    x, y = diff(n)
    if x is None and y is not None and isinstance(b.off, int):
        return ai.P(b.o, b.off + y)
    if x is not None and y == b:
        return x
    return None


def ld(it, st, p, size, isptr=False):
    return it.load(st, p, size, isptr, ('model',))


def flag(v):
    """what the flags of a word are made of"""
    n = v.const()
    if n is not None:
        return ('c', n)
    b0 = v.b[0]
    if isinstance(b0, tuple) and b0[0].t[0] == 'm' and b0[0].t[1][0] == 'g' and 'ABC' in b0[0].t[1][1] and b0[1] % 8 == 0 and \
            v.b[:8] == tuple((b0[0], b0[1] + i) for i in range(8)):
        return ('abc', ai.const(8, b0[0].t[2] + b0[1] // 8))
    t = vlib.tabindex(v)
    if t is None:
        w = ai.V(8, v.b[:8])
        t = vlib.tabindex(w)
    if t is None or 'ABC' not in t[0]:
        return ('lost', v)
    b = list(t[1])
    lo = (b + [0] * 8)[:8]
    if any(x not in (0, lo[7]) for x in b[8:]):
        return ('lost', v)
    return ('abc', ai.V(8, lo))


def event(st, *e):
    st.aux['ev'] = st.aux.get('ev', ()) + (tuple(e),)


def slice_arg(it, st, args, i, isptr):
    """a slice passed by reference, or by value as (pointer, word)"""
    a = args[i]
    if isptr:
        return ld(it, st, ai.P(a.o, a.off + 8), 8)
    return args[i + 1]


def model(it, I, cd, args, st, ctx):
    a0 = args[0] if args else None

    def put(p, b, lbl):
        it.store(st, p, b, 8)
        it.store(st, ai.P(p.o, p.off + 8), lbl, 8)
    if re.match(r'^ron::Slice::Slice\(unsigned char const\*, unsigned char const\*\)', cd):
        put(a0, args[1], sl(args[1], args[2]))
        return None
    if re.match(r'^ron::Slice::Slice\(unsigned char const\*, unsigned int\)', cd):
        e = ai.NULL if args[1] == ai.NULL else after(args[1], args[2])
        put(a0, args[1], sl(args[1], e) if e is not None else lost(64))
        return None
    if re.match(r'^ron::Slice::Slice\(\)', cd):
        put(a0, ai.NULL, ai.const(64, 0))
        return None
    if re.match(r'^ron::Slice::Slice\(ron::Slice const&\)', cd):
        it.memcpy(st, a0, args[1], 16)
        return None
    if re.match(r'^ron::Slice::Slice\(unsigned char const\*, ron::Range\)', cd):
        put(a0, args[1], args[2])
        return None
    m = re.match(r'^ron::(Slice|Range)::(begin|end|size|empty|length|buffer|range|Consume)\(', cd)
    if m:
        cls, op = m.groups()
        at = ai.P(a0.o, a0.off + 8) if cls == 'Slice' else a0
        v = ld(it, st, at, 8)
        be = ends(v)
        if op in ('size', 'length'):
            return size(v)
        if op == 'range':
            return v
        if op == 'buffer':
            return ld(it, st, a0, 8, True)
        if op == 'empty':
            if v.const() == 0 or be and be[0] == be[1]:
                return ai.const(I['w'] or 1, 1)
            if be is None:
                return ai.V(I['w'] or 1, list(it.boolval(('eq', size(v).label(), ('c', 0)), True).b) + [0] * ((I['w'] or 1) - 1))
            return it.boolval(('peq', *sorted(be, key=ai.tkey)), True)
        if op == 'Consume':
            if be is None:
                it.store(st, at, lost(64), 8)
                return None
            b = after(be[0], args[1])
            it.store(st, at, ai.lab(64, ('sl', b, be[1])) if b is not None else lost(64), 8)
            return None
        if cls == 'Range':
            l = v.label()
            return ai.lab(32, (op, l)) if l is not None else lost(32)
        if be is None:
            if v.const() == 0:
                return ai.NULL
            return ai.P(auto.STALE, 0)
        return be[0] if op == 'begin' else be[1]
    if re.match(r'^ron::Range::Range\(unsigned char const\*, unsigned char const\*, unsigned char const\*\)', cd):
        it.store(st, a0, sl(args[2], args[3]) if args[1] == BUF else lost(64), 8)
        return None
    if re.match(r'^ron::Word::Word\(unsigned char, ron::Slice const&\)', cd):
        s = ld(it, st, ai.P(args[2].o, args[2].off + 8), 8)
        it.store(st, a0, ai.lab(64, ('word', flag(args[1]), s)), 8)
        return None
    if re.match(r'^ron::(TextFrame::)?(Cursor::)?int_too_big\(', cd) or 'int_too_big(' in cd:
        s = ld(it, st, ai.P(a0.o, a0.off + 8), 8) if 'const&' in cd else args[1]
        return wide(it.boolval(('intbig', ai.term(s)), True), I)
    if 'decode_hex_cp(' in cd:
        b = ends(args[1])
        return ai.lab(I['w'], ('hex',) + (b if b else ('lost',)))
    if 'decode_esc(' in cd:
        # an ASCII char (its table is checked apart)
        v = list(ai.lab(8, ('esc', ai.V(8, args[0].b[:8]))).b[:7])
        return ai.V(I['w'], v + [0] * (I['w'] - 7))
    if 'chr2term(' in cd:
        return ai.lab(I['w'], ('term', ai.V(8, args[0].b[:8])))
    return NotImplemented


def wide(v, I):
    return ai.V(I['w'], list(v.b) + [0] * (I['w'] - v.w)) if I.get('w') and I['w'] > v.w else v


def slicesize(st, v):
    """interval known of the size of a slice"""
    s = size(v)
    n = s.const()
    if n is not None:
        return n, n
    iv = st.facts.get(s.label(), ((0, (1 << 32) - 1),))
    return iv[0][0], iv[-1][1]
