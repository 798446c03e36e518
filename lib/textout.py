"""Contracts of std::string over contents that are partly symbolic: a string is
a tuple of items, each one character (a byte value) or one token of unknown
length (an UUID's text, a number's text, a slice of the source text, the text
written before).  A token counts as one place: only places after the last
token of unknown length may be addressed, which the operations check."""
import re
import absint as ai
from strs import RX, NAME, short, PLUS


def key(p):
    return ('txt', p.o, p.off)


def get(st, p):
    v = st.aux.get(key(p))
    return None if v is None or v[:1] == ('join',) else v


def put(st, p, items):
    st.aux[key(p)] = ('join',) if items is None else tuple(items)


def ch(v):
    return ('c', ai.V(8, v.b[:8]))


def lit(s):
    return tuple(('c', ai.const(8, ord(x))) for x in s)


def cstring(it, st, p):
    """items of a C string: a literal, or what sprintf wrote"""
    if not isinstance(p, ai.P):
        return None
    v = st.aux.get(('cstr', p.o, p.off))
    if v is not None:
        return None if v[:1] == ('join',) else v
    r = []
    for i in range(64):
        b = it.load(st, ai.P(p.o, p.off + i), 1, False, ('cs',)) if isinstance(p.off, int) else None
        n = b.const() if isinstance(b, ai.V) else None
        if n is None:
            return None
        if n == 0:
            return lit(r)
        r.append(chr(n))
    return None


def bytesat(it, st, p, k):
    r = []
    for i in range(k):
        b = it.load(st, ai.P(p.o, p.off + i), 1, False, ('cs', p.o, p.off + i))
        if b.const() is None and p.o[0] not in ('al', 'heap'):
            return None
        r.append(('c', b))
    return tuple(r)


def length(items):
    return ai.lab(64, ('len', items)) if any(x[0] != 'c' for x in items) else ai.const(64, len(items))


def piece(it, st, p, n):
    """items at a pointer with a length"""
    if not isinstance(p, ai.P) or not isinstance(n, ai.V):
        return None
    cs = st.aux.get(('cstr', p.o, p.off))
    if cs is not None and cs[:1] != ('join',):
        l = length(cs)
        if l == n or l.b[:31] == n.b[:31]:
            return cs
        return None
    if p.o[0] == 'slice' and p.off == 0:
        l = n.label()
        if n.b[:32] == ai.lab(32, ('slen', p.o[1])).b:
            return (('slice', p.o[1]),)
        return None
    if p.o[0] == 'txtdata' and p.off == 0:
        s = st.aux.get(('txt', p.o[1], p.o[2]))
        if s is not None and s[:1] != ('join',) and size(s) == n:
            return s
        return None
    k = n.const()
    if k is not None and k <= 64 and isinstance(p.off, int):
        return bytesat(it, st, p, k)
    return None


def size(items):
    """places are counted; an unknown text makes the base unknown"""
    return ai.const(64, len(items))


def hook(it, st, p, sz, isptr, site):
    if p.o[0] == 'txtdata' and not isptr and isinstance(p.off, int) and sz == 1:
        s = st.aux.get(('txt', p.o[1], p.o[2]))
        if s and s[:1] != ('join',) and 0 <= p.off < len(s) and s[p.off][0] == 'c':
            return s[p.off][1]
        if s is not None and s[:1] != ('join',) and p.off == len(s):
            return ai.const(8, 0)
    return None


def after_tokens(items, i):
    """every place from i on is a character"""
    return 0 <= i <= len(items) and all(x[0] == 'c' for x in items[i:])


def model(it, I, cd, args, st, ctx):
    h = cd.split('(')[0]
    if PLUS.search(h) and len(args) == 3 and isinstance(args[0], ai.P):
        ps = []
        for a in args[1:]:
            if isinstance(a, ai.V):
                ps.append((ch(a),))
            else:
                s = get(st, a)
                ps.append(s if s is not None else cstring(it, st, a))
        put(st, args[0], None if None in ps else ps[0] + ps[1])
        return None
    if NAME not in cd or not args or not isinstance(args[0], ai.P):
        return NotImplemented
    m = RX.search(cd)
    if not m or '(' in cd[:m.start()]:
        return NotImplemented
    op, sig = m.group(1), short(m.group(2))
    ps = [x.strip() for x in sig.split(',')] if sig else []
    ps = [x for x in ps if x != 'A const&']
    s = args[0]
    cur = get(st, s)

    def n(i):
        return args[i].const() if len(args) > i and isinstance(args[i], ai.V) else None

    def added(a):
        """the items an append-like call of these parameters adds"""
        if not a:
            return ()
        if a[0] in ('S const&', 'S&&') and len(a) == 1:
            return get(st, args[1])
        if a[0] == 'char const*' and len(a) == 1:
            return cstring(it, st, args[1])
        if a[0] == 'char const*' and a[1] == 'unsigned long':
            return piece(it, st, args[1], args[2])
        if a[0] == 'unsigned long' and a[1] == 'char' and n(1) is not None and n(1) < 64:
            return (ch(args[2]),) * n(1)
        if a == ['char']:
            return (ch(args[1]),)
        return None
    if op in ('basic_string', 'assign', 'operator='):
        put(st, s, added(ps))
        if ps == ['S&&']:
            put(st, args[1], ())
        return s if op != 'basic_string' else None
    if op in ('~basic_string', 'reserve', 'shrink_to_fit'):
        return None
    if op == 'clear':
        put(st, s, ())
        return None
    if op == 'push_back':
        put(st, s, None if cur is None else cur + (ch(args[1]),))
        return None
    if op in ('append', 'operator+='):
        x = added(ps)
        put(st, s, None if cur is None or x is None else cur + x)
        return s
    if op == 'swap':
        put(st, s, get(st, args[1]))
        put(st, args[1], cur)
        return None
    if cur is None:
        return NotImplemented
    if op == 'pop_back':
        put(st, s, cur[:-1] if cur and cur[-1][0] == 'c' else None)
        return None
    if op in ('size', 'length'):
        return size(cur)
    if op == 'empty':
        return ai.const(1, int(not cur)) if not cur or any(x[0] == 'c' for x in cur) else NotImplemented
    if op in ('data', 'c_str'):
        return ai.P(('txtdata', s.o, s.off), 0)
    if op in ('operator[]', 'at') and n(1) is not None:
        return ai.P(('txtdata', s.o, s.off), n(1))
    if op in ('back', 'front'):
        return ai.P(('txtdata', s.o, s.off), len(cur) - 1 if op == 'back' else 0)
    if op in ('rfind', 'find_last_of') and len(ps) >= 1 and ps[0] == 'char':
        q = args[1].const()
        at = len(cur) - 1
        if len(args) > 2 and n(2) is not None and n(2) < len(cur):
            at = n(2)
        if q is None:
            return NotImplemented
        for i in range(at, -1, -1):
            if cur[i][0] != 'c':
                return NotImplemented
            k = cur[i][1].const()
            if k is None:
                r = it.cmp_term('eq', cur[i][1], ai.const(8, q))
                f = st.facts.get(cur[i][1].label())
                if f and not any(lo <= q <= hi for lo, hi in f):
                    continue
                return NotImplemented
            if k == q:
                return ai.const(64, i)
        return NotImplemented
    if op == 'insert' and ps and ps[0] == 'unsigned long' and n(1) is not None and n(1) <= len(cur):
        i = n(1)
        if len(ps) == 3 and ps[1] == 'unsigned long' and n(2) is not None:
            x = (ch(args[3]),) * n(2)
        elif ps[1] == 'char const*' and len(ps) == 2:
            x = cstring(it, st, args[2])
        else:
            x = get(st, args[2]) if isinstance(args[2], ai.P) else None
        put(st, s, None if x is None or not after_tokens(cur, i) else cur[:i] + x + cur[i:])
        return s
    if op == 'erase' and ps and ps[0] == 'unsigned long' and n(1) is not None:
        i = n(1)
        k = n(2) if len(args) > 2 and n(2) is not None else len(cur)
        put(st, s, cur[:i] + cur[i + k:] if after_tokens(cur, i) else None)
        return s
    return NotImplemented
