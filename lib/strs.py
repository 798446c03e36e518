"""Contracts of std::string (and u16string) over known-length contents: a
string's abstract value is the tuple of its characters, each a bit vector.
Kept in the abstract state per string object and joined by equality."""
import re
import absint as ai

UNKNOWN = ('join',)


def key(p):
    return ('str', p.o, p.off)


def get(st, p):
    v = st.aux.get(key(p))
    return None if v is None or v[:1] == UNKNOWN else v


def put(st, p, items):
    if items is None:
        st.aux[key(p)] = UNKNOWN
    else:
        st.aux[key(p)] = tuple(items)


def hook(it, st, p, size, isptr, site):
    if it.strict and p.o[0] in ('heap', 'opatoms') and isinstance(p.o[-1], int) and isinstance(p.off, int) and \
            not 0 <= p.off <= p.o[-1] - size:
        raise ai.Misuse('%s reads past the end of %s' % (it.fn['d'].split('(')[0][-80:], 'an op' if p.o[0] != 'heap' else 'a vector'))
    if p.o[0] == 'strdata' and not isptr and isinstance(p.off, int):
        s = st.aux.get(('str', p.o[1], p.o[2]))
        if s and s[:1] != UNKNOWN and 0 <= p.off and p.off + size <= len(s) + 1:
            bits = []
            for i in range(p.off, p.off + size):
                bits += list(s[i].b) if i < len(s) else [0] * 8
            return ai.V(size * 8, bits)
    return None


RX = re.compile(r"std::__cxx11::basic_string<char(?:16_t)?, [^>]*>, [^>]*>>::([~a-z_=+]+|operator\[\]|operator\+=|operator=)(?:<(?:std::allocator<char(?:16_t)?>|void)(?:, void)?>)?\(([^()]*)\)")
NAME = 'std::__cxx11::basic_string<char'


def short(a):
    a = re.sub(r'std::__cxx11::basic_string<char(16_t)?, std::char_traits<char(16_t)?>, std::allocator<char(16_t)?>>', 'S', a)
    return re.sub(r'std::allocator<char(16_t)?>', 'A', a).strip()


PLUS = re.compile(r'std::operator\+<char(?:16_t)?, ')


def model(it, I, cd, args, st, ctx):
    if PLUS.search(cd.split('(')[0]) and len(args) == 3 and isinstance(args[0], ai.P):
        # args[0] is the result
        parts = []
        for a in args[1:]:
            x = get(st, a) if isinstance(a, ai.P) else (ai.V(8, a.b[:8]),) if isinstance(a, ai.V) and a.w == 8 else None
            parts.append(x)
        put(st, args[0], None if None in parts else parts[0] + parts[1])
        return None
    if NAME not in cd or not args or not isinstance(args[0], ai.P):
        return NotImplemented
    m = RX.search(cd)
    if not m or '(' in cd[:m.start()]:
        return NotImplemented
    op, sig = m.group(1), short(m.group(2))
    ps = [x.strip() for x in sig.split(',')] if sig else []
    s = args[0]
    cur = get(st, s)

    def n(i):
        return args[i].const() if len(args) > i and isinstance(args[i], ai.V) else None

    def ch(i):
        v = args[i]
        return ai.V(8, v.b[:8]) if isinstance(v, ai.V) else None

    def other(i):
        return get(st, args[i]) if isinstance(args[i], ai.P) else None
    if op in ('basic_string', 'assign', 'operator='):
        r = s if op != 'basic_string' else None
        ps = [x for x in ps if x != 'A const&']
        if not ps:
            put(st, s, ())
        elif ps[0] in ('S const&', 'S&&'):
            put(st, s, other(1)) if len(ps) == 1 else put(st, s, None)
            if ps[0] == 'S&&' and len(ps) == 1:
                put(st, args[1], None)
        elif len(ps) == 2 and ps[0] == 'unsigned long' and ps[1].startswith('char'):
            k = n(1)
            put(st, s, None if k is None or k > 4096 else [ch(2)] * k)
        else:
            put(st, s, None)
        return r
    if op == '~basic_string' or op == 'reserve' or op == 'shrink_to_fit':
        return None
    if op == 'clear':
        put(st, s, ())
        return None
    if op == 'push_back' or (op == 'operator+=' and ps and ps[0].startswith('char') and '*' not in ps[0]):
        put(st, s, None if cur is None else cur + (ch(1),))
        return None if op == 'push_back' else s
    if op in ('append', 'operator+=') and ps:
        if ps[0] == 'S const&' and len(ps) == 1:
            o = other(1)
            put(st, s, None if cur is None or o is None else cur + o)
        elif len(ps) == 2 and ps[0] == 'unsigned long':
            k = n(1)
            put(st, s, None if cur is None or k is None else cur + (ch(2),) * k)
        else:
            put(st, s, None)
        return s
    if op == 'resize':
        k = n(1)
        if k is not None and cur is None and k <= 4096:
            put(st, s, [ai.lab(8, ('chr', s.o, s.off, I['id'], i)) for i in range(k)])
        elif k is None or cur is None:
            put(st, s, None)
        else:
            fill = ch(2) if len(args) > 2 else ai.const(8, 0)
            put(st, s, cur[:k] + (fill,) * (k - len(cur)))
        return None
    if op == 'pop_back':
        put(st, s, None if not cur else cur[:-1])
        return None
    if op in ('size', 'length'):
        return ai.const(64, len(cur)) if cur is not None else NotImplemented
    if op == 'empty':
        return ai.const(1, int(not cur)) if cur is not None else NotImplemented
    if op in ('data', 'c_str'):
        return ai.P(('strdata', s.o, s.off), 0)
    if op in ('operator[]', 'at'):
        k = n(1)
        if k is not None:
            return ai.P(('strdata', s.o, s.off), k)
        return ai.P(('strdata', s.o, s.off), ('lin', 0, ((ai.term(args[1]), 1),)))
    if op in ('begin', 'cbegin'):
        return ai.P(('strdata', s.o, s.off), 0)
    if op in ('end', 'cend') and cur is not None:
        return ai.P(('strdata', s.o, s.off), len(cur))
    return NotImplemented
