"""Contracts of std::vector<T> over its begin/end/capacity words, for the few
members that allocate; the others are inlined by the front end.  The number of
elements is known in every scenario, so the words are (object, offset)."""
import re
import absint as ai


def esize(cd):
    i = cd.find('std::vector<')   # the outermost class comes first
    if i < 0:
        return None
    t = cd[i + 12:]
    if t.startswith('bool'):
        return None
    if t.startswith('__gnu_cxx::__normal_iterator') or re.match(r'[^<>,]*\*', t):
        return 8
    if t.startswith('ron::TextFrame::Cursor'):
        return 56
    if t.startswith('ron::Uuid') or t.startswith('ron::Atom'):
        return 16
    if t.startswith('std::__cxx11::basic_string<char,'):
        return 32
    if t.startswith('unsigned int') or t.startswith('int'):
        return 4
    if t.startswith('unsigned char') or t.startswith('char') or t.startswith('signed char'):
        return 1
    if t.startswith('unsigned short') or t.startswith('short'):
        return 2
    if t.startswith('unsigned long') or t.startswith('long'):
        return 8
    return None


def words(it, st, v):
    return [it.load(st, ai.P(v.o, v.off + 8 * i), 8, True, ('vec', i)) for i in range(3)]


def put(it, st, v, b, e, c=None):
    for i, x in enumerate((b, e, c or e)):
        it.store(st, ai.P(v.o, v.off + 8 * i), x, 8)


NAME = re.compile(r'std::vector<.*>::(~?[a-z_A-Z]+|operator=|operator\[\])(<.*>)?\([^()]*\)(?: const)?$')


def member(cd):
    d = 0
    name = ''
    for ch in cd:
        if ch in '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            if ch == '(':
                break
            name += ch
    return name.split('::')[-1].strip()


def span(it, st, v):
    b, e, c = words(it, st, v)
    if b == ai.NULL or (isinstance(b, ai.P) and b.o[0] == 'P' and e == b):
        return None, 0
    if not (isinstance(b, ai.P) and isinstance(e, ai.P) and b.o == e.o and isinstance(b.off, int) and isinstance(e.off, int)):
        return None, None
    return b, e.off - b.off


def model(it, I, cd, args, st, ctx):
    h = cd.split('(')[0]
    if 'operator new' == h[:12] and args:
        n = args[0].const() if isinstance(args[0], ai.V) else None
        k = st.aux.get(('nheap',), 0)
        if isinstance(k, int):
            st.aux[('nheap',)] = k + 1
            return ai.P(('heap', k, n), 0)
        return NotImplemented
    if h.startswith('operator delete') or 'std::_Destroy<' in h or '::destroy<' in h:
        return None
    if 'std::vector<' not in h:
        return NotImplemented
    es = esize(cd)
    if es is None or not args or not isinstance(args[0], ai.P):
        return NotImplemented
    m = member(cd)
    v = args[0]
    if es == 32 and m in ('push_back', 'emplace_back', 'clear', 'pop_back'):
        return NotImplemented       # the texts are kept elsewhere
    if m in ('push_back', 'emplace_back'):
        b, n = span(it, st, v)
        if n is None or len(args) < 2 or not isinstance(args[1], ai.P):
            return NotImplemented
        if m == 'emplace_back' and es == 56 and not re.search(r'Cursor( const)?&', cd.split('>(')[-1]):
            return NotImplemented
        k = st.aux.get(('nheap',), 0)
        if not isinstance(k, int):
            return NotImplemented
        st.aux[('nheap',)] = k + 1
        o = ai.P(('heap', k, n + es), 0)
        if n:
            it.memcpy(st, o, b, n)
        it.memcpy(st, ai.P(o.o, n), args[1], es)
        put(it, st, v, o, ai.P(o.o, n + es))
        return ai.P(o.o, n) if m == 'emplace_back' else None
    if m == 'vector' and len(args) >= 2 and isinstance(args[1], ai.P):
        # a copy may share the elements: nothing writes to them
        w = words(it, st, args[1])
        put(it, st, v, w[0], w[1])
        return None
    if m == 'operator=':
        w = words(it, st, args[1])
        put(it, st, v, w[0], w[1])
        return v
    if m == 'vector' and len(args) == 1:
        put(it, st, v, ai.NULL, ai.NULL)
        return None
    if m == 'vector' and isinstance(args[1], ai.V) and args[1].const() == 0:
        put(it, st, v, ai.NULL, ai.NULL)
        return None
    if m == '~vector':
        return None
    if m == 'clear':
        b, n = span(it, st, v)
        if n is None:
            return NotImplemented
        if n:
            put(it, st, v, b, b)
        return None
    if m == 'pop_back':
        b, n = span(it, st, v)
        if not n:
            return NotImplemented
        put(it, st, v, b, ai.P(b.o, b.off + n - es))
        return None
    if m in ('size', 'empty', 'operator[]', 'at', 'front', 'back', 'begin', 'end', 'data'):
        b, n = span(it, st, v)
        if n is None:
            return NotImplemented
        if m == 'size':
            return ai.const(64, n // es)
        if m == 'empty':
            return ai.const(1, int(n == 0))
        if b is None:
            w = words(it, st, v)
            return w[0] if m in ('begin', 'end', 'data') and w[0] == ai.NULL == w[1] else NotImplemented
        if m in ('front', 'begin', 'data'):
            return b
        if m == 'end':
            return ai.P(b.o, b.off + n)
        if m == 'back':
            return ai.P(b.o, b.off + n - es)
        i = args[1].const() if isinstance(args[1], ai.V) else None
        if i is None:
            return NotImplemented
        return ai.P(b.o, b.off + i * es)
    if m == 'reserve':
        return None
    return NotImplemented
