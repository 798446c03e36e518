"""Contracts of the std::string operations the project's encoders use: what a
call appends to which string.  The appended sequence is part of the abstract
state (joined by equality)."""
import re
import absint as ai

STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
STR16 = r'std::__cxx11::basic_string<char16_t, std::char_traits<char16_t>, std::allocator<char16_t>>'


def out(st, o):
    return st.aux.get(('out', o.o, o.off), ())


def emit(st, o, item):
    k = ('out', o.o, o.off)
    cur = st.aux.get(k, ())
    if cur and cur[0] == 'join':
        return
    st.aux[k] = cur + (item,)


def model(it, I, cd, args, st, ctx):
    m = re.match(r'^(?:.*[& ])?std::__cxx11::basic_string<char(16_t)?, std::char_traits<char(?:16_t)?>, '
                 r'std::allocator<char(?:16_t)?>>::([a-z_=+]+|operator\+=)\(', cd)
    if not m or not args or not isinstance(args[0], ai.P):
        return NotImplemented
    op = m.group(2)
    s = args[0]
    if op in ('push_back', 'operator+=') and len(args) > 1 and isinstance(args[1], ai.V):
        emit(st, s, ('ch', args[1]))
        return s if op != 'push_back' else None
    if op in ('append', 'operator+='):
        emit(st, s, ('app',) + tuple(args[1:]))
        return s
    if op in ('reserve',):
        return None
    return NotImplemented
