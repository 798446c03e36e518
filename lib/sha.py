"""The hash function as an uninterpreted operation on the exact byte sequence
it was fed: a digest is the term SHA(bytes).  Feeding in one piece or many is
the same.  Strings read out of a frame are opaque texts (any length)."""
import re
import absint as ai
import vlib
import strs

DIGEST = 32


def tkey(p):
    return ('text', p.o, p.off)


def digest(trace):
    l = [ai.Label(('sha', trace, i), 8) for i in range(DIGEST)]
    return tuple(ai.V(8, [(x, b) for b in range(8)]) for x in l)


def pack(trace):
    """label standing for the trace (keeps terms small)"""
    return ai.Label(('fed', tuple(trace)), 1)


def textlen(atom):
    return ai.Label(('len', atom), 30)


def islen(v, l):
    """the value is the length (offsets are below 2^30 in a frame)"""
    for i, b in enumerate(v.b):
        if b != (l, i) and not (i >= 30 and b == 0):
            return False
    return True


def fed(it, st, p, size):
    """what an update() call feeds"""
    if p.o[0] == 'strdata':
        s = ai.P(p.o[1], p.o[2])
        a = st.aux.get(tkey(s))
        if a is not None and a[:1] == ('of',):
            if p.off == 0 and islen(size, textlen(a[1])):
                return (('text', a[1]),)
            return (('part', a[1], repr(p.off), repr(size)),)
    k = size.const()
    if k is None:
        return (('?', repr(p), repr(size)),)
    out = []
    for i in range(k):
        if isinstance(p.off, int):
            v = it.load(st, ai.P(p.o, p.off + i), 1, False, None)
        else:
            return (('?', repr(p), k),)
        out.append(v)
    return tuple(out)


UPD = re.compile(r'(^Sink|^Botan::[A-Za-z_0-9]+)::update\(')
FIN = re.compile(r'(^Sink|^Botan::[A-Za-z_0-9]+)::final\(')
LEN = re.compile(r'(^Sink|^Botan::[A-Za-z_0-9]+)::output_length\(')
CTOR = re.compile(r'^Botan::([A-Za-z_0-9]+)::\1\(\)$')


def makemodel(atomv, more=None, empty=False):
    """atomv(i): the parsed atom i of the op at hand, as (value, origin, text
    id); more: further model"""
    texts = {}

    def model(it, I, cd, args, st, ctx):
        if more:
            r = more(it, I, cd, args, st, ctx)
            if r is not NotImplemented:
                return r
        m = CTOR.match(cd)
        if m:
            st.aux[('fed', args[0].o, args[0].off)] = (('algo', m.group(1)),)
            return None
        if UPD.match(cd):
            k = ('fed', args[0].o, args[0].off)
            st.aux[k] = st.aux.get(k, ()) + fed(it, st, args[1], args[2])
            return None
        if FIN.match(cd):
            k = ('fed', args[0].o, args[0].off)
            d = digest(pack(st.aux.get(k, ())))
            st.aux[k] = ('closed',)
            p = args[1]
            if p.o[0] == 'strdata' and p.off == 0:
                s = ai.P(p.o[1], p.o[2])
                cur = strs.get(st, s)
                if cur is None or len(cur) != DIGEST:
                    st.aux['overflow'] = True
                strs.put(st, s, d)
            else:
                for i, v in enumerate(d):
                    it.store(st, ai.P(p.o, p.off + i), v, 1)
            return None
        if LEN.match(cd):
            return ai.const(64, DIGEST)
        if re.search(r'Cursor::atom\(unsigned int\) const$', cd) and atomv:
            k = args[1].const()
            if k is None:
                return NotImplemented
            v, o = atomv(k, args[0])
            return ai.A([o, v])  # layout: origin first
        if re.search(r'ron::ReadString<', cd):
            to = args[0]
            at = (args[2], args[3]) if len(args) > 3 else (args[2],)
            t = tuple(ai.term(x) for x in at)
            if strs.get(st, to) == ():
                strs.put(st, to, None)
                st.aux[tkey(to)] = ('of', t)
                if empty:
                    strs.put(st, to, ())
                    st.aux.pop(tkey(to))
                else:
                    st.facts[textlen(t)] = ((1, (1 << 30) - 1),)
            else:
                strs.put(st, to, None)
                st.aux.pop(tkey(to), None)
            return ai.fresh_for(I['ty'], I.get('w') or 0, ('readres', t))
        if strs.NAME in cd and args and isinstance(args[0], ai.P):
            a = st.aux.get(tkey(args[0]))
            mm = strs.RX.search(cd)
            if a is not None and a[:1] == ('of',) and mm and '(' not in cd[:mm.start()]:
                op = mm.group(1)
                if op in ('size', 'length'):
                    l = textlen(a[1])
                    return ai.V(64, [(l, i) for i in range(30)] + [0] * 34)
                if op in ('data', 'c_str', 'begin'):
                    return ai.P(('strdata', args[0].o, args[0].off), 0)
                if op == 'empty':
                    return ai.const(1, 0)
                st.aux.pop(tkey(args[0]), None)
                if op in ('~basic_string',):
                    strs.put(st, args[0], None)
                    return None
            elif mm and '(' not in cd[:mm.start()] and mm.group(1) in ('basic_string', 'operator=') and len(args) > 1 \
                    and isinstance(args[1], ai.P) and st.aux.get(tkey(args[1]), ())[:1] == ('of',) and len(args) == 2:
                st.aux[tkey(args[0])] = st.aux[tkey(args[1])]
                strs.put(st, args[0], None)
                return args[0] if mm.group(1) == 'operator=' else None
        return strs.model(it, I, cd, args, st, ctx)
    return model


def show(tr):
    out = []
    i = 0
    while i < len(tr):
        e = tr[i]
        if isinstance(e, ai.V):
            j = i
            while j < len(tr) and isinstance(tr[j], ai.V):
                j += 1
            b = []
            for v in tr[i:j]:
                b += list(v.b)
            out.append(ai.fmtbits(b))
            i = j
        else:
            out.append(repr(e))
            i += 1
    return ' | '.join(out)


def be(v):
    """8 big-endian bytes of a 64-bit value"""
    return tuple(ai.V(8, v.b[8 * i:8 * i + 8]) for i in range(7, -1, -1))
