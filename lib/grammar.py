"""The reference transducers: the text grammar of RON, written down from its
definition (UUIDs, ints, floats, strings, spans, specs, terms)."""
import absint as ai
import vlib
import auto
import textmodel as tm

DIGIT = frozenset(b'0123456789')
HEX = frozenset(b'0123456789ABCDEF')
XHEX = frozenset(b'0123456789ABCDEFabcdef')
DGT = frozenset(b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~')
VER = frozenset(b'$%+-')
WS = frozenset(b' \r\n\t')
SGN = frozenset(b'+-')
EXP = frozenset(b'eE')
TERM = frozenset(b',;!?')
ESC = frozenset(b'nrtf\\b\'/"')
CONT = frozenset(range(0x80, 0xc0))
LEAD = {1: frozenset(range(0x80)), 2: frozenset(range(0xc0, 0xe0)), 3: frozenset(range(0xe0, 0xf0)),
        4: frozenset(range(0xf0, 0xf8))}
SETS = [DIGIT, HEX, XHEX, DGT, VER, WS, SGN, EXP, TERM, ESC, CONT] + list(LEAD.values()) + \
    [frozenset([c]) for c in b"+-@:=^'>().\n\r\\\0/uabfnrt\""]
CLASS = {}
for _c in range(256):
    CLASS.setdefault(tuple(_c in s for s in SETS), []).append(_c)
CLASSES = [frozenset(x) for x in CLASS.values()]


def classes(iv):
    bs = {x for lo, hi in iv for x in range(lo, hi + 1)}
    out = []
    for c in CLASSES:
        x = c & bs
        if x:
            out.append((min(x), x))
    return out


HERE = ai.P(auto.TEXT, 0)
NEXT = ai.P(auto.TEXT, 1)
CH0 = ai.lab(8, ('ch', 0))
C32 = ai.V(32, list(CH0.b) + [0] * 24)
CHP = ai.lab(8, ('ch', -1))


def c8(s):
    return ai.const(8, ord(s))


def chars(sub, b):
    """one step inside of a string: (new sub, whether a char begins) or None;
    sub: 0 between chars, 'esc', ('u', n), ('c', n)"""
    if sub == 0:
        if b == 0x5c:
            return 'esc', True
        if b in (0, 0x0a, 0x0d, 0x27):
            return None
        for n, s in LEAD.items():
            if b in s:
                return (('c', n - 1) if n > 1 else 0), True
        return None
    if sub == 'esc':
        if b == ord('u'):
            return ('u', 4), False
        return (0, False) if b in ESC else None
    k, n = sub
    if b not in (XHEX if k == 'u' else CONT):
        return None
    return ((k, n - 1) if n > 1 else 0), False


class Uuid:
    """UUID text: [HEX /] word [$%+- word]"""

    @staticmethod
    def start(b, regs):
        if b not in DGT:
            return None
        regs.update(variety=c8('0'), version=c8('$'), origin=(ai.NULL, ai.const(64, 0)), wordb=HERE)
        return 'v1' if b in HEX else 'v'

    @staticmethod
    def step(s, b, regs):
        if s in ('v1', 'v'):
            if b in DGT:
                return 'v'
            if b == 0x2f and s == 'v1':
                regs['variety'] = CHP
                return 'sl'
            if b in VER:
                regs['value'] = (regs['wordb'], tm.sl(regs['wordb'], HERE))
                regs['version'] = CH0
                return 'ver'
            return None
        if s in ('sl', 'ver'):
            if b in DGT:
                regs['wordb'] = HERE
                return 'v' if s == 'sl' else 'o'
            return None
        if s == 'o':
            return 'o' if b in DGT else None
        return None

    @staticmethod
    def final(s, regs, at=HERE):
        if s in ('v1', 'v'):
            regs['value'] = (regs['wordb'], tm.sl(regs['wordb'], at))
            return True
        if s == 'o':
            regs['origin'] = (regs['wordb'], tm.sl(regs['wordb'], at))
            return True
        return False

    @staticmethod
    def words(regs):
        def fl(v):
            return ('abc', v)
        return (ai.lab(64, ('word', fl(regs['variety']), regs['value'][1])),
                ai.lab(64, ('word', fl(regs['version']), regs['origin'][1])))


def toolong(st, regs):
    """[False], [True] or both: the UUID has a word longer than 10 digits, as
    far as the scanner has asked"""
    out = set()
    vlo, vhi = tm.slicesize(st, regs['value'][1])
    olo, ohi = tm.slicesize(st, regs['origin'][1])
    if vlo > 10 or olo > 10:
        return [True]
    if vhi <= 10 and ohi <= 10:
        return [False]
    return [False, True]


POISON = (('poison',), {})


class Frame:
    """one op of a frame"""

    classes = staticmethod(classes)

    def step(self, rs, b, st, sc):
        mode, regs = rs
        regs = dict(regs)
        k = mode[0]
        if k == 'poison':
            return [(POISON, ())]
        f = getattr(self, 'm_' + k)
        return f(mode, regs, b, st)

    def go(self, *mode, **kw):
        return tuple(mode)

    # an atom, a span or a term may follow
    def after(self, regs, b, st, bare, ref=False, spec=False, dot=False, atoms=True):
        keep = {k: v for k, v in regs.items() if k in ('begin', 'span')}
        ev = ()
        if b in WS:
            m = ('T',) if spec else ('R1',) if ref else ('A1',) if atoms else ('S',)
            return [((m, keep), ev)]
        if b in TERM:
            return [((('done',), keep), ev)]
        if not atoms:
            return [(POISON, ev)]
        if b == 0x3d:
            return [((('=',), keep), ev)]
        if b == 0x5e:
            return [((('^',), keep), ev)]
        if b == 0x3e:
            return [((('>',), keep), ev)]
        if b == 0x27:
            keep.update(strb=NEXT, cp=ai.const(32, 0))
            return [((('str', 0, 'atom', 0), keep), ev)]
        if b == 0x28:
            return [((('(',), keep), ev)]
        if spec and b == 0x40:
            return [((('@',), keep), ev)]
        if spec and b == 0x2e:
            return [((('dot',), keep), ev)]
        if ref and b == 0x3a:
            return [((('ref',), keep), ev)]
        if bare:
            i = 's' if b in SGN else 'd' if b in DIGIT else None
            u = Uuid.start(b, keep)
            if i or u:
                keep['tok'] = HERE
                return [((('bare', i, i, u), keep), ev)]
        return [(POISON, ev)]

    def m_T(self, mode, regs, b, st):
        return self.after(regs, b, st, bare=True, spec=True)

    def m_A0(self, mode, regs, b, st):
        return self.after(regs, b, st, bare=False)

    def m_A1(self, mode, regs, b, st):
        return self.after(regs, b, st, bare=True)

    def m_R0(self, mode, regs, b, st):
        return self.after(regs, b, st, bare=False, ref=True)

    def m_R1(self, mode, regs, b, st):
        return self.after(regs, b, st, bare=True, ref=True)

    def m_S(self, mode, regs, b, st):
        return self.after(regs, b, st, bare=False, atoms=False)

    def m_dot(self, mode, regs, b, st):
        return [((('end',), regs), ())] if b == 0x0a else [(POISON, ())]

    def m_end(self, mode, regs, b, st):
        return [(POISON, ())]

    def chain(self, pairs, b, st, nxt):
        """the byte after a token: effects of the token, then of the byte"""
        out = []
        for ok, regs, ev in pairs:
            if not ok:
                out.append((POISON, ()))
                continue
            for rs2, ev2 in nxt(regs, b, st):
                out.append((rs2, tuple(ev) + tuple(ev2)))
        return out

    # -- UUIDs ------------------------------------------------------------
    def uuid(self, mode, regs, b, st, store, nxt):
        s = mode[1] if len(mode) > 1 else None
        n = Uuid.start(b, regs) if s is None else Uuid.step(s, b, regs)
        if n:
            return [(((mode[0], n), regs), ())]
        if s is None or not Uuid.final(s, regs):
            return [(POISON, ())]
        return self.chain([(not tl, regs, store(*Uuid.words(regs))) for tl in toolong(st, regs)], b, st, nxt)

    def put(self, i):
        return lambda v, o: (('w', i, 0, o), ('w', i, 8, v))

    def pushu(self, v, o):
        return (('push', 0, o, v),)

    def u_nxt(self, ref):
        return lambda regs, b, st: self.after(regs, b, st, bare=False, ref=ref)

    def __init__(self):
        def mk(ch, store, ref):
            def f(mode, regs, b, st):
                if len(mode) == 1 and ch == '>' and b in WS:
                    return [((mode, regs), ())]
                return self.uuid(mode, regs, b, st, store, self.u_nxt(ref))
            setattr(self, 'm_' + ch, f)
        mk('@', self.put(0), True)
        mk('ref', self.put(1), False)
        mk('>', self.pushu, False)

    # -- numbers ----------------------------------------------------------
    @staticmethod
    def int_(s, b):
        if b in DIGIT:
            return 'd'
        return None

    @staticmethod
    def flt(s, b):
        if s is None:
            return None
        if b in DIGIT:
            return {'s': 'd', 'd': 'd', '.': 'f', 'f': 'f', 'e': 'x', 'es': 'x', 'x': 'x'}[s]
        if b in SGN:
            return 'es' if s == 'e' else None
        if b == 0x2e:
            return '.' if s == 'd' else None
        if b in EXP:
            return 'e' if s in 'df' else None
        return None

    def number(self, kind, regs, st):
        """[(accepted, regs, events)]"""
        r = tm.sl(regs['tok'], HERE)
        v = ai.const(64, 0)
        lo, hi = tm.slicesize(st, r)
        if kind == 'i':
            if hi < 19:
                bad = [False]
            else:
                known = [p for t, p in st.aux.get('pred', ()) if t == ('intbig', ai.term(r))]
                bad = known[:1] or [False, True]
        else:
            bad = [False] if hi <= 24 else [True] if lo > 24 else [False, True]
        return [(not x, regs, (('push', 1 if kind == 'i' else 3, r, v),)) for x in bad]

    def quoted(self, mode, regs, b, st, kind):
        s = mode[1] if len(mode) > 1 else None
        if s is None:
            if b in WS:
                return [((mode, regs), ())]
            n = 's' if b in SGN else 'd' if b in DIGIT else None
            if n is None:
                return [(POISON, ())]
            regs['tok'] = HERE
            return [(((mode[0], n), regs), ())]
        n = self.int_(s, b) if kind == 'i' else self.flt(s, b)
        if n:
            return [(((mode[0], n), regs), ())]
        if s not in (('d',) if kind == 'i' else ('f', 'x')):
            return [(POISON, ())]
        return self.chain(self.number(kind, regs, st), b, st, self.u_nxt(False))

    def bare(self, mode, regs, b, st):
        _, i, f, u = mode
        regs2 = dict(regs)
        i2 = self.int_(i, b) if i else None
        f2 = self.flt(f, b)
        u2 = Uuid.step(u, b, regs2) if u else None
        if i2 or f2 or u2:
            return [((('bare', i2, f2, u2), regs2), ())]
        if i == 'd':
            pairs = self.number('i', regs, st)
        elif f in ('f', 'x'):
            pairs = self.number('f', regs, st)
        elif u and Uuid.final(u, regs):
            pairs = [(not tl, regs, self.pushu(*Uuid.words(regs))) for tl in toolong(st, regs)]
        else:
            return [(POISON, ())]
        return self.chain(pairs, b, st, self.u_nxt(False))

    m_bare = bare

    # -- strings ----------------------------------------------------------
    def m_str(self, mode, regs, b, st):
        _, sub, what, pend = mode
        r = chars(sub, b)
        if sub == 0 and pend:    # the char before is complete
            regs['cp'] = ai.binop('add', regs['cp'], ai.const(32, 1))
        if r:
            return [((('str', r[0], what, 1), regs), ())]
        if sub != 0 or b != 0x27:
            return [(POISON, ())]
        ev = (('push', 2, tm.sl(regs['strb'], HERE), ai.const(64, 0)), ('cp', regs['cp']))
        if what == 'atom':
            keep = {k: v for k, v in regs.items() if k in ('begin', 'span')}
            return [((('A0',), keep), ev)]
        # a span: as many ops as there are chars
        out = []
        for z in zero(st, regs['cp']):
            if z:
                out.append((POISON, ()))
            else:
                keep = {'begin': regs['begin'], 'span': ai.binop('sub', regs['cp'], ai.const(32, 1))}
                out.append(((('(z',), keep), ev + (('ncp', 'back'),)))
        return out

    # -- spans ------------------------------------------------------------
    def __getattr__(self, n):
        t = {'m_=': lambda m, r, b, s: self.quoted(m, r, b, s, 'i'), 'm_^': lambda m, r, b, s: self.quoted(m, r, b, s, 'f'),
             'm_(': self.span, 'm_(d': self.digits, 'm_(z': self.close}
        if n in t:
            return t[n]
        raise AttributeError(n)

    def span(self, mode, regs, b, st):
        if b in WS:
            return [((mode, regs), ())]
        if b == 0x27:
            regs.update(strb=NEXT, cp=ai.const(32, 0))
            return [((('str', 0, 'span', 0), regs), ())]
        if b in DIGIT:
            return self.digit(ai.const(32, 0), regs, st)
        return [(POISON, ())]

    def digit(self, old, regs, st):
        n = old.const()
        l = old.label()
        lo, hi = (n, n) if n is not None else rng(st, l)
        new = ai.binop('add', ai.binop('mul', old, ai.const(32, 10)),
                       ai.V(32, list(CH0.b[:4]) + [0] * 28))
        ok = ((('(d',), dict(regs, span=new)), ())
        if hi * 10 + 9 < 1 << 32 and hi < 1 << 31:
            return [ok]
        if lo >= 1000000:
            return [(POISON, ())]
        return [ok, (POISON, ())]

    def digits(self, mode, regs, b, st):
        if b in DIGIT:
            return self.digit(regs['span'], regs, st)
        if b not in WS and b != 0x29:
            return [(POISON, ())]
        out = []
        for z in zero(st, regs['span']):
            if z:
                out.append((POISON, ()))
            else:
                r = dict(regs, span=ai.binop('sub', regs['span'], ai.const(32, 1)))
                out.append((((('(z',) if b in WS else ('S',)), r), ()))
        return out

    def close(self, mode, regs, b, st):
        if b in WS:
            return [((mode, regs), ())]
        return [((('S',), regs), ())] if b == 0x29 else [(POISON, ())]


def rng(st, l):
    iv = st.facts.get(l, ((0, (1 << 32) - 1),)) if l is not None else ((0, (1 << 32) - 1),)
    return iv[0][0], iv[-1][1]


def zero(st, v):
    n = v.const()
    if n is not None:
        return [n == 0]
    l = v.label()
    if l is None:
        return [False, True]
    if l in st.facts:
        lo, hi = rng(st, l)
    else:
        lo, hi = 0, (1 << 32) - 1
        co, k = vlib.linear(v, 32)
        co = list(co)
        if len(co) == 1 and co[0][1] == 1 and co[0][0] in st.facts:
            k = k - (1 << 32) if k >> 31 else k
            a, b = rng(st, co[0][0])
            if 0 <= a + k and b + k < 1 << 32:
                lo, hi = a + k, b + k
    if hi == 0:
        return [True]
    if lo > 0:
        return [False]
    return [False, True]
