"""Abstract interpretation of normalised LLVM IR (JSON from tools/irtool).

Domain: every integer is a vector of bits, each bit being 0, 1, a provenance
(label, index) or TOP; labels are value numbers (hash-consed terms); pointers
are (object, offset); memory is byte-granular per object.  States are joined
at every merge, so this is a plain forward dataflow analysis; the only
partitioning is by the constant values of loop counters (opt-in).  Nothing is
executed and no path condition is ever formed or handed to a solver.
"""
from collections import defaultdict, deque

T = 'T'


class V:  # integer value
    __slots__ = ('w', 'b')

    def __init__(self, w, bits):
        self.w = w
        self.b = tuple(bits)
        assert len(self.b) == w, (w, len(self.b))

    def __eq__(self, o):
        return isinstance(o, V) and self.w == o.w and self.b == o.b

    def __hash__(self):
        return hash((self.w, self.b))

    def const(self):
        r = 0
        for i, x in enumerate(self.b):
            if x == 1:
                r |= 1 << i
            elif x != 0:
                return None
        return r

    def label(self):
        """the label when this is exactly the low bits of one label (possibly
        zero-extended)"""
        b0 = self.b[0] if self.b else None
        if not isinstance(b0, tuple) or b0[1] != 0:
            return None
        lab = b0[0]
        n = 0
        for i, x in enumerate(self.b):
            if isinstance(x, tuple) and x[0] == lab and x[1] == i:
                n = i + 1
            else:
                break
        if all(x == 0 for x in self.b[n:]) and n >= lab.w:
            return lab
        return None

    def __repr__(self):
        c = self.const()
        if c is not None:
            return '%d' % c if c < 4096 else '0x%x' % c
        l = self.label()
        if l is not None:
            return repr(l)
        return fmtbits(self.b)


def fmtbits(b):
    out = []
    i = 0
    while i < len(b):
        x = b[i]
        j = i + 1
        if isinstance(x, tuple):
            while j < len(b) and isinstance(b[j], tuple) and b[j][0] is x[0] \
                    and b[j][1] == x[1] + (j - i):
                j += 1
            out.append('%r[%d..%d]@%d' % (x[0], x[1], x[1] + j - i - 1, i))
        else:
            while j < len(b) and b[j] == x:
                j += 1
            if x != 0:
                out.append('%s*%d@%d' % (x, j - i, i))
        i = j
    return '{' + ' '.join(out) + '}'


class Label:
    """A value number: an interned term with a width."""
    __slots__ = ('t', 'w', 'k')
    tab = {}

    def __new__(cls, t, w):
        k = (t, w)
        o = cls.tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.t = t
            o.w = w
            o.k = len(cls.tab)
            cls.tab[k] = o
        return o

    def __hash__(self):
        return self.k

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return fmt(self.t)


def fmt(t):
    if isinstance(t, Label):
        return fmt(t.t)
    if isinstance(t, tuple) and t:
        if t[0] == 'in':
            return str(t[1])
        if t[0] == 'm':
            return '%s%s.%s' % (fmt(t[1]), '' if t[3] == 0 else "'", t[2])
        if t[0] == 'call':
            return '%s(%s)' % (short(t[1]), ','.join(fmt(x) for x in t[2]))
        return '%s(%s)' % (t[0], ','.join(fmt(x) for x in t[1:]))
    return str(t)


def short(d):
    n = d.split('(')[0]
    return n.split('::')[-1] if '<' not in n else n[-40:]


class P:  # pointer
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __eq__(self, x):
        return isinstance(x, P) and self.o == x.o and self.off == x.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return '&%s+%s' % (fmt(self.o), fmt(self.off) if not isinstance(self.off, int) else self.off)


NULL = P(('null',), 0)


class A:  # aggregate
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, A) and self.f == o.f

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.f))


def const(w, n):
    n &= (1 << w) - 1
    return V(w, [(n >> i) & 1 for i in range(w)])


def lab(w, t):
    l = Label(t, w)
    return V(w, [(l, i) for i in range(w)])


def top(w):
    return V(w, [T] * w)


def term(v):
    """canonical hashable term of a value"""
    if isinstance(v, V):
        c = v.const()
        if c is not None:
            return ('c', c)
        l = v.label()
        if l is not None:
            return l
        return v
    return v


def fresh_for(ty, w, t):
    if w:
        return lab(w, t)
    if ty == 'ptr':
        return P(('P', t), 0)
    if ty == 'void':
        return None
    if ty == 'double':
        return lab(64, t)
    if ty == 'float':
        return lab(32, t)
    if ty.startswith('{'):
        parts = [x.strip() for x in ty.strip('{} ').split(',')]
        out = []
        for i, p in enumerate(parts):
            out.append(fresh_for(p, int(p[1:]) if p[0] == 'i' and p[1:].isdigit() else 0,
                                 ('fld', i, t)))
        return A(out)
    return P(('U', t), 0)


def join_val(a, b, tag):
    if a == b:
        return a
    if a is None or b is None:
        return None
    if isinstance(a, V) and isinstance(b, V) and a.w == b.w:
        if tag is not None:
            # bits that agree survive, the others come from a join label
            l = Label(('phi',) + tag, a.w)
            return V(a.w, [x if x == y else (l, i)
                           for i, (x, y) in enumerate(zip(a.b, b.b))])
        return V(a.w, [x if x == y else T for x, y in zip(a.b, b.b)])
    if isinstance(a, P) and isinstance(b, P):
        if a.o == b.o:
            return P(a.o, ('phi',) + (tag or ('?',)))
        return P(('phiP',) + (tag or ('?',)), 0)
    if isinstance(a, A) and isinstance(b, A) and len(a.f) == len(b.f):
        return A([join_val(x, y, (tag + (i,)) if tag else None)
                  for i, (x, y) in enumerate(zip(a.f, b.f))])
    return P(('phiX',) + (tag or ('?',)), 0)


class State:
    __slots__ = ('mem', 'ep', 'facts', 'v', 'aux')

    def __init__(self):
        self.v = {}     # SSA id -> value
        self.aux = {}   # model-specific facts, joined by equality
        self.mem = {}   # obj -> {byte off: bits8 | ('p', P, k)}
        self.ep = {}    # obj -> epoch tag (tuple), 0 = initial
        self.facts = {}  # label -> frozenset of (lo,hi) intervals

    def copy(self):
        s = State()
        s.mem = {o: dict(c) for o, c in self.mem.items()}
        s.ep = dict(self.ep)
        s.facts = dict(self.facts)
        s.v = dict(self.v)
        s.aux = dict(self.aux)
        return s

    def __eq__(self, o):
        return self.mem == o.mem and self.ep == o.ep and self.facts == o.facts and self.v == o.v and self.aux == o.aux


def join_state(a, b, block):
    s = State()
    for o in set(a.mem) | set(b.mem) | set(a.ep) | set(b.ep):
        ea, eb = a.ep.get(o, 0), b.ep.get(o, 0)
        if ea == eb:
            e = ea
        else:
            e = ('j', block)
        if e != 0:
            s.ep[o] = e
        ca, cb = a.mem.get(o, {}), b.mem.get(o, {})
        if ca or cb:
            out = {}
            for k in set(ca) | set(cb):
                x = ca.get(k) if k in ca else initial_byte(o, k, ea)
                y = cb.get(k) if k in cb else initial_byte(o, k, eb)
                if x == y:
                    out[k] = x
                else:
                    if x and y and x[0] == 'b' and y[0] == 'b':
                        l = Label(('phim', block, o, k & ~7), 64)
                        out[k] = ('b', tuple(
                            p if p == q else (l, (k & 7) * 8 + i)
                            for i, (p, q) in enumerate(zip(x[1], y[1]))))
                    else:
                        out[k] = ('p', P(('phim', block, o, k & ~7), 0), k & 7)
            s.mem[o] = out
    for l in set(a.facts) & set(b.facts):
        s.facts[l] = union_iv(a.facts[l], b.facts[l])
    for i in set(a.aux) | set(b.aux):
        x, y = a.aux.get(i), b.aux.get(i)
        s.aux[i] = x if x == y else ('join', block, i)
    for i, x in a.v.items():
        y = b.v.get(i, x)
        s.v[i] = x if x == y else join_val(x, y, (block, i))
    for i, y in b.v.items():
        if i not in a.v:
            s.v[i] = y
    return s


def initial_byte(o, k, ep):
    l = Label(('m', o, k & ~7, ep), 64)
    return ('b', tuple((l, (k & 7) * 8 + i) for i in range(8)))


def union_iv(a, b):
    ivs = sorted(set(a) | set(b))
    out = []
    for lo, hi in ivs:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def inter_iv(a, b):
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return tuple(sorted(out))


def compl_iv(a, w):
    out = []
    cur = 0
    for lo, hi in a:
        if cur < lo:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= (1 << w) - 1:
        out.append((cur, (1 << w) - 1))
    return tuple(out)


BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv',
       'sdiv', 'urem', 'srem'}


def sgn(n, w):
    return n - (1 << w) if n >> (w - 1) else n


def binop(op, a, b):
    w = a.w
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        if op == 'add': return const(w, ca + cb)
        if op == 'sub': return const(w, ca - cb)
        if op == 'mul': return const(w, ca * cb)
        if op == 'and': return const(w, ca & cb)
        if op == 'or': return const(w, ca | cb)
        if op == 'xor': return const(w, ca ^ cb)
        if op == 'shl': return const(w, ca << cb) if cb < w else top(w)
        if op == 'lshr': return const(w, ca >> cb) if cb < w else top(w)
        if op == 'ashr': return const(w, sgn(ca, w) >> cb) if cb < w else top(w)
        if op == 'udiv' and cb: return const(w, ca // cb)
        if op == 'urem' and cb: return const(w, ca % cb)
        if op == 'srem' and cb:
            x, y = sgn(ca, w), sgn(cb, w)
            return const(w, (abs(x) % abs(y)) * (1 if x >= 0 else -1))
        if op == 'sdiv' and cb:
            x, y = sgn(ca, w), sgn(cb, w)
            return const(w, int(abs(x) // abs(y)) * (1 if x * y >= 0 else -1))
    if op in ('and', 'or', 'xor'):
        out = []
        l = None
        for i, (x, y) in enumerate(zip(a.b, b.b)):
            r = None
            if op == 'and':
                if x == 0 or y == 0: r = 0
                elif x == 1: r = y
                elif y == 1: r = x
                elif x == y: r = x
            elif op == 'or':
                if x == 1 or y == 1: r = 1
                elif x == 0: r = y
                elif y == 0: r = x
                elif x == y: r = x
            else:
                if x == 0: r = y
                elif y == 0: r = x
                elif x == y and x != T: r = 0
            if r is None:
                if x == T or y == T:
                    r = T
                else:
                    if l is None:
                        l = Label((op,) + tuple(sorted((term(a), term(b)), key=tkey)), w)
                    r = (l, i)
            out.append(r)
        return V(w, out)
    if op == 'shl' and cb is not None:
        return V(w, ([0] * cb + list(a.b))[:w]) if cb < w else top(w)
    if op == 'lshr' and cb is not None:
        return V(w, list(a.b[cb:]) + [0] * min(cb, w)) if cb < w else top(w)
    if op == 'ashr' and cb is not None:
        return V(w, list(a.b[cb:]) + [a.b[-1]] * cb) if cb < w else top(w)
    if op == 'mul' and (ca is not None or cb is not None):
        c, v = (ca, b) if ca is not None else (cb, a)
        if c == 0: return const(w, 0)
        if c & (c - 1) == 0:
            k = c.bit_length() - 1
            return V(w, ([0] * k + list(v.b))[:w])
    if op == 'udiv' and cb and cb & (cb - 1) == 0:
        k = cb.bit_length() - 1
        return V(w, list(a.b[k:]) + [0] * k)
    if op == 'urem' and cb and cb & (cb - 1) == 0:
        k = cb.bit_length() - 1
        return V(w, list(a.b[:k]) + [0] * (w - k))
    if op == 'add':
        if ca == 0: return b
        if cb == 0: return a
        if all(x == 0 or y == 0 for x, y in zip(a.b, b.b)):
            return V(w, [y if x == 0 else x for x, y in zip(a.b, b.b)])
        # affine normalisation: label + constant
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            la = a.label()
            if la is not None and la.w == w and isinstance(la.t, tuple) and la.t[0] == 'addc':
                n = (la.t[2] + cb) & ((1 << w) - 1)
                base = la.t[1]
                bv = base if isinstance(base, V) else V(w, [(base, i) for i in range(w)])
                if n == 0:
                    return bv
                return lab(w, ('addc', base, n))
            return lab(w, ('addc', term(a) if not isinstance(term(a), Label) or term(a).w == w else a, cb))
        return lab(w, ('add',) + tuple(sorted((term(a), term(b)), key=tkey)))
    if op == 'sub':
        if cb is not None:
            return binop('add', a, const(w, -cb))
        if a == b:
            return const(w, 0)
        # two addresses inside one object
        la, lb = a.label(), b.label()
        if la is not None and lb is not None and la.t[0] == 'p2i' == lb.t[0] and la.t[1] == lb.t[1] \
                and isinstance(la.t[2], int) and isinstance(lb.t[2], int):
            return const(w, la.t[2] - lb.t[2])
        return lab(w, ('sub', term(a), term(b)))
    if op in ('mul',):
        return lab(w, ('mul',) + tuple(sorted((term(a), term(b)), key=tkey)))
    if op in ('udiv', 'sdiv', 'urem', 'srem') and cb and a.b[-1] == 0 and cb < 1 << (w - 1):
        op = 'u' + op[1:]
        hi = sum(1 << i for i, x in enumerate(a.b) if x != 0)
        hi = hi // cb if op == 'udiv' else min(hi, cb - 1)
        l = Label((op, term(a), term(b)), w)
        return V(w, [(l, i) if i < hi.bit_length() else 0 for i in range(w)])
    return lab(w, (op, term(a), term(b)))


def icmp(pred, a, b):
    """returns True/False/None or a term"""
    ca, cb = a.const(), b.const()
    w = a.w
    if ca is not None and cb is not None:
        if pred[0] == 's':
            ca, cb = sgn(ca, w), sgn(cb, w)
        return {'eq': ca == cb, 'ne': ca != cb, 'ult': ca < cb, 'ugt': ca > cb,
                'ule': ca <= cb, 'uge': ca >= cb, 'slt': ca < cb, 'sgt': ca > cb,
                'sle': ca <= cb, 'sge': ca >= cb}[pred]
    if a == b and T not in a.b:
        return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
    if pred in ('eq', 'ne'):
        for x, y in zip(a.b, b.b):
            if (x == 0 and y == 1) or (x == 1 and y == 0):
                return pred == 'ne'
    return None


def vrange(v, facts=None):
    """unsigned [lo,hi] from known bits and interval facts"""
    lo = sum(1 << i for i, x in enumerate(v.b) if x == 1)
    hi = sum(1 << i for i, x in enumerate(v.b) if x != 0)
    l = v.label()
    if facts and l is not None and l in facts and facts[l]:
        lo = max(lo, facts[l][0][0])
        hi = min(hi, facts[l][-1][1])
    elif facts and v.b and isinstance(v.b[0], tuple) and v.b[0][0] in facts and facts[v.b[0][0]]:
        # a shifted view of a bounded label
        l, s = v.b[0]
        n = 0
        while n < v.w and v.b[n] == (l, s + n):
            n += 1
        if s + n >= l.w and all(x == 0 for x in v.b[n:]):
            lo = max(lo, facts[l][0][0] >> s)
            hi = min(hi, facts[l][-1][1] >> s)
    return lo, hi


def narrow(v, a, c, st):
    """v = a + c: when the range of a is known and nothing wraps, the value
    has that many bits only"""
    l = v.label()
    if l is None or l.w != v.w:
        return v
    lo, hi = vrange(a, st.facts)
    m = 1 << v.w
    if hi - lo >= m - 1 or (lo + c) // m != (hi + c) // m:
        return v
    lo, hi = (lo + c) % m, (hi + c) % m
    n = hi.bit_length()
    if n >= v.w:
        return v
    nl = Label(l.t, n)
    st.facts[nl] = ((lo, hi),)
    return V(v.w, [(nl, i) if i < n else 0 for i in range(v.w)])


class Undecided(Exception):
    pass


class Misuse(Exception):
    """a run whose every step is decided uses memory that is not there"""


class Interp:
    def __init__(self, fn, mod, model=None, partition=False, decide=None,
                 argvals=None, maxiter=20000, maxctx=400, pure=None,
                 track=None, init=None, noreturn=(), loadhook=None, unroll=False, level=0, subs=None, strict=False):
        self.strict = strict      # raise on the first condition nothing decides
        self.loadhook = loadhook
        self.unroll = unroll      # partition loops by iteration number
        self.level = level        # activation depth (names of locals)
        self.subs = subs          # predicate: calls to follow into
        self.undecided = []
        self.track = track
        self.init = init
        self.noreturn = noreturn
        self.tags = []
        self.fn = fn
        self.mod = mod
        self.model = model
        self.partition = partition
        self.decide = decide
        self.blocks = {b['id']: b for b in fn['blocks']}
        self.order = {b['id']: i for i, b in enumerate(fn['blocks'])}
        self.entry = fn['blocks'][0]['id']
        self.vals = {}        # (ctx) -> {id: value}
        self.args = {}
        for i, a in enumerate(fn['args']):
            if argvals and i in argvals:
                self.args[a['id']] = argvals[i]
            else:
                self.args[a['id']] = self.fresh_arg(a, i)
        self.maxiter = maxiter
        self.maxctx = maxctx
        self.conds = {}       # (ctx, block) -> (cond value)
        self.instates = {}
        self.outstates = {}
        self.ivals = {}       # (ctx,id) -> value
        self.ctxs_of = defaultdict(set)
        self.edges = defaultdict(set)   # (ctx,b) -> {(ctx2,b2)}
        self.callrec = {}     # (ctx,id) -> (inst, args, state copy lazily)
        self.pure = pure
        self.rets = {}

    def fresh_arg(self, a, i):
        n = a['name'] or 'arg%d' % i
        return fresh_for(a['ty'], a['w'], ('in', 'a%d' % i))

    # -- values ---------------------------------------------------------
    def val(self, o, st, w=None):
        if 'v' in o:
            k = o['v']
            if k in self.args:
                return self.args[k]
            return st.v.get(k)
        if 'c' in o:
            return const(o['w'], int(o['c']))
        if 'f' in o:
            return const(64, int(o['f']))
        if 'null' in o:
            return NULL
        if 'g' in o:
            return P(('g', o['g']), o['off'])
        if 'fn' in o:
            return P(('fn', o['fn']), 0)
        if 'undef' in o:
            return top(w) if w else P(('undef',), 0)
        if 'zero' in o:
            return None
        return None

    # -- memory ---------------------------------------------------------
    def load(self, st, p, size, isptr, site):
        if not isinstance(p, P):
            return P(('U', ('ld', site)), 0) if isptr else lab(size * 8, ('ld?', site))
        if self.loadhook:
            r = self.loadhook(self, st, p, size, isptr, site)
            if r is not None:
                return r
        if not isinstance(p.off, int):
            t = ('idx', p.o, p.off, size, st.ep.get(p.o, 0))
            return P(('P', t), 0) if isptr else lab(size * 8, t)
        o = p.o
        if o[0] == 'g' and o not in st.ep:
            g = self.mod['globals'].get(o[1])
            if g and g.get('const') and g.get('init'):
                bs = g['init']['bytes']
                for r in g['init']['relocs']:
                    if r['off'] == p.off and isptr:
                        return P(('g', r['g']), r['goff'])
                if not isptr and p.off + size <= len(bs):
                    n = 0
                    for i in range(size):
                        n |= bs[p.off + i] << (8 * i)
                    return const(size * 8, n)
        cells = st.mem.get(o, {})
        ep = st.ep.get(o, 0)
        bs = [cells.get(p.off + i) or initial_byte(o, p.off + i, ep)
              for i in range(size)]
        if bs[0][0] == 'p':
            q = bs[0][1]
            if all(x[0] == 'p' and x[1] == q and x[2] == i for i, x in enumerate(bs)) and size == 8:
                return q if isptr else lab(64, ('p2i', q.o, q.off))
            return P(('U', ('mix', site)), 0) if isptr else top(size * 8)
        bits = []
        for x in bs:
            if x[0] == 'p':
                bits += [T] * 8
            else:
                bits += list(x[1])
        v = V(size * 8, bits)
        if isptr:
            c = v.const()
            if c == 0:
                return NULL
            l = v.label()
            if l is not None and l.t[0] == 'p2i' and len(l.t) == 3:
                return P(l.t[1], l.t[2])
            return P(('P', l if l is not None else v), 0)
        return v

    def store(self, st, p, v, size):
        if not isinstance(p, P):
            return
        if not isinstance(p.off, int):
            self.havoc(st, p.o, ('st', p.off))
            return
        c = st.mem.setdefault(p.o, {})
        if isinstance(v, P):
            for i in range(8):
                c[p.off + i] = ('p', v, i)
            return
        if v is None or isinstance(v, A):
            for i in range(size):
                c[p.off + i] = ('b', (T,) * 8)
            if isinstance(v, A):
                off = 0
                for f in v.f:
                    if isinstance(f, V):
                        self.store(st, P(p.o, p.off + off), f, f.w // 8)
                        off += 8
                    elif isinstance(f, P):
                        self.store(st, P(p.o, p.off + off), f, 8)
                        off += 8
            return
        bits = list(v.b)
        while len(bits) < size * 8:
            bits.append(0)
        for i in range(size):
            c[p.off + i] = ('b', tuple(bits[i * 8:i * 8 + 8]))

    def memcpy(self, st, d, s, n):
        if not (isinstance(d, P) and isinstance(s, P)):
            return
        if not isinstance(n, int) or n > 1 << 20 or not isinstance(d.off, int) or not isinstance(s.off, int):
            self.havoc(st, d.o, ('memcpy',))
            return
        out = []
        o = s.o
        g = self.mod['globals'].get(o[1]) if o[0] == 'g' else None
        i = 0
        relocs = {}
        if g and g.get('const') and g.get('init') and o not in st.ep:
            relocs = {r['off']: r for r in g['init']['relocs']}
        cells = st.mem.get(o, {})
        for i in range(n):
            if g and g.get('const') and g.get('init') and o not in st.ep:
                b = g['init']['bytes'][s.off + i]
                out.append(('b', tuple((b >> k) & 1 for k in range(8))))
            else:
                out.append(cells.get(s.off + i) or initial_byte(o, s.off + i, st.ep.get(o, 0)))
        c = st.mem.setdefault(d.o, {})
        for i, x in enumerate(out):
            c[d.off + i] = x
        for ro, r in relocs.items():
            if s.off <= ro and ro + 8 <= s.off + n:
                for k in range(8):
                    c[d.off + ro - s.off + k] = ('p', P(('g', r['g']), r['goff']), k)

    def havoc(self, st, o, tag):
        self.tags.append(tag)
        st.mem.pop(o, None)
        st.ep[o] = tag

    def clobber(self, st, p, n, tag):
        """the callee may change only the n bytes at p"""
        self.tags.append(tag)
        c = st.mem.setdefault(p.o, {})
        for i in range(n):
            l = Label(('upd', tag, p.o, p.off + (i & ~7)), 64)
            c[p.off + i] = ('b', tuple((l, (i & 7) * 8 + q) for q in range(8)))

    # -- transfer -------------------------------------------------------
    def cmp_term(self, pred, a, b):
        ta, tb = term(a), term(b)
        # canonical: gt->lt swap, ne -> not eq, ge -> not lt
        if pred in ('ugt', 'sgt'):
            return self.cmp_term(pred[0] + 'lt', b, a)
        if pred in ('ule', 'sle'):
            t, pol = self.cmp_term(pred[0] + 'lt', b, a)
            return t, not pol
        if pred in ('uge', 'sge'):
            t, pol = self.cmp_term(pred[0] + 'lt', a, b)
            return t, not pol
        if pred == 'ne':
            t, pol = self.cmp_term('eq', a, b)
            return t, not pol
        if pred == 'eq':
            for x, y in ((a, b), (b, a)):
                n = y.const()
                if n in (0, 1) and isinstance(x.b[0], tuple) and x.b[0][0].w == 1 \
                        and all(q == 0 for q in x.b[1:]):
                    t, pol = x.b[0][0].t, n == 1
                    while isinstance(t, tuple) and t[0] in ('not', 'b'):
                        if t[0] == 'not':
                            pol = not pol
                        t = t[1]
                        while isinstance(t, Label):
                            t = t.t
                    return t, pol
            x, y = sorted((ta, tb), key=tkey)
            return ('eq', x, y), True
        return (pred, ta, tb), True

    def boolval(self, t, pol):
        if t in (True, False):
            return const(1, int(t == pol))
        return lab(1, ('b', t)) if pol else lab(1, ('not', ('b', t)))

    def step_inst(self, I, st, ctx):
        op = I['op']
        site = I['id']
        ops = I.get('ops', [])
        w = I.get('w')
        if op == 'alloca':
            return P(('al', site, self.level) if self.level else ('al', site), 0)
        if op == 'load':
            p = self.val(ops[0], st)
            isptr = I['ty'] == 'ptr'
            r = self.load(st, p, I['size'], isptr, site)
            if not isptr and w and isinstance(r, V) and r.w != w:
                r = V(w, r.b[:w])
            if not isptr and not w and isinstance(r, V) and I['ty'] not in ('double', 'float'):
                pass
            return r
        if op == 'store':
            v = self.val(ops[0], st, I['size'] * 8)
            p = self.val(ops[1], st)
            if isinstance(v, V) and v.w % 8:
                v = V(I['size'] * 8, list(v.b) + [0] * (I['size'] * 8 - v.w))
            self.store(st, p, v, I['size'])
            return None
        if op == 'getelementptr':
            if 'base' not in I:
                return P(('U', ('gep', site)), 0)
            p = self.val(I['base'], st)
            if not isinstance(p, P):
                return P(('U', ('gep', site)), 0)
            off = I['off']
            terms = []
            for vo, sc in I['var']:
                x = self.val(vo, st, 64)
                if isinstance(x, V) and x.const() is not None:
                    off += sgn(x.const(), x.w) * sc
                else:
                    terms.append((term(x), sc))
            if terms:
                if isinstance(p.off, int):
                    return P(p.o, ('lin', p.off + off, tuple(terms)))
                if isinstance(p.off, tuple) and p.off[0] == 'lin':
                    return P(p.o, ('lin', p.off[1] + off, p.off[2] + tuple(terms)))
                return P(p.o, ('lin', off, ((p.off, 1),) + tuple(terms)))
            if isinstance(p.off, int):
                return P(p.o, p.off + off)
            if isinstance(p.off, tuple) and p.off[0] == 'lin':
                return P(p.o, ('lin', p.off[1] + off, p.off[2]))
            return P(p.o, ('lin', off, ((p.off, 1),)) if off else p.off)
        if op in BIN:
            a, b = self.val(ops[0], st, w), self.val(ops[1], st, w)
            if not isinstance(a, V) or not isinstance(b, V) or a.w != b.w:
                return lab(w, (op, 'x', site)) if w else None
            if w == 1 and op in ('and', 'or', 'xor'):
                return self.bool_bin(op, a, b)
            r = binop(op, a, b)
            if op in ('add', 'sub') and st.facts:
                k = b.const()
                if k is not None:
                    r = narrow(r, a, k if op == 'add' else -k, st)
                elif op == 'add' and a.const() is not None:
                    r = narrow(r, b, a.const(), st)
            return r
        if op in ('zext', 'trunc', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            a = self.val(ops[0], st)
            if op == 'freeze':
                return a
            if op == 'ptrtoint':
                if isinstance(a, P):
                    if a == NULL:
                        return const(w, 0)
                    return lab(w, ('p2i', a.o, a.off))
                return lab(w, ('p2i?', site))
            if op == 'inttoptr':
                l = a.label() if isinstance(a, V) else None
                if l is not None and l.t[0] == 'p2i' and len(l.t) == 3:
                    return P(l.t[1], l.t[2])
                return P(('P', term(a)), 0)
            if op == 'bitcast':
                if isinstance(a, V) and (w is None or a.w == w):
                    return a
                return lab(w, ('bc', site)) if w else a
            if not isinstance(a, V):
                return lab(w, (op, site))
            if op == 'trunc':
                return V(w, a.b[:w])
            if op == 'zext':
                return V(w, list(a.b) + [0] * (w - a.w))
            return V(w, list(a.b) + [a.b[-1]] * (w - a.w))
        if op == 'icmp':
            pa, pb = self.val(ops[0], st), self.val(ops[1], st)
            pred = I['pred']
            if isinstance(pa, V) and isinstance(pb, V):
                r = icmp(pred, pa, pb)
                if r is None and pred not in ('eq', 'ne'):
                    (al, ah), (bl, bh) = vrange(pa, st.facts), vrange(pb, st.facts)
                    sw = 1 << (pa.w - 1)
                    sgnd = pred[0] == 's'
                    if sgnd and (al >= sw or ah < sw) and (bl >= sw or bh < sw):
                        al, ah, bl, bh = [sgn(x, pa.w) for x in (al, ah, bl, bh)]
                        sgnd = False
                    if not sgnd:
                        k = pred[1:]
                        if k == 'lt': r = True if ah < bl else False if al >= bh else None
                        if k == 'ge': r = False if ah < bl else True if al >= bh else None
                        if k == 'gt': r = True if al > bh else False if ah <= bl else None
                        if k == 'le': r = False if al > bh else True if ah <= bl else None
                elif r is None:
                    r = self.eq_by_facts(pred, pa, pb, st)
                if r is not None:
                    return const(1, int(r))
                t, pol = self.cmp_term(pred, pa, pb)
                return self.boolval(t, pol)
            if isinstance(pa, P) and isinstance(pb, P):
                if pa == pb:
                    return const(1, int(pred in ('eq', 'ule', 'uge')))
                if pred in ('eq', 'ne') and {pa.o[0], pb.o[0]} <= {'al', 'null', 'g', 'heap', 'curs', 'opatoms', 'frame', 'db', 'it', 'cf', 'text'} and pa.o != pb.o:
                    return const(1, int(pred == 'ne'))
                if pa.o == pb.o and isinstance(pa.off, int) and isinstance(pb.off, int):
                    k = pa.off - pb.off
                    return const(1, int({'eq': k == 0, 'ne': k != 0, 'ult': k < 0, 'ule': k <= 0, 'ugt': k > 0,
                                         'uge': k >= 0, 'slt': k < 0, 'sle': k <= 0, 'sgt': k > 0,
                                         'sge': k >= 0}[pred]))
                x, y = pa, pb
                if pred in ('ugt', 'ule'):
                    t = ('plt', y, x)
                    return self.boolval(t, pred == 'ugt')
                if pred in ('ult', 'uge'):
                    return self.boolval(('plt', x, y), pred == 'ult')
                a, b = sorted((x, y), key=tkey)
                return self.boolval(('peq', a, b), pred == 'eq')
            return lab(1, ('b', ('icmp?', site)))
        if op == 'select':
            c = self.val(ops[0], st)
            a = self.val(ops[1], st, w)
            b = self.val(ops[2], st, w)
            if isinstance(c, V):
                k = c.const()
                if k is None and self.decide:
                    k = self.decide(self, c, st, I)
                if k is not None:
                    return a if k else b
            if isinstance(a, V) and isinstance(b, V) and a.w == 1 and isinstance(c, V):
                # logical and/or
                if b.const() == 0:
                    return self.bool_bin('and', c, a)
                if a.const() == 1:
                    return self.bool_bin('or', c, b)
                if a.const() == 0 and b.const() == 1:
                    return self.bool_not(c)
                if a.const() == 0:
                    return self.bool_bin('and', self.bool_not(c), b)
                if b.const() == 1:
                    return self.bool_bin('or', self.bool_not(c), a)
            if a == b:
                return a
            if isinstance(a, V) and isinstance(b, V) and isinstance(c, V):
                l = Label(('sel', term(c), term(a), term(b)), a.w)
                return V(a.w, [x if x == y else (l, i) for i, (x, y) in enumerate(zip(a.b, b.b))])
            return join_val(a, b, ('sel', site))
        if op == 'extractvalue':
            a = self.val(ops[0], st)
            for i in I['idx']:
                a = a.f[i] if isinstance(a, A) and i < len(a.f) else None
            if a is None:
                return fresh_for(I['ty'], w or 0, ('ev', site))
            return a
        if op == 'insertvalue':
            a = self.val(ops[0], st)
            v = self.val(ops[1], st)
            i = I['idx'][0]
            f = list(a.f) if isinstance(a, A) else []
            while len(f) <= i:
                f.append(None)
            f[i] = v
            return A(f)
        if op == 'call':
            return self.do_call(I, st, ctx)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fneg', 'fpext', 'fptrunc'):
            t = (op,) + tuple(term(self.val(o, st)) for o in ops)
            return fresh_for(I['ty'], w or 0, t)
        if op == 'fcmp':
            t = ('fcmp', I['pred']) + tuple(term(self.val(o, st)) for o in ops)
            return lab(1, ('b', t))
        return fresh_for(I['ty'], w or 0, (op, site))

    def eq_by_facts(self, pred, a, b, st):
        for x, y in ((a, b), (b, a)):
            c = y.const()
            l = x.label()
            if c is not None and l is not None and l in st.facts:
                iv = st.facts[l]
                if not any(lo <= c <= hi for lo, hi in iv):
                    return pred == 'ne'
                if len(iv) == 1 and iv[0] == (c, c):
                    return pred == 'eq'
        return None

    def bool_not(self, c):
        l = c.label()
        if c.const() is not None:
            return const(1, 1 - c.const())
        if l is None:
            return lab(1, ('not', term(c)))
        if l.t[0] == 'not':
            inner = l.t[1]
            if isinstance(inner, Label):
                return V(1, [(inner, 0)])
            return lab(1, inner)
        return lab(1, ('not', l.t))

    def bool_bin(self, op, a, b):
        ca, cb = a.const(), b.const()
        if op == 'xor':
            if ca == 1: return self.bool_not(b)
            if cb == 1: return self.bool_not(a)
            if ca == 0: return b
            if cb == 0: return a
            return lab(1, ('xor', term(a), term(b)))
        if op == 'and':
            if ca == 0 or cb == 0: return const(1, 0)
            if ca == 1: return b
            if cb == 1: return a
        else:
            if ca == 1 or cb == 1: return const(1, 1)
            if ca == 0: return b
            if cb == 0: return a
        if a == b:
            return a
        return lab(1, (op, term(a), term(b)))

    def do_call(self, I, st, ctx):
        site = I['id']
        cd = I.get('cd', '')
        args = [self.val(o, st) for o in I['ops']]
        if I.get('intr'):
            n = I['callee']
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
                ln = args[2].const() if isinstance(args[2], V) else None
                if ln is None and isinstance(args[0], P):
                    self.havoc(st, args[0].o, ('mc', site))
                    self.callrec[(ctx, site)] = (I, args, st.copy())
                else:
                    self.memcpy(st, args[0], args[1], ln)
                return None
            if n.startswith('llvm.memset'):
                ln = args[2].const() if isinstance(args[2], V) else None
                c = args[1].const() if isinstance(args[1], V) else None
                if ln is not None and c is not None and isinstance(args[0], P) and isinstance(args[0].off, int):
                    for i in range(ln):
                        st.mem.setdefault(args[0].o, {})[args[0].off + i] = (
                            'b', tuple((c >> k) & 1 for k in range(8)))
                elif isinstance(args[0], P):
                    self.havoc(st, args[0].o, ('ms', site))
                return None
            if n.startswith('llvm.bswap') and isinstance(args[0], V):
                return bswap(args[0])
            if n[:9] in ('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax') and len(args) == 2 \
                    and all(isinstance(a, V) and a.const() is not None for a in args):
                f = min if n[6:9] == 'min' else max
                kk = (lambda x: x) if n[5] == 'u' else (lambda x: sgn(x, I['w']))
                return const(I['w'], f((a.const() for a in args), key=kk))
            if n[:10] in ('llvm.usub.', 'llvm.uadd.') and n[10:13] == 'sat' and \
                    all(isinstance(a, V) and a.const() is not None for a in args):
                x, y = (a.const() for a in args)
                return const(I['w'], max(0, x - y) if n[5:9] == 'usub' else min((1 << I['w']) - 1, x + y))
            if n.startswith('llvm.umax') or n.startswith('llvm.umin') or n.startswith('llvm.smax') or n.startswith('llvm.smin') or n.startswith('llvm.abs'):
                return lab(I['w'], (n.split('.')[1],) + tuple(sorted(map(term, args), key=tkey)))
            if n.startswith('llvm.fsh') and all(isinstance(a, V) for a in args):
                c = args[2].const()
                if c is not None:
                    w = I['w']
                    c %= w
                    if n.startswith('llvm.fshl'):
                        return V(w, (args[1].b + args[0].b)[w - c:2 * w - c]) if c else args[0]
                    return V(w, (args[1].b + args[0].b)[c:c + w])
            if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg') or n.startswith('llvm.assume'):
                return None
        if cd.startswith('__bswap_64') and isinstance(args[0], V):
            return bswap(args[0])
        if cd.startswith('__bswap_32') and isinstance(args[0], V):
            return bswap(args[0])
        self.callrec[(ctx, site)] = (I, args, st.copy())
        if self.model:
            r = self.model(self, I, cd, args, st, ctx)
            if r is not NotImplemented:
                return r
        if self.subs and self.subs(cd) and I.get('callee') in self.mod['by']:
            return self.follow(I, self.mod['by'][I['callee']], args, st)
        return self.default_call(I, cd, args, st)

    def follow(self, I, fn, args, st):
        """analyse the callee in the caller's state (context-sensitive)"""
        if self.level > 40:
            raise RuntimeError('absint: call depth in %s' % fn['d']) from None

        def init(it, s):
            s.mem = {o: dict(c) for o, c in st.mem.items()}
            s.ep = dict(st.ep)
            s.aux = dict(st.aux)
            s.facts = dict(st.facts)
        sub = Interp(fn, self.mod, model=self.model, partition=self.partition, decide=self.decide,
                     argvals=dict(enumerate(args)), maxiter=self.maxiter, maxctx=self.maxctx, pure=self.pure,
                     track=self.track, init=init, noreturn=self.noreturn, loadhook=self.loadhook,
                     unroll=self.unroll, level=self.level + 1, subs=self.subs, strict=self.strict).run()
        self.undecided += sub.undecided
        rv = None
        out = None
        for r, s in sub.rets.values():
            if out is None:
                rv, out = r, s
            else:
                rv, out = join_val(rv, r, ('sub', I['id'])), join_state(out, s, ('sub', I['id']))
        if out is None:
            self.dead = True
            return fresh_for(I['ty'], I.get('w') or 0, ('noret', I['id']))
        st.mem, st.ep, st.aux, st.facts = out.mem, out.ep, out.aux, out.facts
        return rv

    def default_call(self, I, cd, args, st):
        site = I['id']
        const_this = cd.rstrip().endswith(') const')
        ptypes = param_types(cd)
        nm = 0
        sret = I.get('sret')
        # versions of the pointees the callee may read
        reads = []
        for a in args:
            if isinstance(a, P):
                reads.append((a.o, a.off if isinstance(a.off, int) else 'v', st.ep.get(a.o, 0)))
                c = st.mem.get(a.o)
            else:
                reads.append(term(a))
        tag = ('call', cd, tuple(reads), site if not const_this else 0)
        # havoc
        idx = 0
        for i, a in enumerate(args):
            if i == 0 and sret:
                if isinstance(a, P):
                    self.havoc(st, a.o, ('out', cd, site)) if a.off == 0 else None
                continue
            if not isinstance(a, P):
                continue
            k = i - (1 if sret else 0)
            is_method = len([x for x in args]) - (1 if sret else 0) == len(ptypes) + 1 and member(cd)
            if is_method and k == 0:
                ro = const_this
            else:
                j = k - (1 if is_method else 0)
                pt = ptypes[j] if 0 <= j < len(ptypes) else ''
                ro = 'const&' in pt or 'const*' in pt or ('&' not in pt and '*' not in pt and pt != '')
            if not ro and a.o[0] not in ('g', 'null', 'fn'):
                sz = OBJ_SIZE(cd) if is_method and k == 0 else None
                if sz and isinstance(a.off, int):
                    self.clobber(st, a, sz, ('upd', cd, site))
                else:
                    self.havoc(st, a.o, ('upd', cd, site))
        if self.pure and self.pure(cd):
            tag = ('call', cd, tuple(reads), 0)
        self.tags.append(tag)
        return fresh_for(I['ty'], I.get('w') or 0, tag)

    # -- branch refinement ------------------------------------------------
    def refine(self, st, cond, pol):
        """refine interval facts from a condition value; returns None when
        the edge is infeasible"""
        if not isinstance(cond, V):
            return st
        c = cond.const()
        if c is not None:
            return st if bool(c) == pol else None
        l = cond.label()
        if l is None:
            return st
        for t, p in conj(l.t, pol):
            r = self.refine1(st, t, p)
            if r is None:
                return None
            st = r
        return st

    def refine1(self, st, t, pol):
        if t[0] == 'b':
            t = t[1]
        if t[0] in ('eq', 'ult') and len(t) == 3:
            for x, y, side in ((t[1], t[2], 0), (t[2], t[1], 1)):
                if isinstance(x, Label) and isinstance(y, tuple) and y[0] == 'c':
                    c = y[1]
                    full = ((0, (1 << x.w) - 1),)
                    if t[0] == 'eq':
                        s = ((c, c),)
                    elif side == 0:
                        s = ((0, c - 1),) if c > 0 else ()
                    else:
                        s = ((c + 1, full[0][1]),) if c < full[0][1] else ()
                    if not pol:
                        s = compl_iv(s, x.w)
                    old = st.facts.get(x, full)
                    new = inter_iv(old, s)
                    if not new:
                        return None
                    st = st.copy()
                    st.facts[x] = new
                    # (x + k) facts transfer to x when no wrap is possible
                    if isinstance(x.t, tuple) and x.t[0] == 'addc':
                        base = x.t[1]
                        bl = base if isinstance(base, Label) else None
                        if bl is not None and bl.w == x.w:
                            k = x.t[2]
                            m = (1 << x.w)
                            iv = []
                            for lo, hi in new:
                                a, b = (lo - k) % m, (hi - k) % m
                                if a <= b:
                                    iv.append((a, b))
                                else:
                                    iv += [(0, b), (a, m - 1)]
                            iv = union_iv(tuple(sorted(iv)), ())
                            o2 = st.facts.get(bl, ((0, m - 1),))
                            n2 = inter_iv(o2, iv)
                            if not n2:
                                return None
                            st.facts[bl] = n2
                    return st
        return st

    # -- fixpoint ---------------------------------------------------------
    def run(self):
        work = deque()
        st0 = State()
        if self.init:
            self.init(self, st0)
        self.instates[((), self.entry)] = {None: st0}
        work.append(((), self.entry))
        pending = {((), self.entry)}
        n = 0
        while work:
            # lowest block first: a cheap approximation of reverse postorder
            key = min(work, key=lambda x: (self.order[x[1]],)) if len(work) < 60 else work[0]
            work.remove(key)
            pending.discard(key)
            ctx, b = key
            n += 1
            if n > self.maxiter:
                raise RuntimeError('absint: no fixpoint in %s' % self.fn['d'])
            blk = self.blocks[b]
            ins = self.instates[key]
            st = None
            for pk in ins:
                s = ins[pk]
                st = s if st is None else join_state(st, s, (b,))
            st = st.copy()
            # phis first, in parallel; operands are read in the edge's own state
            newv = {}
            for I in blk['ins']:
                if I['op'] != 'phi':
                    break
                v = None
                got = False
                for pb, o in I['ops']:
                    for pk in [k for k in ins if k is not None and k[1] == pb]:
                        x = self.val(o, ins[pk], I.get('w'))
                        if x is None or (isinstance(x, P) and x.o == ('undef',)):
                            continue
                        v = x if not got else join_val(v, x, (I['id'],))
                        got = True
                if not got:
                    v = fresh_for(I['ty'], I.get('w') or 0, ('phi', I['id']))
                old = self.ivals.get((ctx, I['id']))
                if old is not None and old != v:
                    v = join_val(old, v, (I['id'],))
                newv[I['id']] = v
            for k, v in newv.items():
                self.ivals[(ctx, k)] = v
                st.v[k] = v
                l = v.label() if isinstance(v, V) else None
                if l is not None and isinstance(l.t, tuple) and l.t[0] == 'phi' and l in st.facts:
                    st.facts.pop(l)
            succs = []
            self.tags = []
            for I in blk['ins']:
                op = I['op']
                if op == 'phi':
                    continue
                if op in ('br', 'switch', 'ret', 'unreachable', 'indirectbr', 'resume'):
                    succs = self.terminator(I, st, ctx, b)
                    break
                v = self.step_inst(I, st, ctx)
                if op != 'store' and (I['ty'] != 'void'):
                    if v is None:
                        v = fresh_for(I['ty'], I.get('w') or 0, ('unk', I['id']))
                    self.ivals[(ctx, I['id'])] = v
                    st.v[I['id']] = v
                if op == 'call' and (I.get('cd') or I.get('callee', '')) in self.noreturn:
                    succs = []
                    break
            self.outstates[key] = st
            tags = list(self.tags)
            for sb, s2, lits in succs:
                c2 = self.next_ctx(ctx, b, sb, s2, lits, tags)
                if c2 is None:
                    continue
                k2 = (c2, sb)
                self.edges[key].add(k2)
                d = self.instates.setdefault(k2, {})
                if len(self.instates) > self.maxctx * len(self.blocks) + 50:
                    raise RuntimeError('absint: too many contexts in %s' % self.fn['d'])
                self.ctxs_of[sb].add(c2)
                if key not in d or not (d[key] == s2):
                    d[key] = s2
                    if k2 not in pending:
                        pending.add(k2)
                        work.append(k2)
        self.iters = n
        return self

    def lits(self, c, pol):
        """literals (term, polarity) implied by condition value c being pol"""
        if not isinstance(c, V):
            return ()
        l = c.label()
        if l is None:
            return ()
        return tuple(conj(l.t, pol))

    def known(self, ctx, c):
        """truth of condition c under the tracked predicates of ctx"""
        if not self.track or not isinstance(c, V):
            return None
        l = c.label()
        if l is None:
            return None
        return self.known_t(ctx, l.t)

    def known_t(self, ctx, t):
        while isinstance(t, Label):
            t = t.t
        if t[0] == 'b':
            return self.known_t(ctx, t[1])
        for e in ctx:
            if e[0] == '?' and e[1] == t:
                return e[2]
        if t[0] == 'not':
            r = self.known_t(ctx, t[1])
            return None if r is None else not r
        if t[0] in ('and', 'or'):
            a, b = self.known_t(ctx, t[1]), self.known_t(ctx, t[2])
            if t[0] == 'and':
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        return None

    def undec(self, I, c):
        self.undecided.append((I, c))
        if self.strict:
            raise Undecided('%s: %s' % (self.fn['d'].split('(')[0][:60], str(c)[:160]), I)

    def terminator(self, I, st, ctx, b):
        op = I['op']
        if op == 'br':
            if 'cond' not in I:
                return [(I['succ'][0], st, ())]
            c = self.val(I['cond'], st, 1)
            self.conds[(ctx, b)] = c
            if isinstance(c, V) and c.const() is None:
                d = self.known(ctx, c)
                if d is None and self.decide:
                    d = self.decide(self, c, st, I)
                if d is not None:
                    return [(I['succ'][0 if d else 1], st, ())]
                self.undec(I, c)
            out = []
            for s, pol in zip(I['succ'], (True, False)):
                r = self.refine(st, c, pol)
                if r is not None:
                    out.append((s, r, self.lits(c, pol)))
            return out
        if op == 'switch':
            c = self.val(I['cond'], st)
            self.conds[(ctx, b)] = c
            if isinstance(c, V) and c.const() is not None:
                for cv, t in I['cases']:
                    if int(cv) == c.const():
                        return [(t, st, ())]
                return [(I['default'], st, ())]
            if self.decide:
                d = self.decide(self, c, st, I)
                if d is not None:
                    for cv, t in I['cases']:
                        if int(cv) == d:
                            return [(t, st, ())]
                    return [(I['default'], st, ())]
            self.undec(I, c)
            out = {}
            rest = st
            rlits = ()
            for cv, t in I['cases']:
                x = const(c.w, int(cv))
                r = icmp('eq', c, x)
                if r is False:
                    continue
                tm, pol = self.cmp_term('eq', c, x)
                k = self.known_t(ctx, tm) if self.track else None
                s2 = self.refine1(st, tm, pol)
                if s2 is not None and k in (None, pol):
                    out.setdefault(t, []).append((s2, tuple(conj(tm, pol))))
                if rest is not None:
                    rest = self.refine1(rest, tm, not pol) if k in (None, not pol) else None
                rlits += tuple(conj(tm, not pol))
            if rest is not None:
                out.setdefault(I['default'], []).append((rest, rlits if c.w == 1 or len(rlits) <= 2 else ()))
            res = []
            for t, ss in out.items():
                s = ss[0][0]
                for x, _ in ss[1:]:
                    s = join_state(s, x, (t,))
                res.append((t, s, ss[0][1] if len(ss) == 1 else ()))
            return res
        if op == 'ret':
            ops = I.get('ops', [])
            self.rets[(ctx, b)] = (self.val(ops[0], st) if ops else None, st)
        return []

    def next_ctx(self, ctx, b, sb, st, lits, tags):
        blk = self.blocks[sb]
        preds = tuple(e for e in ctx if e[0] == '?')
        loops = tuple(e for e in ctx if e[0] != '?')
        if self.track:
            if tags:
                preds = tuple(e for e in preds if not any(mentions(e[1], t) for t in tags))
            for t, pol in lits:
                if self.track is not True and not self.track(t):
                    continue
                r = self.known_t(preds, t)
                if r is not None:
                    if r != pol:
                        return None
                    continue
                preds = preds + (('?', t, pol),)
            preds = tuple(sorted(preds, key=lambda e: (Label(('pred', e[1]), 1).k, e[2])))
        if not self.partition:
            return preds
        if not blk.get('header'):
            d = blk['depth']
            return tuple(c for c in loops if c[1] <= d) + preds
        # header: new context from constant phi values on this edge
        outer = tuple(c for c in loops if c[1] < blk['depth'])
        if self.unroll:
            k = [c[2] for c in loops if c[0] == sb]
            return outer + ((sb, blk['depth'], k[0] + 1 if k else 0),) + preds
        vals = []
        for I in blk['ins']:
            if I['op'] != 'phi':
                continue
            for pb, o in I['ops']:
                if pb == b:
                    v = self.val(o, st, I.get('w'))
                    if isinstance(v, V):
                        k = v.const()
                        if k is not None:
                            vals.append((I['id'], k))
        return outer + ((sb, blk['depth'], tuple(vals)),) + preds

    # -- queries ----------------------------------------------------------
    def reached(self):
        return set(self.instates)

    def calls(self, pred):
        """[(key, inst, args, state)] in block order"""
        pos = {}
        for b in self.fn['blocks']:
            for i, I in enumerate(b['ins']):
                pos[I['id']] = (b['id'], i)
        out = []
        for (ctx, site), (I, args, st) in self.callrec.items():
            if pred(I.get('cd', '') or I.get('callee', '')):
                bid = pos[site][0]
                if (ctx, bid) in self.outstates:
                    out.append(((ctx, bid), I, args, st, pos[site][1]))
        out.sort(key=lambda x: (repr(x[0][0]), self.order[x[0][1]], x[4]))
        return out


def walk(fn, mod, **kw):
    """run the interpreter, one iteration of a loop at a time where the loops
    are bounded; loops that are not are joined"""
    if any(b.get('header') for b in fn['blocks']) and not kw.get('unroll'):
        try:
            k2 = dict(kw)
            k2.update(partition=True, unroll=True, maxctx=min(kw.get("maxctx", 72), 72))
            return Interp(fn, mod, **k2).run()
        except RuntimeError:
            pass
    return Interp(fn, mod, **kw).run()


def OBJ_SIZE(cd):
    """size of the standard library object a method works on"""
    h = cd
    if h.startswith('std::__cxx11::basic_string<'):
        return 32
    if h.startswith('std::vector<'):
        return 40 if h.startswith('std::vector<bool') else 24
    if h.startswith('std::allocator<') or h.startswith('std::__new_allocator<'):
        return 1
    return None


def mentions(t, x, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, Label):
        if t.k in seen:
            return False
        seen.add(t.k)
        return mentions(t.t, x, seen)
    if isinstance(t, P):
        return mentions(t.o, x, seen) or mentions(t.off, x, seen)
    if isinstance(t, V):
        return any(mentions(l, x, seen) for l in {b[0] for b in t.b if isinstance(b, tuple)})
    if isinstance(t, tuple):
        if t == x:
            return True
        return any(mentions(y, x, seen) for y in t if isinstance(y, (tuple, Label, P, V)))
    return False


def tkey(t):
    if isinstance(t, Label):
        return (1, t.k)
    if isinstance(t, tuple):
        if t[0] == 'c':
            return (0, t[1])
        return (2, Label(t, 0).k)
    return (3, Label(('any', t), 0).k)


def bswap(v):
    n = v.w // 8
    out = []
    for i in range(n):
        j = n - 1 - i
        out += v.b[j * 8:j * 8 + 8]
    return V(v.w, out)


def conj(t, pol):
    """decompose a condition into literals that must hold"""
    while isinstance(t, Label):
        t = t.t
    if t[0] == 'b':
        yield from conj(t[1], pol)
    elif t[0] == 'not':
        yield from conj(t[1], not pol)
    elif t[0] == 'and' and pol:
        yield from conj(t[1], True)
        yield from conj(t[2], True)
    elif t[0] == 'or' and not pol:
        yield from conj(t[1], False)
        yield from conj(t[2], False)
    else:
        yield (t, pol)


NAMESPACES = {'ron', 'std', 'rocksdb', 'Botan', '__gnu_cxx', '__cxx11', '__detail', '__1', 'chrono'}


def member(cd):
    """is the function a class member (by its qualified name)?"""
    depth = 0
    name = ''
    for ch in cd:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            if ch == '(':
                break
            name = '' if ch == ' ' and not name.endswith('operator') else name + ch
    qs = name.split('::')[:-1]
    return any(q not in NAMESPACES for q in qs)


def param_types(cd):
    """parameter types of a demangled name"""
    s = cd.rstrip()
    if s.endswith(' const'):
        s = s[:-6]
    if not s.endswith(')'):
        return []
    depth = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ')':
            depth += 1
        elif s[i] == '(':
            depth -= 1
            if depth == 0:
                break
    inner = s[i + 1:-1]
    out = []
    d = 0
    cur = ''
    for ch in inner:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
