"""Decision tables of functions that touch their operands only through
comparisons: the operands' relative order is one of finitely many weak
orderings, so the function's answer for every input is one row per ordering.
Each row is computed by the dataflow engine with every comparison resolved by
the ordering (predicate abstraction over order atoms); nothing is executed."""
import absint as ai


class Unknown(Exception):
    pass


def weak_orders(n):
    """all rank vectors of n items (total preorders), canonical"""
    out = []

    def go(i, cur):
        if i == n:
            out.append(tuple(cur))
            return
        for r in range(-1, i + 1):
            pass
    import itertools
    for v in itertools.product(range(n), repeat=n):
        if set(v) == set(range(max(v) + 1)):
            out.append(v)
    return out


class Order:
    """rank: {label or V: int}; consts: {int value: rank} for constants that
    take part in the order"""

    def __init__(self, rank, consts=None, signbit=None, extra=None):
        self.rank = rank
        self.consts = consts or {}
        self.signbit = signbit   # rank >= signbit means the top bit is set
        self.extra = extra       # callback for other terms
        self.used = set()
        self.big = None          # an assumed lower bound of the ranked words against unlisted constants

    def mixed(self, h, t):
        """a ranked word against a constant that is not in the order: decided
        by the constant bits of the word, or by the assumed lower bound"""
        k = [x[1] if isinstance(x, tuple) and x and x[0] == 'c' else None for x in t[1:3]]
        i = 0 if k[1] is not None and k[0] is None else 1 if k[0] is not None and k[1] is None else None
        if i is None or h == 'slt':
            raise Unknown(t)
        self.rk(t[1 + i])
        x, n = t[1 + i], k[1 - i]
        if isinstance(x, ai.V):
            lo = sum((b if b in (0, 1) else 0) << j for j, b in enumerate(x.b))
            hi = sum((b if b in (0, 1) else 1) << j for j, b in enumerate(x.b))
        else:
            lo, hi = 0, (1 << x.w) - 1
        if self.big is not None and lo == 0:
            lo = self.big
        if n < lo or n > hi:
            return False if h == 'eq' else (n > hi) == (i == 0)
        raise Unknown(t)

    def rk(self, t):
        if t in self.rank:
            return self.rank[t]
        if isinstance(t, tuple) and t and t[0] == 'c' and t[1] in self.consts:
            return self.consts[t[1]]
        if isinstance(t, ai.V):
            l = t.label()
            if l in self.rank:
                return self.rank[l]
        raise Unknown(t)

    def ev(self, t):
        while isinstance(t, ai.Label):
            if t in self.rank and t.w == 1:
                return bool(self.rank[t])
            t = t.t
        if t is True or t is False:
            return t
        h = t[0]
        if h == 'b':
            return self.ev(t[1])
        if h == 'c':
            return bool(t[1])
        if h == 'not':
            return not self.ev(t[1])
        if h == 'and':
            return self.ev(t[1]) and self.ev(t[2])
        if h == 'or':
            return self.ev(t[1]) or self.ev(t[2])
        if h == 'xor':
            return self.ev(t[1]) != self.ev(t[2])
        if h == 'sel':
            return self.ev(t[2]) if self.ev(t[1]) else self.ev(t[3])
        if self.extra:
            r = self.extra(self, t)
            if r is not None:
                return r
        if h in ('eq', 'ult', 'slt'):
            try:
                a, b = self.rk(t[1]), self.rk(t[2])
            except Unknown:
                return self.mixed(h, t)
            self.used.add((t[1], t[2]))
            if h == 'eq':
                return a == b
            if h == 'slt':
                if self.signbit is None:
                    raise Unknown(t)
                sa, sb = a >= self.signbit, b >= self.signbit
                return a < b if sa == sb else sa
            return a < b
        raise Unknown(t)

    def decide(self, it, c, st, I):
        if c.w != 1:
            return None
        try:
            return self.ev(c.b[0][0]) if isinstance(c.b[0], tuple) else None
        except Unknown:
            return None

    def value(self, v):
        if isinstance(v, ai.V):
            k = v.const()
            if k is not None:
                return k
            if v.w == 1 or all(b == 0 for b in v.b[1:]):
                b = v.b[0]
                if isinstance(b, tuple) and b[1] == 0:
                    return int(self.ev(b[0]))
        raise Unknown(v)
