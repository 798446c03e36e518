"""Integer linear forms with intervals: the value of an extracted expression as
c0 + sum of ci * digit, over digits of known ranges.  A form stands for its
value modulo 2^w; where its interval fits the width it is the value itself."""
import absint as ai


class NoForm(Exception):
    pass


class Form:
    def __init__(self, co, k):
        self.co = {a: n for a, n in co.items() if n}
        self.k = k

    def __add__(self, o):
        co = dict(self.co)
        for a, n in o.co.items():
            co[a] = co.get(a, 0) + n
        return Form(co, self.k + o.k)

    def times(self, n):
        return Form({a: x * n for a, x in self.co.items()}, self.k * n)

    def interval(self, facts):
        lo = hi = self.k
        for a, n in self.co.items():
            l, h = facts[a][0][0], facts[a][-1][1]
            lo += n * (l if n > 0 else h)
            hi += n * (h if n > 0 else l)
        return lo, hi

    def mod(self, w):
        m = 1 << w
        return frozenset((a, n % m) for a, n in self.co.items() if n % m), self.k % m


def fit(f, w, facts):
    """the form of the unsigned value, or None when it may wrap"""
    lo, hi = f.interval(facts)
    m = 1 << w
    if lo // m != hi // m:
        return None
    return f + Form({}, -(lo // m) * m)


def of(v, facts, memo=None):
    """the form of a V (modulo 2^w)"""
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    r, i = Form({}, 0), 0
    while i < v.w:
        b = v.b[i]
        if b in (0, 1):
            r, i = r + Form({}, b << i), i + 1
            continue
        if not isinstance(b, tuple):
            raise NoForm('unknown bits')
        l, s = b
        f = label(l, facts, memo)
        e = fit(f, l.w, facts)
        top = e.interval(facts)[1] if e is not None else (1 << l.w) - 1
        if top >> s == 0:      # bits above the value
            i += 1
            continue
        if s:
            raise NoForm('a part of a value')
        n = 1
        while i + n < v.w and v.b[i + n] == (l, n):
            n += 1
        if i + n < v.w and (e is None or top >> n):
            raise NoForm('a value cut short')
        r, i = r + (e if e is not None else f).times(1 << i), i + n
    memo[v] = r
    return r


def label(l, facts, memo):
    if l in memo:
        return memo[l]
    t = l.t
    h = t[0] if isinstance(t, tuple) else None
    if h == 'add':
        r = operand(t[1], facts, memo, l.w) + operand(t[2], facts, memo, l.w)
    elif h == 'addc':
        r = operand(t[1], facts, memo, l.w) + Form({}, t[2])
    elif h == 'sub':
        r = operand(t[1], facts, memo, l.w) + operand(t[2], facts, memo, l.w).times(-1)
    elif h == 'mul' and len(t) == 3:
        a, b = operand(t[1], facts, memo, l.w), operand(t[2], facts, memo, l.w)
        if a.co and b.co:
            raise NoForm('a product')
        r = b.times(a.k) if not a.co else a.times(b.k)
    elif h == 'xor' and any(x == ('c', (1 << l.w) - 1) for x in t[1:]):
        x = t[2] if t[1] == ('c', (1 << l.w) - 1) else t[1]
        r = operand(x, facts, memo, l.w).times(-1) + Form({}, -1)
    elif h == 'shl' and isinstance(t[2], tuple) and t[2][0] == 'c':
        r = operand(t[1], facts, memo, l.w).times(1 << t[2][1])
    elif l in facts and h in ('in', 'digit'):
        r = Form({l: 1}, 0)
    else:
        raise NoForm('%s' % (h,))
    memo[l] = r
    return r


def operand(x, facts, memo, w=None):
    """the form of an operand; a narrower one counts as extended with zeros"""
    if isinstance(x, (ai.V, ai.Label)):
        r = of(x, facts, memo) if isinstance(x, ai.V) else label(x, facts, memo)
        if w is not None and x.w < w:
            r = fit(r, x.w, facts)
            if r is None:
                raise NoForm('a value that may wrap')
        return r
    if isinstance(x, tuple) and x and x[0] == 'c':
        return Form({}, x[1])
    raise NoForm('%r' % (x,))


def width(x):
    return x.w if isinstance(x, (ai.V, ai.Label)) else None


def decide(it, c, st, I):
    """truth of a comparison of two forms, when their intervals settle it"""
    if not isinstance(c, ai.V) or c.w != 1 or not isinstance(c.b[0], tuple):
        return None
    t, pol = c.b[0][0].t, True
    while isinstance(t, tuple) and t and t[0] in ('not', 'b'):
        pol ^= t[0] == 'not'
        t = t[1]
        while isinstance(t, ai.Label):
            t = t.t
    if not isinstance(t, tuple) or len(t) != 3 or t[0] not in ('eq', 'ult', 'slt'):
        return None
    w = width(t[1]) or width(t[2])
    if w is None:
        return None
    try:
        memo = {}
        a, b = (fit(operand(x, st.facts, memo), w, st.facts) for x in t[1:])
    except (NoForm, KeyError):
        return None
    if a is None or b is None:
        return None
    if t[0] == 'slt':
        half = 1 << (w - 1)
        out = []
        for f in (a, b):
            lo, hi = f.interval(st.facts)
            if (lo >= half) != (hi >= half):
                return None
            out.append(f + Form({}, -2 * half) if lo >= half else f)
        a, b = out
    lo, hi = (a + b.times(-1)).interval(st.facts)
    if t[0] == 'eq':
        r = True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
    else:
        r = True if hi < 0 else False if lo >= 0 else None
    return None if r is None else r == pol
