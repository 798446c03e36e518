"""Tabulation of an extracted value expression over a finite domain of its only
unknown: two formulas are the same function exactly when the tables agree.
The expression comes from the analyser; no code of the project runs."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np
import absint as ai


class NoTab(Exception):
    pass


def mask(w):
    return np.uint64((1 << w) - 1)


def value(v, env):
    """v: V / Label / ('c', n) / bool; env: {label: uint64 array}"""
    if isinstance(v, ai.V):
        n = v.const()
        if n is not None:
            return np.uint64(n)
        r = np.uint64(0)
        i = 0
        while i < v.w:
            b = v.b[i]
            if b == 0 or b == 1:
                r = r | np.uint64(b << i)
                i += 1
                continue
            if not isinstance(b, tuple):
                raise NoTab(b)
            l, s = b
            n = 1
            while i + n < v.w and v.b[i + n] == (l, s + n):
                n += 1
            x = value(l, env)
            r = r | (((x >> np.uint64(s)) & mask(n)) << np.uint64(i))
            i += n
        return r
    if isinstance(v, ai.Label):
        if v in env:
            return env[v]
        r = term(v.t, v.w, env)
        if not isinstance(r, np.ndarray) or r.dtype == bool:
            r = np.asarray(r).astype(np.uint64)
        r = r & mask(v.w)
        env[v] = r
        return r
    if isinstance(v, tuple) and v and v[0] == 'c':
        return np.uint64(v[1])
    if isinstance(v, bool):
        return np.uint64(v)
    if isinstance(v, tuple):
        return np.asarray(term(v, 1, env)).astype(np.uint64)
    raise NoTab(v)


def width(x):
    return x.w if isinstance(x, (ai.V, ai.Label)) else None


def sx(x, w):
    sh = np.uint64(64 - w)
    return (x << sh).astype(np.int64) >> np.int64(64 - w)


def term(t, w, env):
    h = t[0]
    if h == 'b':
        return term(t[1], w, env) if isinstance(t[1], tuple) else value(t[1], env)
    if h == 'not':
        return np.asarray(value(t[1], env)).astype(np.uint64) ^ np.uint64(1)
    if h == 'addc':
        return value(t[1], env) + np.uint64(t[2] % (1 << 64))
    if h in ('add', 'mul', 'and', 'or', 'xor', 'sub', 'shl', 'lshr', 'udiv', 'urem', 'eq', 'ult'):
        a, b = value(t[1], env), value(t[2], env)
        if h == 'add': return a + b
        if h == 'sub': return a - b
        if h == 'mul': return a * b
        if h == 'and': return a & b
        if h == 'or': return a | b
        if h == 'xor': return a ^ b
        if h == 'shl': return np.where(b < 64, a << np.minimum(b, np.uint64(63)), np.uint64(0))
        if h == 'lshr': return np.where(b < 64, a >> np.minimum(b, np.uint64(63)), np.uint64(0))
        if h == 'udiv': return a // b
        if h == 'urem': return a % b
        if h == 'eq': return a == b
        if h == 'ult': return a < b
    if h == 'slt':
        ws = [x for x in (width(t[1]), width(t[2])) if x]
        return sx(value(t[1], env), max(ws)) < sx(value(t[2], env), max(ws))
    if h == 'sel':
        return np.where(np.asarray(value(t[1], env)) != 0, value(t[2], env), value(t[3], env))
    raise NoTab(t)


def table(v, lab, dom):
    with np.errstate(over='ignore'):
        dom = np.asarray(dom, dtype=np.uint64)
        return np.broadcast_to(np.asarray(value(v, {lab: dom})), dom.shape)


def same(v, lab, dom, want):
    """first domain value where the expression differs from want, or None"""
    dom = np.asarray(dom, dtype=np.uint64)
    try:
        with np.errstate(over='ignore'):
            got = table(v, lab, dom)
            w = np.broadcast_to(np.asarray(want(dom), dtype=np.uint64), dom.shape)
    except NoTab as e:
        return ('?', repr(e)[:200])
    bad = np.nonzero(got != w)[0]
    if len(bad):
        i = bad[0]
        return ('%#x' % int(dom[i]), 'gives %#x, want %#x' % (int(got[i]), int(w[i])))
    return None


def leaves(t, out=None, seen=None):
    """labels of a term that are not built from other labels"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(t, ai.V):
        for b in t.b:
            if isinstance(b, tuple):
                leaves(b[0], out, seen)
    elif isinstance(t, ai.Label):
        if t.k in seen:
            return out
        seen.add(t.k)
        if t.t[0] in OPS:
            leaves(t.t, out, seen)
        else:
            out.add(t)
    elif isinstance(t, tuple) and t and t[0] in OPS:
        for x in t[1:]:
            if isinstance(x, (ai.V, ai.Label, tuple)):
                leaves(x, out, seen)
    return out


OPS = {'b', 'not', 'addc', 'add', 'mul', 'and', 'or', 'xor', 'sub', 'shl', 'lshr', 'udiv', 'urem', 'eq', 'ult', 'slt',
       'sel'}


def refute(it, env, want, ret=None):
    """assignments (arrays in env) on which an exit the function takes gives
    something else than want: the first one as text; None when all agree;
    NoTab when a condition or value is not an expression over env"""
    n = max(len(x) for x in env.values())
    want = np.broadcast_to(np.asarray(want, dtype=np.uint64), (n,))
    cov = np.zeros(n, dtype=bool)
    with np.errstate(over='ignore'):
        for (ctx, b), (rv, st) in it.rets.items():
            m = np.ones(n, dtype=bool)
            for e in ctx:
                if e[0] == '?':
                    x = np.broadcast_to(np.asarray(value(e[1], dict(env))), (n,)) != 0
                    m &= x == e[2]
            if not m.any():
                continue
            r = ret(rv, st) if ret else rv
            got = np.broadcast_to(np.asarray(value(r, dict(env))).astype(np.uint64), (n,))
            bad = np.nonzero(m & (got != want))[0]
            cov |= m
            if len(bad):
                i = bad[0]
                return '%s gives %#x, want %#x' % ({repr(l): '%#x' % int(v[i]) for l, v in env.items()}, int(got[i]),
                                                  int(want[i]))
    if not cov.all():
        raise NoTab('exits do not cover the assignments')
    return None


def edges(w, *more):
    """values where unsigned, signed, field and bit boundaries show"""
    s = {0, 1, (1 << w) - 1}
    for k in list(range(w)) + []:
        for d in (-1, 0, 1):
            s.add(((1 << k) + d) % (1 << w))
            s.add(((1 << w) - (1 << k) + d) % (1 << w))
    for m in more:
        s.add(m)
        for k in range(w):
            s.add(m ^ (1 << k))
            s.add(m & ((1 << k) - 1))
            s.add(m >> k << k)
    return np.array(sorted(s), dtype=np.uint64)
