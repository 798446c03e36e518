"""Merging: each reducer's output is a function of the set of ops."""
import itertools
import absint as ai
import vlib
import strs
import world
from vlib import argobj
from world import Op, World, RAW, REDUCED

MINOBS = 2800
H = vlib.VERIF + '/harness/P13.cc'
INLINE = ['^ron::', '^std::pair', 'std::forward', 'std::move', 'std::operator[<>!=]', '^std::vector<', '^std::_Vector',
          'gnu_cxx::', 'std::swap', 'std::min_element', 'std::__min', '^std::', 'bool __gnu', '^__gnu', 'decltype',
          'std::remove_ref']
KEEP = ['operator[<>=!]+<char', 'ReadString', 'basic_string', 'push_back', 'emplace_back', '_M_realloc', 'Cursor::Next\\(', 'AppendOp', 'EndChunk',
        'Status::comment', 'MergeCursor<', 'uuid2form', 'vector<ron::Atom', 'Builder::Release']
OUT, IN, RET = argobj(0), argobj(2), argobj(3)


def module(c):
    m = c.ir([H], ['^h_', 'MergeCursor<', '_GLOBAL__sub_I_P13'], inline=INLINE + ['^__cxx_global'], keep=KEEP)
    world.GLOBALS = vlib.static_init(m, 'sub_I', model=strs.model).mem
    return m


def subs(cd):
    return 'MergeCursor<' in cd.split('(')[0] or cd.startswith('ron::MergeCursor<')


def run(c, m, fn, form, w, ks):
    def init(it, st):
        w.init(it, st)
        w.cursors(it, st, ai.P(IN, 0), ks)
    try:
        it = ai.Interp(c.fn(m, fn), m, model=w.model, init=init, decide=w.decide, partition=True, unroll=True, subs=subs,
                       loadhook=strs.hook, argvals={1: ai.const(8, form)}, maxctx=4000, maxiter=60000, strict=True).run()
    except ai.Undecided as e:
        raise vlib.Broken('%s cannot be decided at %s' % (e.args[0], vlib.where(e.args[1])))
    c.need(len(it.rets) == 1, '%s: %d exits' % (fn, len(it.rets)))
    (rv, st), = it.rets.values()
    return it, st



def tr(t):
    return ' '.join(x[1] if x[0] == 'op' else '/%s' % (x[1],) for x in t)


JOBS = []     # (title, form, frames, ids, variant, extra, want trace or predicate, want code, loc)


def job(title, form, frames, ids, var, want, code, loc, consts=None, setup=None, opsonly=False):
    JOBS.append((title, form, frames, ids, var, want, code, loc, consts, setup, opsonly))


def play(i):
    title, form, frames, ids, var, want, code, loc, consts, setup, opsonly = JOBS[i]
    w = World(frames, ids, var, consts=consts)
    if setup:
        setup(w)
    it, st = run(C, M, '^h_merge$', form, w, list(range(len(frames))))
    t = list(w.trace(st, ai.P(OUT, 0)))
    if opsonly:
        t = [x for x in t if x[0] == 'op']
    got = w.code(it, st, ai.P(RET, 0))
    if w.bad:
        return False, w.bad
    return t == list(want) and got == code, 'got [%s] %s, want [%s] %s' % (tr(t), got, tr(want), code)


def sorted_forms():
    """LWW, YARN, MX, META: the sorted duplicate-free union"""
    for form, name in ((13, 'lww'), (1, 'yarn'), (15, 'mx'), (8, 'meta')):
        for ids, sets in scenarios(full=(form == 13)):
            for var in 'ABC':
                want = [('op', x) for x in sorted(set(''.join(sets)))]
                job('%s merge of %s (ids ordered by %s)' % (name, ' + '.join(sets) or 'nothing', VAR[var]), form,
                    [[Op(x) for x in s] for s in sets], ids, var, want, 'OK', 'rdt/merge.hpp', opsonly=True)


VAR = {'A': 'value', 'B': 'origin, values equal', 'C': 'value, origins equal'}


def scenarios(full):
    """ways to spread and repeat ops over sorted inputs"""
    out = []
    ids = 'abcde'
    two = [''.join(x) for r in range(1, 4) for x in itertools.combinations('abc', r)]
    for a in two:
        out.append(('abc', [a]))
        for b in two:
            if full or len(a) + len(b) <= 4:
                out.append(('abc', [a, b]))
    # every input sequence of three/four/five one-op replicas: each insertion order of the heap
    for k in (3, 4, 5) if full else (3,):
        for p in itertools.permutations(ids[:k]):
            out.append((ids[:k], list(p)))
    if full:
        for p in itertools.product('ab', repeat=4):
            out.append(('ab', list(p)))
        for p in itertools.product('abc', repeat=3):
            if len(set(p)) < 3:
                out.append(('abc', list(p)))
        for s in (['abc', 'abc', 'abc'], ['ae', 'bd', 'c'], ['cde', 'abe', 'bd'], ['a', 'ab', 'abc', 'abcd', 'abcde'],
                  ['abcde', 'abcd', 'abc', 'ab', 'a'], ['e', 'de', 'cde', 'bcde', 'abcde'], ['ad', 'be', 'cf', 'abcdef'],
                  ['bdf', 'ace', 'cdf', 'abe', 'f'], ['abc', 'a', 'a', 'b', 'b', 'c', 'c']):
            for perm in ([s, s[::-1], s[1:] + s[:1]]):
                out.append((''.join(sorted(set(''.join(s)))), perm))
    out.append(('a', []))
    return out



# ---- causal trees -----------------------------------------------------------
def trees(n):
    for ps in itertools.product(*[range(i) for i in range(1, n)]):
        yield (None,) + ps


def dfs(par, sub, root):
    """children newest first"""
    out = [root]
    for ch in sorted((i for i in sub if par[i] == root), reverse=True):
        out += dfs(par, sub, ch)
    return out


def closed(par, n):
    for r in range(1, n + 1):
        for s in itertools.combinations(range(n), r):
            if all(par[i] is None or par[i] in s for i in s):
                yield s


def pieces(par, n):
    """subtrees (connected sets) not containing the root"""
    for r in range(1, n):
        for s in itertools.combinations(range(1, n), r):
            roots = [i for i in s if par[i] not in s]
            if len(roots) == 1:
                yield roots[0], s


def rga():
    N = 'abcde'
    RGA = (world.base64name('rga'), 0)

    def frame(par, order):
        return [Op(N[i], 'R' if par[i] is None else N[par[i]]) for i in order]

    def one(par, nn, orders, want, code, var, what):
        show = ' + '.join(''.join(N[i] for i in o) for o in orders) + ' of tree ' + \
            ' '.join('%s<%s' % (N[i], N[p]) for i, p in enumerate(par) if p is not None)
        job('rga %s %s (%s)' % (what, show, VAR[var]), 14, [frame(par, o) for o in orders], N[:nn], var,
            [('op', N[i]) for i in want] + [('end', RAW)], code, 'rdt/rga.hpp', consts={'R': RGA})
    for nn, vs in ((1, 'ABC'), (2, 'ABC'), (3, 'ABC'), (4, 'A')):
        for par in trees(nn):
            full = dfs(par, range(nn), 0)
            subs_ = list(closed(par, nn))
            for var in vs:
                for s in subs_:
                    for t in subs_:
                        u = set(s) | set(t)
                        if nn == 4 and len(u) < 4:
                            continue
                        one(par, nn, [dfs(par, s, 0), dfs(par, t, 0)], dfs(par, u, 0), 'OK', var, 'states')
                one(par, nn, [full], full, 'OK', var, 'one state')
                if nn in (3, 4):
                    for root, piece in pieces(par, nn):
                        po = dfs(par, piece, root)
                        for s in subs_:
                            u = set(s) | set(piece)
                            if nn == 4 and len(u) < 4:
                                continue
                            if par[root] in s:
                                one(par, nn, [dfs(par, s, 0), po], dfs(par, u, 0), 'OK', var, 'state and patch')
                                if var == 'A':
                                    one(par, nn, [po, dfs(par, s, 0)], dfs(par, u, 0), 'OK', var, 'patch and state')
                            else:
                                one(par, nn, [dfs(par, s, 0), po], dfs(par, s, 0), 'CAUSEBREAK', var, 'state and stray patch')
    for par in trees(4):
        # three inputs: the root alone, and two pieces
        for (r1, p1), (r2, p2) in itertools.combinations(list(pieces(par, 4)), 2):
            u = {0} | set(p1) | set(p2)
            at = {0}
            todo = [(r1, p1), (r2, p2)]
            go = True
            while go:
                go = False
                for r, p in list(todo):
                    if par[r] in at:
                        at |= set(p)
                        todo.remove((r, p))
                        go = True
            code = 'CAUSEBREAK' if todo else 'OK'
            ins = [[0], dfs(par, p1, r1), dfs(par, p2, r2)]
            for rot in range(3):
                one(par, 4, ins[rot:] + ins[:rot], dfs(par, at, 0), code, 'A', 'three inputs')
    # patches only: the earliest root starts, the others must attach to it
    for nn, vs in ((3, 'ABC'), (4, 'A')):
        for par in trees(nn):
            ps = list(pieces(par, nn))
            for (r1, p1), (r2, p2) in itertools.product(ps, repeat=2):
                if nn == 4 and len(set(p1) | set(p2)) < 3:
                    continue
                (ra, pa), (rb, pb) = sorted([(r1, p1), (r2, p2)])
                joins = ra == rb or par[rb] in pa
                at = set(pa) | set(pb) if joins else set(pa)
                for var in vs:
                    one(par, nn, [dfs(par, p1, r1), dfs(par, p2, r2)], dfs(par, at, ra), 'OK' if joins else 'CAUSEBREAK', var,
                        'patches')
    full = (None, 0, 0)
    one(full, 3, [[0, 2, 1]] * 3, [0, 2, 1], 'OK', 'A', 'the same state thrice')
    one((None,), 1, [], [], 'OK', 'A', 'no input')
    for k in (4, 5):
        job('rga merge of %d inputs' % k, 14, [frame(full, [0, 2, 1])] * k, N[:3], 'A', [], 'NOT_IMPLEMENTED', 'rdt/rga.hpp',
            consts={'R': RGA})


# ---- plain forms ----------------------------------------------------------------
def plain():
    def one(form, name, frames, want, code):
        job('%s of %s' % (name, frames), form, frames, 'abcdefgh', 'A', want, code, 'rdt/rdt.hpp')
    A = [Op('c', term=world.HEADER), Op('b'), Op('a', term=RAW)]
    B = [Op('d', term=world.QUERY), Op('b', term=RAW)]
    C = [Op('a')]

    def flat(*fs):
        out = []
        for f in fs:
            for o in f:
                out.append(('op', o.name))
                if o.term != REDUCED:
                    out.append(('end', o.term))
        return out
    for fs in ([], [A], [A, B], [B, A], [C, C], [A, B, C], [C, A, A, B]):
        one(2, 'log merge (concatenation)', fs, flat(*fs), 'OK')
        for form, name in ((0, 'unnamed merge (the last input wins)'), (255, 'error merge (the last input wins)')):
            one(form, name, fs, flat(*fs[-1:]), 'OK')
    for form in range(256):
        if form in (0, 1, 2, 8, 13, 14, 15, 19, 255):
            continue
        one(form, 'merge of a form with no reducer (%d)' % form, [A, B], [], 'NOT_IMPLEMENTED')


# ---- the greatest value -------------------------------------------------------
UUID, INT, STRING, FLOAT = range(4)


class Val:
    """a value atom: type and rank among the values of its type"""

    def __init__(self, ty, rank):
        self.ty, self.rank = ty, rank

    def raw(self):
        return 7 + [1, 0, 3, 2][self.rank] | self.ty << 62

    def parsed(self):
        if self.ty == STRING:
            return 'text%d' % self.rank
        l = ai.Label(('in', 'pay.v%d%d' % (self.ty, self.rank)), 64)
        return ai.V(64, [(l, i) for i in range(64)])

    def atom(self):
        n = 'v%d%d' % (self.ty, self.rank)
        if self.ty == UUID:
            v, o = world.half('v', n)[0], world.half('o', n)[0]
        else:   # unparsed: a range in the frame's text
            v = ai.const(64, [4, 3, 1, 2][self.rank] << 32 if self.ty == STRING else 0)   # a string's length
            o = ai.const(64, self.raw())
        return v, o


def valsetup(w):
    for r in range(4):
        w.order.rank[ai.Label(('in', 'pay.v1%d' % r), 64)] = 1000 + [2, 3, 0, 1][r]  # signed order: 2,3 are negative
        w.order.rank[ai.Label(('in', 'pay.v3%d' % r), 64)] = 2000 + [3, 2, 0, 1][r]  # the bits of -2., -1., 1., 2.
        w.order.rank[world.half('v', 'v0%d' % r)[1]] = 500 + r // 2
        w.order.rank[world.half('o', 'v0%d' % r)[1]] = 500 + [1, 0, 2, 3][r] % 4

    def fcmp(od, t):
        if t[0] == 'fcmp':
            def rk(x):
                l = x.label() if isinstance(x, ai.V) else x
                return l.t[1] if isinstance(l, ai.Label) and l.t[0] == 'in' else None
            a, b = rk(t[2]), rk(t[3])
            if a is None or b is None:
                return None
            p = t[1][1:] if t[1] not in ('ord', 'uno') else t[1]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'ord': True,
                    'uno': False}[p]
        return None
    w.order.extra = fcmp
    w.order.big = 1 << 40    # a world where UUID value words are above the lengths of strings
    w.order.signbit = 1002   # for the integers
    for ty in (INT, STRING, FLOAT):
        for r in range(4):
            w.payload[(ty, Val(ty, r).raw())] = Val(ty, r).parsed()


# signed ranks: with signbit=1002 the raw (unsigned) order of INT labels is 1002,1003 above 1000,1001
INTORD = {0: 2, 1: 3, 2: 0, 3: 1}
INTVAL = {0: -2, 1: -1, 2: 1, 3: 2}


def maxkey(op, ids):
    ty, r = op.val.ty, op.val.rank
    if ty == INT:
        v = INTVAL[r]
    elif ty == UUID:
        v = (r // 2, [1, 0, 2, 3][r])
    else:
        v = r
    return (ty, v, ids.index(op.name))


def maxi():
    R = (world.base64name('max'), 0)
    ids = 'habc'

    def op(n, ty, r):
        o = Op(n, 'h', atoms=[Val(ty, r).atom()])
        o.val = Val(ty, r)
        return o
    h = Op('h', 'R')

    def one(frames):
        vals = [o for f in frames for o in f if o is not h]
        want = [('op', 'h')]
        if vals:
            want.append(('op', max(vals, key=lambda o: maxkey(o, ids)).name))
        want.append(('end', RAW))
        for var in 'AC':
            job('max merge of %s (%s)' % (' + '.join('[%s]' % ' '.join(
                o.name if o is h else '%s=%s%d' % (o.name, ('uuid', 'int', 'str', 'float')[o.val.ty], o.val.rank)
                for o in f) for f in frames), VAR[var]), 19, frames, ids, var, want, 'OK', 'rdt/max.hpp',
                consts={'R': R}, setup=valsetup)
    one([[h]])
    one([[h], [h]])
    tys = [(t, r) for t in range(4) for r in range(4)]
    for x in tys:
        for y in tys:
            if x[0] != y[0] and (x[1] > 1 or y[1] > 1):
                continue
            a, b = op('a', *x), op('b', *y)
            one([[h, a], [b]])
            one([[h, b], [a]])
            if x[0] == y[0]:
                one([[h, a], [h, b]])
                one([[h], [b], [a]])
                one([[h, a, b]])
                one([[h, b], [h, a], [h]])
    for p in itertools.permutations([op('a', INT, 3), op('b', INT, 0), op('c', INT, 2)]):
        one([[h], [p[0]], [p[1]], [p[2]]])
        one([[h, p[0]], [p[1], p[2]]])


C = M = None


def check(c):
    global C, M
    m = module(c)
    C, M = c, m
    c.fn(m, '^h_merge$')
    sorted_forms()
    rga()
    plain()
    maxi()
    for i, ok, detail in vlib.pmap(lambda i: (i, *play(i)), [(i,) for i in range(len(JOBS))]):
        c.ob(JOBS[i][0], ok, detail, JOBS[i][7])
    c.rule('every reducer is walked over symbolic ops whose ids are known only by their order, for every listed way to '
           'spread and repeat them among the inputs; the appended ops are compared with the set the property names')
    c.paths += len(JOBS)
