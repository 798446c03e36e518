"""The stack of runs (ron/inc_stack.hpp) keeps what a stack keeps: one step of
each operation from a stack of up to nine runs whose values and lengths are
arbitrary."""
import itertools
import re
import absint as ai
import linear
import strs
import vecs
import vlib
from linear import Form

LEN = ((1, (1 << 31) - 1),)
KEEP = ['^([^,]* )?std::vector<inc_stack.*>>::(emplace_back|push_back|pop_back|insert|erase|resize|reserve|clear|~?vector|_M_[a-z_]*|operator=)(<.*)?$']
T = {'uuid': ('ron::Uuid', (8, 8)), 'int': ('unsigned int', (4,))}
_CM = {}       # code by operation and type
GEO = {}       # size of a run, where its length is, bytes of the length
S, V_, OUT = vlib.argobj(0), vlib.argobj(1), vlib.argobj(1)


class Fork(Exception):
    pass


def sym(name, w):
    return ai.Label(('in', name), w)


def whole(l):
    return ai.V(l.w, [(l, i) for i in range(l.w)])


class Play:
    """one operation on a given stack, forking on every comparison no interval settles"""
    def __init__(self, c, m, ty, fn, runs):
        self.c, self.m, self.ty, self.fn, self.runs = c, m, ty, fn, runs
        self.ws = T[ty][1]
        self.es, self.voff, self.lw = GEO[ty]
        self.facts = {}

    def item(self, name):
        out = []
        for j, n in enumerate(self.ws):
            l = sym('%s.%d' % (name, j), 8 * n)
            self.facts[l] = ((0, (1 << l.w) - 1),)
            out.append(whole(l))
        return out

    def store(self, it, st, p, vs):
        o = 0
        for v in vs:
            it.store(st, ai.P(p.o, p.off + o), v, v.w // 8)
            o += v.w // 8

    def load(self, it, st, p):
        out, o = [], 0
        for n in self.ws:
            out.append(it.load(st, ai.P(p.o, p.off + o), n, False, ('x',)))
            o += n
        return out

    def init(self, it, st):
        b = ai.P(('heap', 'runs'), 0)
        self.was = []
        for k, one in enumerate(self.runs):
            v = self.item('run%d' % k)
            if one:
                n = ai.const(8 * self.lw, int(one))
            else:
                l = sym('len%d' % k, 8 * self.lw)
                self.facts[l] = ((2, (1 << 31) - 1),)
                n = whole(l)
            self.was.append((v, n))
            self.store(it, st, ai.P(b.o, self.es * k), v)
            it.store(st, ai.P(b.o, self.es * k + self.voff), n, self.lw)
        if self.runs:
            vecs.put(it, st, ai.P(S, 0), b, ai.P(b.o, self.es * len(self.runs)))
        else:
            vecs.put(it, st, ai.P(S, 0), ai.NULL, ai.NULL)
        l = sym('size', 32)
        self.facts[l] = ((len(self.runs), (1 << 31) - 1),) if self.runs else ((0, 0),)
        self.size = whole(l) if self.runs else ai.const(32, 0)
        it.store(st, ai.P(S, 24), self.size, 4)
        self.new = self.item('new')
        self.store(it, st, ai.P(V_, 0), self.new)
        for l, f in self.facts.items():
            st.facts[l] = f

    def model(self, it, I, cd, args, st, ctx):
        h = cd.split('(')[0]
        if '::span_t' in h and vecs.member(cd) == 'emplace_back' or '::span_t' in h and vecs.member(cd) == 'push_back':
            v = args[0]
            b, n = vecs.span(it, st, v)
            if n is None:
                return NotImplemented
            o = ai.P(('heap', 'grown'), 0)
            if n:
                it.memcpy(st, o, b, n)
            if vecs.member(cd) == 'push_back' or re.search(r'emplace_back<inc_stack<[^<>]*>::span_t', cd):
                it.memcpy(st, ai.P(o.o, n), args[1], self.es)
            else:
                if len(args) > 3:
                    return NotImplemented
                self.store(it, st, ai.P(o.o, n), self.load(it, st, args[1]))
                k = it.load(st, args[2], 4, False, ('n',)) if len(args) == 3 else ai.const(8 * self.lw, 1)
                it.store(st, ai.P(o.o, n + self.voff), k, self.lw)
            vecs.put(it, st, v, o, ai.P(o.o, n + self.es))
            return ai.P(o.o, n) if I.get('w') else None
        old, vecs.esize = vecs.esize, lambda cd: self.es if '::span_t' in cd else None
        try:
            return vecs.model(it, I, cd, args, st, ctx)
        finally:
            vecs.esize = old

    def decide(self, it, c, st, I):
        r = linear.decide(it, c, st, I)
        if r is not None:
            return r
        t, pol = c.b[0][0].t, True
        while isinstance(t, tuple) and t and t[0] in ('not', 'b'):
            pol ^= t[0] == 'not'
            t = t[1]
            while isinstance(t, ai.Label):
                t = t.t
        if not isinstance(t, tuple) or len(t) != 3 or t[0] not in ('eq', 'ult', 'slt'):
            return None
        if t not in self.assume:
            raise Fork(t)
        return self.assume[t] == pol

    def paths(self):
        work = [{}]
        while work:
            self.assume = work.pop()
            if len(self.assume) > 12:
                raise vlib.Broken('%s: too many comparisons' % self.fn)
            try:
                it = ai.Interp(self.c.fn(self.m, '^%s$' % self.fn), self.m, model=self.model, init=self.init, decide=self.decide,
                               partition=True, unroll=True, maxctx=400, maxiter=4000, strict=True).run()
            except Fork as f:
                for b in (True, False):
                    work.append(dict(self.assume, **{}) | {f.args[0]: b})
                continue
            except ai.Undecided as e:
                raise vlib.Broken('%s cannot be decided at %s' % (e.args[0], vlib.where(e.args[1])))
            if len(it.rets) != 1:
                raise vlib.Broken('%s: %d exits' % (self.fn, len(it.rets)))
            (rv, st), = it.rets.values()
            self.known = []
            for t, b in self.assume.items():
                if t[0] == 'eq' and b:
                    w = linear.width(t[1]) or linear.width(t[2])
                    d = linear.operand(t[1], self.facts, {}) + linear.operand(t[2], self.facts, {}).times(-1)
                    self.known += [(w, d.mod(w)), (w, d.times(-1).mod(w))]
            yield it, rv, st

    def same(self, a, b, plus=0):
        """a == b + plus on this path"""
        f = a if isinstance(a, Form) else linear.of(a, self.facts)
        g = b if isinstance(b, Form) else linear.of(b, self.facts)
        w = self.w if isinstance(a, Form) else a.w
        d = (f + g.times(-1) + Form({}, -plus)).mod(w)
        return d == (frozenset(), 0) or (w, d) in self.known

    def content(self, it, st):
        b, n = vecs.span(it, st, ai.P(S, 0))
        if n is None:
            raise vlib.Broken('%s: the runs are not determined' % self.fn)
        out = []
        for k in range(n // self.es):
            p = ai.P(b.o, b.off + k * self.es)
            out.append((self.load(it, st, p), it.load(st, ai.P(p.o, p.off + self.voff), self.lw, False, ('n',))))
        return out

    def equal_run(self, x, y, plus=0):
        return all(self.same(a, b) for a, b in zip(x[0], y[0])) and self.same(x[1], y[1], plus)


SHAPES = [x for n in range(5) for x in itertools.product((True, False), repeat=n)] + \
    [(True,) * 5, (False,) * 5, (True,) * 6 + (False,) * 2, (False,) * 6 + (True,) * 3]


def step(ty, op, shapes):
    """[(what, ok, detail)]"""
    out = []
    for runs in shapes:
        try:
            out += step1(ty, op, [runs])
        except (vlib.Broken, linear.NoForm) as e:
            # no form for any lengths: given ones may still tell
            bad = []
            for n in (2, 3, 5, 255, 256, 257, 65535, 65536, (1 << 31) - 1):
                try:
                    bad += [x for x in step1(ty, op, [tuple(x or n for x in runs)]) if not x[1]]
                except (vlib.Broken, linear.NoForm):
                    pass
            if not bad:
                raise vlib.Broken('%s: %s' % (op, e))
            out += bad[:1]
    return out


def step1(ty, op, shapes):
    c, m = _CM[op, ty]
    out = []
    for runs in shapes:
        p = Play(c, m, ty, 'h_%s_%s' % (op, ty), runs)
        what = '%s on a stack of %s of %s' % (op, 'no runs' if not runs else ' and '.join('one' if x is True else str(x) if x else 'many' for x in runs), T[ty][0])
        for it, rv, st in p.paths():
            got = p.content(it, st)
            size = it.load(st, ai.P(S, 24), 4, False, ('n',))
            d = ''
            try:
                was = p.was
                if op == 'push':
                    if len(got) == len(was) + 1:
                        ok = all(p.equal_run(x, y) for x, y in zip(got, was)) and p.equal_run(got[-1], (p.new, ai.const(8 * p.lw, 1)))
                    elif len(got) == len(was) and was:
                        v, n = was[-1]
                        p.w = v[-1].w
                        nxt = linear.of(v[-1], p.facts) + linear.of(n, p.facts)
                        # the run goes on with the new value
                        ok = all(p.equal_run(x, y) for x, y in zip(got[:-1], was)) and p.equal_run(got[-1], was[-1], 1)
                        ok = ok and p.same(nxt, linear.of(p.new[-1], p.facts))
                        ok = ok and all(p.same(a, b) for a, b in zip(v[:-1], p.new[:-1]))
                    else:
                        ok = False
                    ok = ok and p.same(size, p.size, 1)
                    d = 'the value is not what the stack ends with, or its size is wrong'
                elif op == 'pop':
                    if runs[-1] == 1:
                        ok = len(got) == len(was) - 1 and all(p.equal_run(x, y) for x, y in zip(got, was))
                    else:
                        ok = len(got) == len(was) and all(p.equal_run(x, y) for x, y in zip(got[:-1], was)) and \
                            p.equal_run(got[-1], was[-1], -1)
                    ok = ok and p.same(size, p.size, -1)
                    d = 'more or less than the last value is gone'
                else:
                    ok = len(got) == len(was) and all(p.equal_run(x, y) for x, y in zip(got, was)) and p.same(size, p.size)
                    d = 'the stack is changed'
                    if ok and op in ('back', 'front'):
                        d = 'another value is returned'
                        r = p.load(it, st, ai.P(vlib.argobj(1), 0))
                        v, n = was[-1 if op == 'back' else 0]
                        p.w = v[-1].w
                        want = linear.of(v[-1], p.facts) + (linear.of(n, p.facts) + Form({}, -1) if op == 'back' else Form({}, 0))
                        ok = p.same(linear.of(r[-1], p.facts), want) and all(p.same(a, b) for a, b in zip(r[:-1], v[:-1]))
                    elif ok and op == 'size':
                        d = 'another size is returned'
                        ok = p.same(rv, p.size)
                    elif ok and op == 'empty':
                        d = 'the wrong answer'
                        ok = isinstance(rv, ai.V) and (rv.b[0] == int(not runs) if rv.b[0] in (0, 1) else False)
            except linear.NoForm as e:
                raise vlib.Broken('%s: %s' % (what, e))
            out.append((what, ok, '' if ok else d))
    return out


def fresh(c, h, inline):
    """a new stack has no runs; a new run is its value once"""
    for ty in T:
        for op in ('new', 'span'):
            fn = 'h_%s_%s' % (op, ty)
            m = c.ir([h], ['^%s$' % fn], inline=inline, keep=[])
            p = Play(c, m, ty, fn, ())

            def init(it, st):
                p.init(it, st)
                for o in range(0, 32, 4):
                    it.store(st, ai.P(S, o), ai.lab(32, ('before', o)), 4)
            it = ai.Interp(c.fn(m, '^%s$' % fn), m, model=p.model, init=init, partition=True, strict=True).run()
            if len(it.rets) != 1:
                raise vlib.Broken('%s: %d exits' % (fn, len(it.rets)))
            (rv, st), = it.rets.values()
            if op == 'new':
                b, n = vecs.span(it, st, ai.P(S, 0))
                ok = n == 0 and it.load(st, ai.P(S, 24), 4, False, ('n',)).const() == 0
            else:
                ok = p.load(it, st, ai.P(S, 0)) == p.new and it.load(st, ai.P(S, p.voff), p.lw, False, ('n',)).const() == 1
            c.ob('a new %s of %s' % ('stack' if op == 'new' else 'run', T[ty][0]), ok, 'it is not %s' % (
                'empty' if op == 'new' else 'its value once'), 'ron/inc_stack.hpp')


def geometry(c, h):
    for ty in T:
        out = []
        for what in ('each', 'where', 'width'):
            fn = 'h_%s_%s' % (what, ty)
            m = c.ir([h], ['^%s$' % fn])
            it = ai.Interp(c.fn(m, '^%s$' % fn), m, partition=True).run()
            out.append([rv.const() for rv, st in it.rets.values()][0])
        GEO[ty] = tuple(out)
        c.ob('the length of a run of %s' % T[ty][0], out[2] >= 4, 'a length of %d bytes wraps: a run of 2^%d values counts as none' % (
            out[2], 8 * out[2]), 'ron/inc_stack.hpp')
    return all(g[2] >= 4 for g in GEO.values())


def lemma(c, h, inline):
    if not geometry(c, h):
        return
    fresh(c, h, inline)
    jobs = []
    for ty in T:
        for op in ('push', 'pop', 'back', 'front', 'size', 'empty'):
            fn = 'h_%s_%s' % (op, ty)
            _CM[op, ty] = c, c.ir([h], ['^%s$' % fn], inline=inline, keep=KEEP)
            sh = SHAPES[1:] if op in ('pop', 'back', 'front') else SHAPES
            jobs += [(ty, op, sh[k:k + 6]) for k in range(0, len(sh), 6)]
    for out in vlib.pmap(step, jobs):
        for what, ok, d in out:
            c.ob(what, ok, d, 'ron/inc_stack.hpp')


class Walk(Play):
    """walking a stack of runs of given lengths and any values"""
    def __init__(self, c, m, ty, fn, lens, args=()):
        Play.__init__(self, c, m, ty, fn, lens)
        self.args, self.seen, self.assume = args, [], {}

    def init(self, it, st):
        n = len(self.runs)
        b = ai.P(('heap', 'runs', self.es * n), 0)
        self.was = []
        for k, l in enumerate(self.runs):
            v = self.item('run%d' % k)
            self.was.append((v, l))
            self.store(it, st, ai.P(b.o, self.es * k), v)
            it.store(st, ai.P(b.o, self.es * k + self.voff), ai.const(8 * self.lw, l), self.lw)
        if n:
            vecs.put(it, st, ai.P(S, 0), b, ai.P(b.o, self.es * n))
        else:
            vecs.put(it, st, ai.P(S, 0), ai.NULL, ai.NULL)
        it.store(st, ai.P(S, 24), ai.const(32, sum(self.runs)), 4)
        for l, f in self.facts.items():
            st.facts[l] = f

    def model(self, it, I, cd, args, st, ctx):
        if cd.startswith('sink_'):
            seen = st.aux.get(('seen',), ())
            if len(seen) > sum(x if x < 100 else 3 for x in self.runs) + 3:
                raise ai.Misuse('the walk does not end with the last value')
            st.aux[('seen',)] = seen + (tuple(self.load(it, st, args[0])),)
            return None
        return Play.model(self, it, I, cd, args, st, ctx)

    def run(self):
        try:
            it = ai.Interp(self.c.fn(self.m, '^%s$' % self.fn), self.m, model=self.model, init=self.init, decide=linear.decide,
                           argvals={i + 1: ai.const(32, a) for i, a in enumerate(self.args)}, loadhook=strs.hook,
                           partition=True, unroll=True, maxctx=400, maxiter=4000, strict=True).run()
        except ai.Undecided as e:
            raise vlib.Broken('%s cannot be decided at %s' % (e.args[0], vlib.where(e.args[1])))
        if len(it.rets) != 1:
            raise vlib.Broken('%s: %d exits' % (self.fn, len(it.rets)))
        (rv, st), = it.rets.values()
        return it, rv, st

    def at(self, i):
        """the i-th value: (run, how far in)"""
        for k, n in enumerate(self.runs):
            if i < n:
                return k, i
            i -= n
        return None

    def isat(self, got, where):
        v = self.was[where[0]][0]
        self.w = v[-1].w
        return self.same(linear.of(got[-1], self.facts), linear.of(v[-1], self.facts) + Form({}, where[1])) and \
            all(self.same(a, b) for a, b in zip(got[:-1], v[:-1]))


SMALL = [(), (1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (3, 2), (1, 1, 1), (2, 3, 1), (1, 2, 2)]
BIG = [(1000,), (2, 1 << 31), ((1 << 31) - 1, 3), (300, 70000, 5)]


def places(lens, small):
    """the places worth starting from or skipping to: all, or the edges of the runs and around"""
    t = sum(lens)
    if small:
        return list(range(t + 1))
    out, s = {0, 1, t}, 0
    for n in lens:
        s += n
        out |= {s - 1, s, s + 1}
    return sorted(x for x in out if 0 <= x <= t)


def one(ty, kind, lens, args):
    """(what, ok, detail)"""
    c, m = _CM[kind, ty]
    p = Walk(c, m, ty, 'h_%s_%s' % (kind, ty), lens, args)
    what = '%s of runs of %s %s%s' % (KIND[kind], '+'.join(map(str, lens)) or 'nothing', T[ty][0],
                                      ', ' + ', '.join(map(str, args)) if args else '')
    it, rv, st = p.run()
    seen = st.aux.get(('seen',), ())
    t = sum(lens)
    try:
        if rv is not None and rv.const() is None:
            raise vlib.Broken('%s: the answer is not determined' % what)
        if kind in ('same', 'other'):
            want = (args[0] == args[1]) == (kind == 'same')
            return what, rv.const() == int(want), 'answers %d' % rv.const()
        if kind == 'runs':
            return what, rv.const() == len(lens), 'answers %d' % rv.const()
        if kind in ('fspan', 'bspan'):
            k = 0 if kind == 'fspan' else len(lens) - 1
            ok = rv.const() == lens[k] and p.isat(p.load(it, st, ai.P(OUT, 0)), (k, 0))
            return what, ok, 'gives another run'
        if kind == 'walk':
            want = [p.at(i) for i in range(t)]
        else:
            a = args[0] + args[1]
            if kind == 'skip':
                k, i = p.at(args[0])
                n = min(args[1], lens[k] - i)
                if rv.const() != n:
                    return what, False, 'says it skipped %s, not %d' % (rv.const(), n)
                a = args[0] + n
            want = [p.at(i) for i in range(a, min(t, a + 3))]
        if len(seen) != len(want):
            return what, False, 'gives %d values, not %d' % (len(seen), len(want))
        for n, (g, x) in enumerate(zip(seen, want)):
            if not p.isat(g, x):
                return what, False, 'value %d is not the one %d into run %d' % (n, x[1], x[0])
        return what, True, ''
    except linear.NoForm as e:
        raise vlib.Broken('%s: %s' % (what, e))


KIND = {'walk': 'a walk', 'tail': 'what follows two skips', 'skip': 'skipping within a run', 'same': '==', 'other': '!=',
        'runs': 'the number', 'fspan': 'the first', 'bspan': 'the last'}


def walks(c, h, inline):
    if not geometry(c, h):
        return
    jobs = []
    for ty in T:
        for kind in KIND:
            _CM[kind, ty] = c, c.ir([h], ['^h_%s_%s$' % (kind, ty)], inline=inline, keep=KEEP)
        for lens in SMALL + BIG:
            small, t = lens in SMALL, sum(lens)
            pl = places(lens, small)
            if small:
                jobs.append((ty, 'walk', lens, ()))
            jobs.append((ty, 'runs', lens, ()))
            if lens:
                jobs += [(ty, 'fspan', lens, ()), (ty, 'bspan', lens, ())]
            for a in pl:
                for b in pl:
                    if b >= a:
                        jobs.append((ty, 'tail', lens, (a, b - a)))
                    jobs += [(ty, 'same', lens, (a, b)), (ty, 'other', lens, (a, b))]
                if a < t:
                    for n in sorted({0, 1, 2, 3, 4, 299, 300, 301, 70000, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1}):
                        jobs.append((ty, 'skip', lens, (a, n)))
    for what, ok, d in vlib.pmap(one, jobs):
        c.ob(what, ok, '' if ok else d, 'ron/inc_stack.hpp')
    c.paths += len(jobs)
