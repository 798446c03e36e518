"""Visibility in arrays: ScanRGA over causal trees with removals and undos; its
stack of runs is shown to be a stack first."""
import itertools
import re
import absint as ai
import P13
import runs
import strs
import vecs
import vlib
import world
from vlib import argobj
from world import Op, World

MINOBS = 2000
H = vlib.VERIF + '/harness/P18.cc'
SRC = 'rdt/rga.hpp'
STK = 'ron/inc_stack.hpp'
KEEP = P13.KEEP + ['inc_stack<', '_Bit_reference', 'vector<bool', '_Bvector_base']
OUT, IN, RET = argobj(0), argobj(1), argobj(2)
RM = 986569793370849280
UN = 1040894463876005888
NEVER = 63 << 54
RGA = (world.base64name('rga'), 0)


# ---- models ------------------------------------------------------------------
def bools(st, p):
    v = st.aux.get(('bools', p.o, p.off))
    return None if v is None or v[:1] == ('join',) else v


def bitref(p, i):
    return ai.A([ai.P(('bitref', p.o, p.off), i), ai.const(64, 0)])


class Scan(World):
    def model(self, it, I, cd, args, st, ctx):
        r = self.bools(it, I, cd, args, st)
        if r is not NotImplemented:
            return r
        r = self.stack(it, I, cd, args, st)
        if r is not NotImplemented:
            return r
        r = super().model(it, I, cd, args, st, ctx)
        if isinstance(r, ai.P) and r.o[0] == 'opatoms' and 'operator[]' in cd and isinstance(r.off, int) and \
                r.off + 16 > 32 + 16 * len(self.frames[r.o[1]][r.o[2]].atoms):
            raise Outside('a value which the op does not have is read', I)
        return r

    def bools(self, it, I, cd, args, st):
        if 'std::_Bit_reference::' in cd:
            p = it.load(st, args[0], 8, True, ('bit',)) if isinstance(args[0], ai.P) else None
            if not isinstance(p, ai.P) or p.o[0] != 'bitref':
                return NotImplemented
            k = ('bools', p.o[1], p.o[2])
            v = st.aux[k]
            if not 0 <= p.off < len(v):
                raise Outside('an element of the marks which is not there', I)
            if 'operator bool' in cd:
                return ai.const(1, int(v[p.off]))
            if 'operator=(bool)' in cd:
                b = args[1].b[0] if isinstance(args[1], ai.V) else None
            else:
                q = it.load(st, args[1], 8, True, ('bit',))
                b = int(st.aux[('bools', q.o[1], q.o[2])][q.off]) if isinstance(q, ai.P) and q.o[0] == 'bitref' else None
            if b not in (0, 1):
                return NotImplemented
            st.aux[k] = v[:p.off] + (bool(b),) + v[p.off + 1:]
            return args[0]
        if '::~_Bvector_base()' in cd or re.search(r'::~vector\(\)$', cd) and 'vector<bool' in cd:
            return None
        if not re.search(r'std::vector<bool, std::allocator<bool>>::', cd.split('(')[0]) or not args or not isinstance(args[0], ai.P):
            return NotImplemented
        m, p = vecs.member(cd), args[0]
        k = ('bools', p.o, p.off)
        if m in ('vector', 'clear') and len(args) == 1:
            st.aux[k] = ()
            return None
        if m == '~vector' or m == 'reserve':
            return None
        if m in ('vector', 'assign', 'resize') and len(args) >= 2 and isinstance(args[1], ai.V) and args[1].const() is not None:
            b = bool(args[2].const()) if len(args) > 2 and isinstance(args[2], ai.V) else False
            old = bools(st, p) or () if m == 'resize' else ()
            st.aux[k] = (old + (b,) * args[1].const())[:args[1].const()]
            return None
        v = bools(st, p)
        if v is None:
            return NotImplemented
        if m in ('push_back', 'emplace_back'):
            b = args[1].b[0] if isinstance(args[1], ai.V) else it.load(st, args[1], 1, False, ('b',)).b[0]
            if b not in (0, 1):
                d = it.decide(it, ai.V(1, [b]), st, I) if isinstance(b, tuple) else None
                if d is None:
                    return NotImplemented
                b = d
            st.aux[k] = v + (bool(b),)
            return bitref(p, len(v)) if I.get('ty') != 'void' else None
        if m == 'pop_back':
            if not v:
                raise Outside('a mark taken off an empty stack', I)
            st.aux[k] = v[:-1]
            return None
        if m == 'size':
            return ai.const(64, len(v))
        if m == 'empty':
            return ai.const(1, int(not v))
        const = cd.rstrip().endswith('const')
        if m in ('back', 'front', 'operator[]', 'at'):
            i = len(v) - 1 if m == 'back' else 0 if m == 'front' else args[1].const() if isinstance(args[1], ai.V) else None
            if i is None:
                return NotImplemented
            if not 0 <= i < len(v):
                raise Outside('mark %d of %d is used' % (i if i < 1 << 31 else i - (1 << 32) if i < 1 << 32 else i - (1 << 64), len(v)), I)
            return ai.const(1, int(v[i])) if const else bitref(p, i)
        return NotImplemented

    def stack(self, it, I, cd, args, st):
        h = cd.split('(')[0]
        if 'inc_stack<' not in h or not args or not isinstance(args[0], ai.P) or 'const_iterator' in h:
            return NotImplemented
        m, p = vecs.member(cd), args[0]
        k = ('stack', p.o, p.off)
        if m == 'inc_stack' and len(args) == 1:
            st.aux[k] = ()
            return None
        if m == '~inc_stack':
            return None
        v = st.aux.get(k)
        if v is None or v[:1] == ('join',):
            return NotImplemented
        if m == 'push_back':
            x = tuple(args[1:])
            if len(x) == 1 and isinstance(x[0], ai.P):
                x = tuple(it.load(st, ai.P(x[0].o, x[0].off + 8 * i), 8, False, ('x',)) for i in (0, 1))
            st.aux[k] = v + (x,)
            return None
        if m in ('pop_back', 'back', 'front') and not v:
            raise Outside('%s of an empty stack' % m, I)
        if m == 'pop_back':
            st.aux[k] = v[:-1]
            return None
        if m in ('back', 'front'):
            x = v[-1 if m == 'back' else 0]
            return x[0] if len(x) == 1 else ai.A(list(x))
        if m == 'size':
            return ai.const(I['w'], len(v))
        if m == 'empty':
            return ai.const(1, int(not v))
        return NotImplemented


class Outside(Exception):
    pass


# ---- what is due ---------------------------------------------------------------
ROOT, ENTRY, REMOVE, UNDO, TRASH = range(5)


def due(par, kinds):
    """hidden?, one per op; par[0] is None; ops are in depth-first order"""
    n = len(par)
    zone = [ROOT]
    for i in range(1, n):
        z, k = zone[par[i]], kinds[i]
        zone.append(k if z != TRASH and (k == z + 1 or k == z) else TRASH)

    def up(i, z):
        """the part of the path to i which is in zone z, i first"""
        while i is not None and zone[i] != z:
            i = par[i]
        out = []
        while i is not None and zone[i] == z:
            out.append(i)
            i = par[i]
        return out
    off = [False] * n      # cancelled removals, removed elements
    for below, above in ((UNDO, REMOVE), (REMOVE, ENTRY)):
        for i in range(1, n):
            if zone[i] == below and not off[i]:
                k = len(up(i, below))
                hit = up(i, above)
                if k <= len(hit):
                    off[hit[k - 1]] = True
    return [zone[i] != ENTRY or off[i] for i in range(n)]


def sequences(n):
    """depth-first orders of trees of n ops: every op hangs off the path to the one before"""
    def go(par):
        if len(par) == n:
            yield tuple(par)
            return
        p = len(par) - 1
        while p is not None:
            yield from go(par + [p])
            p = par[p]
    yield from go([None])


JOBS = []
N = 'abcdefghijklmn'
STRING_ATOM = (ai.const(64, 1 << 32), ai.const(64, (5 | 6 << 32) | 2 << 62))
UUID_ATOM = lambda v: (ai.const(64, v), ai.const(64, 0))
INT_ATOM = (ai.const(64, 0), ai.const(64, 9 | 10 << 32 | 1 << 62))
PLAIN = {ENTRY: [STRING_ATOM], REMOVE: [UUID_ATOM(RM)], UNDO: [UUID_ATOM(UN)]}
SHOW = {ENTRY: "'x'", REMOVE: 'rm', UNDO: 'un'}


def show(par, kinds):
    return 'root' + ''.join(', %s%s on %s' % (N[i], '=' + SHOW[kinds[i]], N[par[i]]) for i in range(1, len(par)))


def tree(par, kinds, var='A', atoms=None):
    JOBS.append((par, kinds, var, atoms, due(par, kinds), 'OK'))


def trees(full):
    ks = (ENTRY, REMOVE, UNDO)
    for n in range(1, full + 1):
        for par in sequences(n):
            for kinds in itertools.product(ks, repeat=n - 1):
                for var in 'ABC' if n < 4 else 'A':
                    tree(par, (ROOT,) + kinds, var)
    # chains of every make, then an op hung off each place of it
    done = set()
    for e in range(1, 4):
        for r in range(0, 5):
            for u in range(0, 5):
                if e + r + u > 7:
                    continue
                kinds = (ROOT,) + (ENTRY,) * e + (REMOVE,) * r + (UNDO,) * u
                par = (None,) + tuple(range(len(kinds) - 1))
                if len(par) > full:
                    tree(par, kinds)
                for p in range(len(par)):
                    for k in ks:
                        if len(par) >= full:
                            tree(par + (p,), kinds + (k,))
    # removals and undos from two sides of the same elements
    for r1, r2 in itertools.product(range(1, 4), repeat=2):
        for at in (1, 2, 3):
            kinds = [ROOT, ENTRY, ENTRY, ENTRY] + [REMOVE] * r1
            par = [None, 0, 1, 2] + list(range(3, 3 + r1))
            par += [at] + list(range(len(par), len(par) + r2 - 1))
            kinds += [REMOVE] * r2
            tree(tuple(par), tuple(kinds))
            for u in (1, 2):
                tree(tuple(par) + tuple(range(len(par) - 1, len(par) - 1 + u)), tuple(kinds) + (UNDO,) * u)


def others():
    # what an op is: the values it has
    U = UUID_ATOM
    for nm, atoms, kind in (("no value", [], ENTRY), ("'x' 'y'", [STRING_ATOM] * 2, ENTRY), ('rm and a value', [U(RM), INT_ATOM], ENTRY),
                            ('an integer', [INT_ATOM], ENTRY), ('another name', [U(RM + (1 << 6))], ENTRY),
                            ('rm by an author', [(ai.const(64, RM), ai.const(64, 77))], ENTRY), ('rm', [U(RM)], REMOVE),
                            ('un', [U(UN)], UNDO), ('un and a value', [U(UN), U(UN)], ENTRY),
                            ('un by an author', [(ai.const(64, UN), ai.const(64, 77))], ENTRY)):
        for par, ks, i in (((None, 0, 1), (ENTRY, kind), 2), ((None, 0, 1, 2), (ENTRY, REMOVE, kind), 3)):
            tree(par, (ROOT,) + ks, 'A', {i: (nm, atoms)})


ERRORS = [
    # (what, ops as (name, ref), form of the root, code)
    ('a frame of another form', [('a', 'L')], 'BADARGS'),
    ('a frame that starts with a patch', [('b', 'a')], 'BADARGS'),
    ('an op that refers to one not on its path', [('a', 'R'), ('b', 'a'), ('c', 'a'), ('d', 'b')], 'CAUSEBREAK'),
    ('an op that refers to no op of the frame', [('b', 'R'), ('c', 'b'), ('d', 'a')], 'CAUSEBREAK'),
    ('a second root', [('a', 'R'), ('b', 'R')], 'BADARGS'),
    ('an op older than the one it refers to', [('b', 'R'), ('c', 'b'), ('a', 'c')], 'BADARGS'),
    ('an op older than the root', [('b', 'R'), ('a', 'b')], 'BADARGS'),
    ('an id which is no event', [('a', 'R'), ('K', 'a')], 'BADARGS'),
    ('a root which is no event', [('K', 'R')], 'BADARGS'),
]
NAMEWORD = 0xfff << 40


def play(i):
    j = JOBS[i]
    if len(j) == 3:
        what, refs, code = j
        ops = [Op(n, r, atoms=[STRING_ATOM]) for n, r in refs]
        want, var, title = None, 'A', what
    else:
        par, kinds, var, atoms, want, code = j
        ops = []
        for k, p in enumerate(par):
            a = [] if k == 0 else atoms[k][1] if atoms and k in atoms else PLAIN[kinds[k]]
            ops.append(Op(N[k], 'R' if p is None else N[p], atoms=a))
        title = show(par, kinds) + (' (%s)' % ', '.join(x[0] for x in atoms.values()) if atoms else '')
    w = Scan([ops], N, var, consts={'R': RGA, 'L': (world.base64name('lww'), 0), 'K': (NAMEWORD, 0)})
    w.payload = {(1, INT_ATOM[1].const()): ai.const(64, RM)}
    # a time that is later than any
    w.order.consts[NEVER] = 1000
    w.order.consts[0] = -1000 if var != 'B' else 0
    w.order.consts[2 << 60] = 0
    w.arrays[IN] = [0]

    def init(it, st):
        w.init(it, st)
    bad = None
    try:
        it = ai.Interp(C.fn(M, '^h_scan$'), M, model=w.model, init=init, decide=w.decide, partition=True, unroll=True,
                       loadhook=strs.hook, maxctx=4000, maxiter=60000, strict=True).run()
    except Outside as e:
        return title, False, str(e.args[0])
    except ai.Undecided as e:
        raise vlib.Broken('%s cannot be decided at %s' % (e.args[0], vlib.where(e.args[1])))
    if len(it.rets) != 1:
        raise vlib.Broken('h_scan: %d exits' % len(it.rets))
    (rv, st), = it.rets.values()
    got = w.code(it, st, ai.P(RET, 0))
    if got != code:
        bad = 'returns %s, wanted %s' % (got, code)
    elif want is not None:
        v = bools(st, ai.P(OUT, 0))
        if v is None or list(v) != want:
            bad = 'marks %s, wanted %s' % (None if v is None else ''.join('01'[x] for x in v), ''.join('01'[x] for x in want))
    return title, bad is None, bad or ''


def check(c):
    global C, M
    c.rule('in every causal tree of the world the marks are: the root, removals, undos and misplaced ops hidden, an element '
           'hidden when a removal in force reaches it, one mark per op in order')
    c.rule('a stack of runs keeps what a stack keeps: every operation, from any values and lengths of the runs')
    c.rule('no path uses an element of a container which is not there')
    M = c.ir([H], ['^h_scan$', '_GLOBAL__sub_I_P18'], inline=P13.INLINE + ['^__cxx_global'], keep=KEEP)
    world.GLOBALS = vlib.static_init(M, 'sub_I', model=strs.model).mem
    C = c
    c.part(runs.lemma, c, H, P13.INLINE + ['inc_stack<', '^h_'])
    del JOBS[:]
    trees(5)
    others()
    JOBS.extend(ERRORS)
    for title, ok, detail in vlib.pmap(play, [(i,) for i in range(len(JOBS))]):
        c.ob(title, ok, detail, SRC)
    c.paths += len(JOBS)
