"""The RocksDB store: merges, opening, closed stores, database errors."""
import re
import absint as ai
import vlib
import rocks
import vecs
from vlib import argobj

MINOBS = 110
LOC = 'db/rocks_store.cc'
S = '^ron::RocksDBStore<ron::TextFrame>::'
M = '^ron::RDTMerge<ron::TextFrame>::'
ROOTS = 'Write|Read|Close|Drop|Open|OpenAll|Create|Repair|Iterator::(Iterator|Next|SeekTo|Close|key|value)'
DIR = '_ZN3ron17ROCKSDB_STORE_DIR'


def module(c):
    return c.ir([vlib.VERIF + '/harness/P16.cc'], ['^h_', S + '(' + ROOTS + r')\(', M + r'(FullMergeV2|PartialMergeMulti)\('], inline=rocks.INLINE, keep=rocks.KEEP,
                flags=('-fno-access-control',), split=True)


def unlab(t):
    while isinstance(t, ai.Label):
        t = t.t
    return t


def plain(t, q):
    """a condition without the negations around it"""
    while isinstance(t, tuple) and t[:1] == ('xor',) and ('c', 1) in [unlab(x) for x in t[1:]] and len(t) == 3:
        t, q = [y for y in map(unlab, t[1:]) if y != ('c', 1)][0], not q
    while isinstance(t, tuple) and t[:1] == ('b',) and len(t) == 2:
        t = unlab(t[1])
    return t, q


def words(a, b):
    """the stored form of a key"""
    return ('words', ai.bswap(a), ai.bswap(b))


KA, KB = ai.lab(64, ('in', 'key.a')), ai.lab(64, ('in', 'key.b'))
EA, EB = ai.const(64, (1 << 64) - 1 - (0xf << 56)), ai.const(64, (1 << 64) - 2)     # Key::END stands for itself
KEY = words(KA, KB)


class Path:
    pass


class Store:
    def __init__(self, c, m):
        self.c, self.m = c, m

    def run(self, *a, **kw):
        return self.c.part(lambda: self.paths(*a, **kw)) or []

    def paths(self, fn, init, args=None, families=0, extra=None):
        c, m = self.c, self.m
        w = rocks.Rocks(c, m, families, extra)
        f = c.fn(m, fn)

        def ini(it, st):
            st.aux[('ev',)] = ()
            for g, a, b in (('_ZN3ron3Key3ENDE', EA, EB), ('_ZN3ron3Key4ZEROE', ai.const(64, 0), ai.const(64, 0)),
                            ('_ZN3ron4Uuid3NILE', ai.const(64, 0), ai.const(64, 0))):
                it.store(st, ai.P(('g', g), 0), a, 8)
                it.store(st, ai.P(('g', g), 8), b, 8)
            it.store(st, ai.P(('g', '_ZN3ronL4ZEROE'), 0), ai.const(64, 0), 8)
            init(w, it, st)
        it = ai.Interp(f, m, model=w.model, init=ini, partition=True, track=True, unroll=True, loadhook=w.hook,
                       argvals=args or {}, maxctx=4000, maxiter=60000).run()
        c.need(it.rets, fn)
        out = []
        for (ctx, b), (rv, st) in it.rets.items():
            p = Path()
            p.w, p.it, p.st, p.rv = w, it, st, rv
            p.cs = [plain(unlab(e[1]), e[2]) for e in ctx if e[0] == '?']
            p.ev = w.events(st)
            if p.ev is None:
                raise vlib.Broken('%s: the calls made are not determined' % fn)
            p.codes = self.codes(p.cs)
            if p.codes is None:
                continue       # two values for one status
            p.out = w.ronst(it, st, ai.P(argobj(0), 0))
            out.append(p)
        c.paths += len(out)
        return out

    def codes(self, cs):
        """what the path knows of every database status: {call: code, or None for an error}"""
        eq, ne = {}, {}
        for t, pol in cs:
            t2 = [unlab(x) for x in t[1:]] if isinstance(t, tuple) and t[:1] == ('eq',) else []
            if len(t2) == 2:
                for x, y in (t2, t2[::-1]):
                    if isinstance(x, tuple) and x[:1] == ('rc',) and isinstance(y, tuple) and y[:1] == ('c',):
                        (eq if pol else ne).setdefault(x[1:], set()).add(y[1])
        r = {}
        for k in set(eq) | set(ne):
            e, n = eq.get(k, set()), ne.get(k, set())
            if len(e) > 1 or e & n:
                return None
            r[k] = 0 if e == {0} else min(e) if e else None if 0 in n else 'unknown'
        return r


def holds(p, term, pol):
    return any(t == term and q == pol for t, q in p.cs)


def err(out):
    """an error status"""
    return out is not None and out[0] == 'S' and out[1] in rocks.ERR


def show(p):
    return 'calls %s, database says %s, returns %s' % (
        ', '.join(e[0] for e in p.ev) or 'none', {'%s #%d' % k: 'ok' if v == 0 else 'error' if v is None else v for k, v in p.codes.items()},
        p.out and p.out[-1])


def same(a, b):
    return a == b


def opened(w, it, st, o=None, db=('db', 'd'), cf=('cf', 'c')):
    o = o or argobj(1)
    it.store(st, ai.P(o, w.off['db']), ai.P(db, 0) if db else ai.NULL, 8)
    it.store(st, ai.P(o, w.off['cf']), ai.P(cf, 0) if cf else ai.NULL, 8)


class Judge:
    def __init__(self, c, name, ps):
        self.c, self.name, self.ps = c, name, ps

    def all(self, what, f):
        if not self.ps and self.c.deferred:
            return      # no answer for these paths
        with self.c.trying():
            self.each(what, f)

    def each(self, what, f):
        bad = [p for p in self.ps if not f(p)]
        self.c.ob('%s: %s' % (self.name, what), self.ps and not bad, show(bad[0]) if bad else '' if self.ps else 'no path', LOC)

    def some(self, what, f):
        if not self.ps and self.c.deferred:
            return
        self.c.ob('%s: %s' % (self.name, what), any(f(p) for p in self.ps), '%d paths' % len(self.ps), LOC)


def result(p, call=None):
    """the outcome follows the database's"""
    for k, v in p.codes.items():
        if v is None and not err(p.out):
            return False
        if v == 'unknown':
            return False
    used = {e[1] for e in p.ev if len(e) > 1 and isinstance(e[1], tuple) and len(e[1]) == 2 and isinstance(e[1][1], int)}
    if used - set(p.codes):
        return False                   # a status nobody looked at
    if all(v == 0 for v in p.codes.values()):
        return p.out == ('S', 'OK')
    return err(p.out)


def notend(p):
    return not (any(t == ('eq', KA.label(), ('c', EA.const())) for t, q in p.cs))


def iskeyend(p):
    """the path where the (symbolic) key is the end marker"""
    n = 0
    for t, q in p.cs:
        if isinstance(t, tuple) and t[:1] == ('eq',) and q:
            xs = [unlab(x) for x in t[1:]]
            if ('in', 'key.a') in xs or ('in', 'key.b') in xs:
                n += 1
    return n == 2


def writes(c, s):
    K = {2: KA, 3: KB}
    E = {2: EA, 3: EB}

    def init(db):
        def f(w, it, st):
            opened(w, it, st, db=db and ('db', 'd'))
            it.store(st, ai.P(argobj(4), 0), rocks.tok(('change',)), 8)
        return f
    one = ('Merge', ('Merge', 0), ('db', 'd'), ('cf', 'c'), KEY, ('text', ('change',)))
    ps = [p for p in s.run(S + r'Write\(ron::Key, ', init(True), K) if not iskeyend(p)]
    j = Judge(c, 'Write', ps)
    j.all('one merge of the change into the key\'s row of this branch', lambda p: p.ev == (one,))
    j.all('reports what the database says', result)
    j = Judge(c, 'Write to the end marker', s.run(S + r'Write\(ron::Key, ', init(True), E))
    j.all('a change is refused', lambda p: err(p.out) and not p.ev or holds(p, ('empty', ('change',)), True))
    j = Judge(c, 'Write, closed', s.run(S + r'Write\(ron::Key, ', init(False), K))
    j.all('refused', lambda p: err(p.out) and not p.ev)
    # -- a batch
    for n in range(0, 4):
        with c.trying():
            def binit(db, end=None):
                def f(w, it, st):
                    opened(w, it, st, db=db and ('db', 'd'))
                    z = w.off['z_record']
                    for i in range(n):
                        for k in (0, 1):
                            v = (EA, EB)[k] if i == end else ai.lab(64, ('in', 'key%d.%d' % (i, k)))
                            it.store(st, ai.P(('recs',), z * i + 8 * k), v, 8)
                        it.store(st, ai.P(('recs',), z * i + w.off['rec_frame']), rocks.tok(('change', i)), 8)
                    vecs.put(it, st, ai.P(argobj(2), 0), ai.P(('recs',), 0), ai.P(('recs',), z * n))
                return f
            want = tuple((words(ai.lab(64, ('in', 'key%d.0' % i)), ai.lab(64, ('in', 'key%d.1' % i))), ('text', ('change', i))) for i in range(n))
            ps = [p for p in s.run(S + r'Write\(std::vector', binit(True)) if not batchend(p)]
            j = Judge(c, 'Write of %d records' % n, ps)

            def full(p):
                b = [e for e in p.ev if e[0] == 'BMerge']
                w = [e for e in p.ev if e[0] == 'Write']
                if [e for e in p.ev if e[0] not in ('BMerge', 'Write')] or len(w) > 1:
                    return False
                if any(e[3] != ('cf', 'c') for e in b) or tuple((e[4], e[5]) for e in b) != want[:len(b)]:
                    return False
                if not w:      # given up on an error
                    return bool(b) and p.codes.get(b[-1][1], 0) is None and err(p.out)
                return len(b) == n and len({e[2] for e in b} | {w[0][3]}) <= 1 and w[0][2] == ('db', 'd') and p.ev[-1] == w[0]
            j.all('every record is merged under its own key, in order, in one database write', full)
            j.some('written', lambda p: p.out == ('S', 'OK') and any(e[0] == 'Write' for e in p.ev))
            j.all('reports what the database says', result)
            for e in range(n):
                j = Judge(c, 'Write of %d records, the %s under the end marker' % (n, ('first', 'second', 'third')[e]),
                          s.run(S + r'Write\(std::vector', binit(True, e)))
                j.all('a change is refused, with nothing written', lambda p: err(p.out) and not any(x[0] == 'Write' for x in p.ev) or
                      holds(p, ('empty', ('change', e)), True))
            j = Judge(c, 'Write of %d records, closed' % n, s.run(S + r'Write\(std::vector', binit(False)))
            j.all('refused', lambda p: err(p.out) and not p.ev)


def batchend(p):
    """some record's key is the end marker"""
    n = {}
    for t, q in p.cs:
        if isinstance(t, tuple) and t[:1] == ('eq',) and q:
            for x in t[1:]:
                x = unlab(x)
                if isinstance(x, tuple) and x[:1] == ('in',) and x[1].startswith('key'):
                    n[x[1][:4]] = n.get(x[1][:4], 0) + 1
    return any(v == 2 for v in n.values())


def reads(c, s):
    def init(db):
        def f(w, it, st):
            opened(w, it, st, db=db and ('db', 'd'))
            it.store(st, ai.P(argobj(4), 0), rocks.tok(('old',)), 8)
        return f

    def res(p):
        return p.w.text(p.it, p.st, ai.P(argobj(4), 0))
    K = {2: KA, 3: KB}
    ps = [p for p in s.run(S + 'Read', init(True), K) if not iskeyend(p)]
    j = Judge(c, 'Read', ps)
    j.all('looks the key up once, in this branch', lambda p: p.ev == (('Get', ('Get', 0), ('db', 'd'), ('cf', 'c'), KEY),))
    j.some('there are rows', lambda p: p.codes.get(('Get', 0)) == 0)
    j.some('there are missing rows', lambda p: p.codes.get(('Get', 0)) == 1)
    j.all('a row is returned as it is', lambda p: p.codes.get(('Get', 0)) != 0 or p.out == ('S', 'OK') and res(p) == ('row', 0))
    j.all('a missing row reads as an empty frame', lambda p: p.codes.get(('Get', 0)) != 1 or p.out == ('S', 'OK') and res(p) == ('lit', ''))
    j.all('any other failure is reported, with nothing read', lambda p: p.codes.get(('Get', 0)) in (0, 1) or err(p.out) and res(p) == ('lit', ''))
    j = Judge(c, 'Read of the end marker', s.run(S + 'Read', init(True), {2: EA, 3: EB}))
    j.all('empty', lambda p: p.out == ('S', 'OK') and not p.ev and res(p) == ('lit', ''))
    j = Judge(c, 'Read, closed', s.run(S + 'Read', init(False), K))
    j.all('refused, with nothing read', lambda p: err(p.out) and not p.ev and res(p) != ('row', 0))


def field(p, o, n):
    return p.w.ptr(p.it, p.st, ai.P(o, p.w.off[n]))


NULLO = ai.NULL.o


def isnil(p):
    """the path where the (symbolic) id is nil"""
    z = {unlab(x) for t, q in p.cs if q and isinstance(t, tuple) and t[:1] == ('eq',) and ('c', 0) in [unlab(y) for y in t[1:]] for x in t[1:]}
    return {('in', 'id.o'), ('in', 'id.v')} <= z


def lifecycle(c, s):
    def init(db, cf=True):
        return lambda w, it, st: opened(w, it, st, db=db and ('db', 'd'), cf=db and cf and ('cf', 'c'))
    now = argobj(1)
    # -- Close
    j = Judge(c, 'Close', s.run(S + 'Close', init(True)))
    j.all('the store is closed', lambda p: p.out == ('S', 'OK') and field(p, now, 'db') == NULLO and field(p, now, 'cf') == NULLO)
    j = Judge(c, 'Close, closed', s.run(S + 'Close', init(False)))
    j.all('refused', lambda p: err(p.out))
    # -- Drop
    j = Judge(c, 'Drop', s.run(S + 'Drop', init(True)))
    j.all('drops this branch', lambda p: p.ev == (('DropColumnFamily', ('DropColumnFamily', 0), ('db', 'd'), ('cf', 'c')),))
    j.all('reports what the database says', result)
    j.all('a dropped branch is closed', lambda p: p.out != ('S', 'OK') or field(p, now, 'db') == NULLO)
    j = Judge(c, 'Drop, closed', s.run(S + 'Drop', init(False)))
    j.all('refused', lambda p: err(p.out) and not p.ev)
    # -- Open
    op = ('Open', 'OpenAll')
    Z = {2: ai.const(64, 0), 3: ai.const(64, 0)}
    j = Judge(c, 'Open', s.run(S + r'Open\(', init(False), Z))
    j.all('opens the store\'s directory with the merge rule installed', lambda p: len(p.ev) == 1 and p.ev[0][0] == 'Open' and p.ev[0][2][0] == 'global'
          and p.ev[0][2][1].startswith(DIR) and p.ev[0][3] is True and p.ev[0][4] == 0)
    j.all('reports what the database says', result)
    j.all('an opened store reads and writes the default branch', lambda p: p.out != ('S', 'OK') or
          field(p, now, 'db') == ('db', 'new') and field(p, now, 'cf') == ('cf', 'default'))
    j.all('a store that failed to open stays closed', lambda p: p.out == ('S', 'OK') or field(p, now, 'db') == NULLO)
    j = Judge(c, 'Open, open', s.run(S + r'Open\(', init(True), Z))
    j.all('refused', lambda p: err(p.out) and not p.ev and field(p, now, 'db') == ('db', 'd'))
    # -- Create
    for isopen in (False, True):
        with c.trying():
            for nil in (True, False):
                U = Z if nil else {2: ai.lab(64, ('in', 'id.o')), 3: ai.lab(64, ('in', 'id.v'))}
                ps = s.run(S + r'Create\(', init(isopen, False), U)
                if not nil:
                    ps = [p for p in ps if not isnil(p)]
                name = 'Create of %s branch, %s' % ('the default' if nil else 'a named', 'open' if isopen else 'closed')
                j = Judge(c, name, ps)
                db = ('db', 'd') if isopen else ('db', 'new')
                seq = ([] if isopen else ['Open']) + ([] if nil else ['CreateColumnFamily']) + ['Merge']

                def right(p):
                    if [e[0] for e in p.ev] != seq[:len(p.ev)]:
                        return False
                    if len(p.ev) < len(seq) and not (p.ev and p.codes.get(p.ev[-1][1], 0) is None):
                        return False      # stops on errors only
                    for e in p.ev:
                        if e[0] == 'Open' and not (e[2][0] == 'global' and e[2][1].startswith(DIR) and e[3] is True and e[4] == 1):
                            return False
                        if e[0] == 'CreateColumnFamily' and e[2:] != (db, True, ('uuidtext', U[2], U[3])):
                            return False
                        if e[0] == 'Merge' and e[2:5] != (db, ('cf', 'default' if nil else 'created'), words(ai.const(64, 0), ai.const(64, 0))):
                            return False
                    return True
                j.all('opens or reuses the database, makes the branch with the merge rule and its zero row', right)
                j.all('reports what the database says', result)
                j.some('succeeds', lambda p: p.out == ('S', 'OK'))
                j.all('the store works on the created branch', lambda p: p.out != ('S', 'OK') or
                      field(p, now, 'db') == db and field(p, now, 'cf') == ('cf', 'default' if nil else 'created'))
    # -- OpenAll, Repair
    for n in range(0, 4):
        with c.trying():
            fams = tuple((('cfname', i), True) for i in range(n))

            ps = s.run(S + 'OpenAll', lambda w, it, st: None, families=n)
            j = Judge(c, 'OpenAll of %d branches' % n, ps)

            def all_(p):
                e = p.ev
                k = [x[0] for x in e]
                if k[:1] != ['List'] or not e[0][2][1].startswith(DIR):
                    return False
                if p.codes.get(('List', 0)) is None:
                    return k == ['List']
                if k[1:2] != ['OpenAll'] or not e[1][2][1].startswith(DIR) or e[1][3] != fams:
                    return False
                if p.codes.get(('Open', 0)) is None:
                    return len(k) == 2
                return True
            j.all('opens every listed branch with the merge rule installed', all_)
            j.all('reports what the database says', result)

            def brs(p):
                if p.out != ('S', 'OK'):
                    return not any(e[0] == 'branch' for e in p.ev)
                b = [e for e in p.ev if e[0] == 'branch']
                if p.ev[2:3] != (('clear',),) or len(b) != n or len(p.ev) != n + 3:
                    return False
                for i, e in enumerate(b):
                    q = streq(p, ('cfname', i))
                    if q is None or e[2:] != (('db', 'all'), ('cf', ('cfname', i))):
                        return False
                    want = (ai.const(64, 0),) * 2 if q else (ai.lab(64, ('uuid.o', ('cfname', i))), ai.lab(64, ('uuid.v', ('cfname', i))))
                    if e[1] != want:
                        return False
                return True
            j.all('hands out one store per branch under its id, and none on a failure', brs)
            ps = s.run(S + 'Repair', lambda w, it, st: None, families=n)
            j = Judge(c, 'Repair of %d branches' % n, ps)

            def rep(p):
                e = p.ev
                k = [x[0] for x in e]
                if k[:1] != ['List'] or not e[0][2][1].startswith(DIR):
                    return False
                if p.codes.get(('List', 0)) is None:
                    return k == ['List']
                return k[1:] == ['Repair'] and e[1][2][1].startswith(DIR) and e[1][3] == fams
            j.all('repairs every listed branch with the merge rule installed', rep)
            j.all('reports what the database says', result)


def streq(p, t):
    for x, q in p.cs:
        if isinstance(x, tuple) and x[:1] == ('streq',) and t in x[1:]:
            if any(isinstance(y, tuple) and y[:1] == ('global',) and 'kDefaultColumnFamilyName' in str(y) for y in x[1:]):
                return q
    return None


def iterator(c, s):
    now = argobj(1)

    def init(i, at=1):
        return lambda w, it, st: it.store(st, ai.P(argobj(at), w.off['it']), ai.P(('it', 'i'), 0) if i else ai.NULL, 8)

    def made(p):
        return p.w.ptr(p.it, p.st, ai.P(argobj(0), p.w.off['it']))
    j = Judge(c, 'Iterator', s.run(S + 'Iterator::Iterator', lambda w, it, st: opened(w, it, st)))
    j.all('iterates this branch', lambda p: p.ev == (('NewIterator', ('db', 'd'), ('cf', 'c')),) and made(p) == ('it', 'new'))
    j = Judge(c, 'Iterator of a closed store', s.run(S + 'Iterator::Iterator', lambda w, it, st: opened(w, it, st, db=None, cf=None)))
    j.all('is closed', lambda p: not p.ev and made(p) == NULLO)
    V0, V1 = ('valid', 0), ('valid', 1)

    def val(p, t):
        for x, q in p.cs:
            if x == t:
                return q
        return None
    row = [ai.lab(64, ('in', 'row.a')), ai.lab(64, ('in', 'row.b'))]

    def withrow(open_, at):
        def f(w, it, st):
            init(open_, at)(w, it, st)
            for i in (0, 1):
                it.store(st, ai.P(('rowkey', 0), 8 * i), row[i], 8)
        return f
    none = ('lit', '')
    for what, at in (('key', 0), ('value', 1)):
        with c.trying():
            for op in (True, False):
                ps = s.run(S + 'Iterator::%s\\(' % what, withrow(op, at))
                j = Judge(c, 'Iterator::%s%s' % (what, '' if op else ', closed'), ps)

                def got(p):
                    at_row = op and val(p, V0) is True
                    if not at_row and (op and val(p, V0) is not False):
                        return False
                    if what == 'value':
                        return p.w.text(p.it, p.st, ai.P(argobj(0), 0)) == (('value', 0) if at_row else none)
                    if isinstance(p.rv, ai.A):
                        f = p.rv.f
                        return [x.b for x in f] == [ai.bswap(x).b for x in row] if at_row else [x.b for x in f] == [EA.b, EB.b]
                    return False
                j.all('the current row, or the end', got)
    # Next
    j = Judge(c, 'Iterator::Next', s.run(S + 'Iterator::Next', init(True)))
    j.all('moves on by one row', lambda p: [e for e in p.ev if e[0] != 'status'] == [('Next', ('it', 'i'))])

    def moved(p, atend):
        # a row is there only if nothing failed; with no row, the status tells an error from the end
        k, v = p.codes.get(('status', 0), 'unknown'), val(p, V1)
        if v is True:
            return k is None or p.out == ('S', 'OK')
        if k is None:
            return err(p.out)
        if k != 0:
            return False
        return p.out == ('S', 'OK') if atend == 'OK' else v is False and p.out == ('S', atend)

    def nxt(p):
        return moved(p, 'ENDOFINPUT')
    j.all('a database error is reported, the end is told from a row', nxt)
    j = Judge(c, 'Iterator::Next, closed', s.run(S + 'Iterator::Next', init(False)))
    j.all('refused', lambda p: err(p.out) and not p.ev)
    # SeekTo
    for prev in (0, 1):
        with c.trying():
            K = {2: KA, 3: KB, 4: ai.const(1, prev)}
            j = Judge(c, 'Iterator::SeekTo%s' % (', or before' if prev else ''), s.run(S + 'Iterator::SeekTo', init(True), K))
            j.all('seeks the key%s' % (' or the one before' if prev else ' or the one after'),
                  lambda p: [e for e in p.ev if e[0] != 'status'] == [('SeekForPrev' if prev else 'Seek', ('it', 'i'), KEY)])
            j.all('a database error is reported', lambda p: moved(p, 'OK'))
            j = Judge(c, 'Iterator::SeekTo, closed', s.run(S + 'Iterator::SeekTo', init(False), K))
            j.all('refused', lambda p: err(p.out) and not p.ev)
    j = Judge(c, 'Iterator::Close', s.run(S + r'Iterator::Close', init(True)))
    j.all('is closed', lambda p: p.out == ('S', 'OK') and p.w.ptr(p.it, p.st, ai.P(now, p.w.off['it'])) == NULLO)


def merges(c, s):
    """the merge operator: what the database calls to fold changes into rows"""
    def slice_(it, st, at, t, n=None):
        it.store(st, at, rocks.tok(t), 8)
        it.store(st, ai.P(at.o, at.off + 8), n or ai.lab(64, ('len', t)), 8)

    def opers(it, st, at, n):
        for i in range(n):
            slice_(it, st, ai.P(('ops',), 16 * i), ('op', i))
        vecs.put(it, st, at, ai.P(('ops',), 0), ai.P(('ops',), 16 * n))

    def key(it, st, at):
        it.store(st, ai.P(('dbkey',), 0), KA, 8)
        it.store(st, ai.P(('dbkey',), 8), KB, 8)
        it.store(st, at, ai.P(('dbkey',), 0), 8)
        it.store(st, ai.P(at.o, at.off + 8), ai.const(64, 16), 8)

    def full(n, ex):
        def f(w, it, st):
            i, o = argobj(1), argobj(2)
            it.store(st, ai.P(i, w.off['mkey']), ai.P(('key',), 0), 8)
            key(it, st, ai.P(('key',), 0))
            it.store(st, ai.P(i, w.off['mex']), ai.P(('heap', 'row'), 0) if ex else ai.NULL, 8)
            slice_(it, st, ai.P(('heap', 'row'), 0), ('row',))
            it.store(st, ai.P(i, w.off['mops']), ai.P(('oplist',), 0), 8)
            opers(it, st, ai.P(('oplist',), 0), n)
            it.store(st, ai.P(o, w.off['mout']), ai.P(('out',), 0), 8)
            it.store(st, ai.P(('out',), 0), rocks.tok(('before',)), 8)
        return f

    def part(n):
        def f(w, it, st):
            key(it, st, ai.P(argobj(1), 0))
            opers(it, st, ai.P(argobj(2), 0), n)
            it.store(st, ai.P(argobj(3), 0), rocks.tok(('before',)), 8)
        return f
    # the reducer's number is the first byte of the stored key (the key's coding is P03's)
    form = KA

    def judge(name, fn, init, want, out):
        ps = []
        for p in s.run(fn, init):
            p.out = p.w.text(p.it, p.st, out)
            p.good = {t[1]: q for t, q in [(x[1], q) for x, q in p.cs if isinstance(x, tuple) and x[:1] == ('okst',)] if t[0] == 'next' and t[2] == 0}
            p.ok = [q for x, q in p.cs if x == ('okst', ('reduce', 0))]
            ps.append(p)
        j = Judge(c, name, ps)

        def red(p):
            r = [e for e in p.ev if e[0] == 'reduce']
            n = [e for e in p.ev if e[0] == 'next']
            if len(r) != 1 or r[0] != p.ev[-1] or [e[1:] for e in n] != [(t, 0) for t in want] or set(p.good) != set(want):
                return False
            f = r[0][1]
            return r[0][2] == tuple((t, 1) for t in want if p.good[t]) and r[0][3] == ('lit', '') and \
                isinstance(f, ai.V) and f.b[:8] == form.b[:8] and f.b[8:] == ai.const(len(f.b) - 8, 0).b
        j.all('reduces every readable input once, in order, by the rule the key names', red)

        def res(p):
            v = p.rv.const() if isinstance(p.rv, ai.V) else None
            if v is None and isinstance(p.rv, ai.V) and p.rv.b[:1] == ai.lab(1, ('okst', ('reduce', 0))).b and p.ok:
                v = int(p.ok[0])
            return len(p.ok) > 0 and all(p.ok) == any(p.ok) and v == int(p.ok[0]) and (p.out == ('merged', 0) if p.ok[0] else p.out == ('before',))
        j.all('stores the reduced text, and fails when reduction fails', res)
    for n in range(0, 4):
        with c.trying():
            for ex in (False, True):
                judge('FullMergeV2 of %d changes%s' % (n, ' into a row' if ex else ''), M + 'FullMergeV2', full(n, ex),
                      ([('row',)] if ex else []) + [('op', i) for i in range(n)], ai.P(('out',), 0))
            judge('PartialMergeMulti of %d changes' % n, M + 'PartialMergeMulti', part(n), [('op', i) for i in range(n)], ai.P(argobj(3), 0))


def check(c):
    m = module(c)
    s = Store(c, m)
    c.rule('every outcome of every database call is followed: unknown statuses, unknown row contents, unknown keys')
    c.part(writes, c, s)
    c.part(reads, c, s)
    c.part(lifecycle, c, s)
    c.part(iterator, c, s)
    c.part(merges, c, s)
