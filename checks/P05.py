"""Form and mapper identifiers: persisted one-byte codes and name UUIDs are
fixed, mutually inverse, and the lookups are total."""
import absint as ai
import vlib
import order
from vlib import argobj, showbits

MINOBS = 300
F = 'ron/form.hpp'
D = 'db/const.hpp'
FORMS = ['zero', 'yarn', 'log', 'tail', 'patch', 'span', 'chain', 'graph', 'meta', 'prev', 'obj', 'sha3',
         'vv', 'lww', 'rga', 'mx', 'json', 'csv', 'txt', 'max']
MAPS = ['chain', 'meta', 'op', 'yarn', 'sha2', 'prev', 'head', 'obj', 'csv', 'txt', 'json']
B64 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~"
MAXV = (1 << 60) - 1


def name(s):
    n = 0
    for i in range(10):
        n = n << 6 | (B64.index(s[i]) if i < len(s) else 0)
    return n


def check(c):
    c.level = 'proof'
    c.rule('the persisted form codes are append-only: the code of each form name is pinned; tables and '
           'lookups are read from the IR for every one of the 256 codes')
    m = c.ir([vlib.VERIF + '/harness/P05.cc', 'ron/uuid.cc'],
             ['^h_', '_GLOBAL__sub_I_P05', '_GLOBAL__sub_I_uuid'],
             inline=['ron::', '^__cxx_global', '^std::pair', 'std::initializer_list'],
             keep=['^ron::Uuid::Uuid.ron::Slice', 'std::.*unordered_map'])
    init = vlib.static_init(m, 'sub_I')

    def rets(nm, **kw):
        it = ai.walk(c.fn(m, '^%s$' % nm), m, init=init, **kw)
        c.need(it.rets, nm)
        return list(it.rets.values())

    def pair(st):
        return (ai.V(64, vlib.bits_of(st, argobj(1), 0, 8)).const(), ai.V(64, vlib.bits_of(st, argobj(1), 8, 8)).const())
    # persisted numeric codes
    codes = list(range(20)) + [200, 255]
    for i, w in enumerate(codes):
        with c.trying():
            for rv, st in rets('h_enum', argvals={0: ai.const(32, i)}):
                c.ob('code of form %s' % ((FORMS + ['(reserved)', '(error)'])[i]), rv.const() == w, repr(rv), F)
    # name UUID constants
    for i, n in enumerate(FORMS):
        with c.trying():
            for rv, st in rets('h_names', argvals={0: ai.const(32, i)}):
                c.need(isinstance(rv, ai.P) and rv.o[0] == 'g', 'form UUID %d' % i)
                o = ai.V(64, vlib.bits_of(st, rv.o, rv.off, 8)).const()
                v = ai.V(64, vlib.bits_of(st, rv.o, rv.off + 8, 8)).const()
                c.ob('name UUID of form %s' % n, (v, o) == (name(n), 0), '%r' % ((v, o),), F)
    # code -> UUID, every code
    for i in range(256):
        with c.trying():
            for rv, st in rets('h_form2uuid', argvals={0: ai.const(8, i)}):
                got = pair(st)
                want = (name(FORMS[i]), 0) if i < 20 else (MAXV, MAXV)
                c.ob('form2uuid(%d)' % i, got == want, 'got %r want %r%s' % (
                    got, want, '' if None not in got else ' (reads outside the table?)'), F)
    # UUID -> code: the association list the table is built from
    f = c.fn(m, '_GLOBAL__sub_I_P05')
    it = ai.walk(f, m)
    cs = it.calls(lambda d: 'unordered_map<ron::Uuid, ron::FORM' in d and '::unordered_map(' in d)
    c.need(len(cs) == 1, 'construction of the UUID to form table')
    for key, I, args, st, pos in cs:
        with c.trying():
            ptrs = [a for a in args if isinstance(a, ai.P) and a.o[0] in ('al', 'g')]
            n = [a.const() for a in args if isinstance(a, ai.V) and a.w == 64 and a.const() is not None]
            c.need(len(n) >= 1, 'length of the initialiser')
            src = [p for p in ptrs if isinstance(p.off, int) and st.mem.get(p.o) and p.off in st.mem[p.o]]
            c.need(src, 'initialiser of the UUID to form table')
            p = src[0]
            tab = {}
            glob = {o: cells for o, cells in init.mem.items()}
            for i in range(n[0]):
                o, v = (ai.V(64, vlib.bits_of(st, p.o, p.off + 24 * i + q, 8)).const() for q in (0, 8))
                fm = ai.V(8, vlib.bits_of(st, p.o, p.off + 24 * i + 16, 1)).const()
                c.ob('UUID to form entry %d is a constant of this translation unit' % i, None not in (o, v, fm),
                     'value depends on another initialiser', F)
                tab[(v, o)] = fm
            for i, nm in enumerate(FORMS):
                c.ob('UUID to form: %s' % nm, tab.get((name(nm), 0)) == i, repr(tab.get((name(nm), 0))), F)
            c.ob('UUID to form: error', tab.get((MAXV, MAXV)) == 255, '', F)
            c.ob('UUID to form: nothing else', len(tab) == 21, '%d entries' % len(tab), F)
    # lookup: found entry's code, otherwise the zero form

    def lookup(hit):
        def model(it, I, cd, args, st, ctx):
            if 'unordered_map<ron::Uuid' not in cd.split('(')[0]:
                return NotImplemented
            if '::find(' in cd:
                return ai.P(('it', 'found' if hit else 'end'), 0)
            if '::end(' in cd or '::cend(' in cd:
                return ai.P(('it', 'end'), 0)
            if '::begin(' in cd or '::cbegin(' in cd:
                return ai.P(('it', 'first'), 0)
            if '::count(' in cd or '::contains(' in cd:
                return ai.const(I['w'], int(hit))
            if '::at(' in cd:
                return ai.P(('it', 'found' if hit else 'end'), 24)
            return NotImplemented
        return model
    for hit in (True, False):
        with c.trying():
            it = ai.walk(c.fn(m, '^h_uuid2form$'), m, init=init, model=lookup(hit), track=True)
            for key, I, args, st, pos in it.calls(lambda d: 'unordered_map<ron::Uuid' in d and ('::find(' in d or '::at(' in d or '::count(' in d)):
                q = [a for a in args[1:] if isinstance(a, ai.P)]
                c.need(q, 'lookup key')
                o = vlib.bits_of(st, q[0].o, q[0].off, 8)
                v = vlib.bits_of(st, q[0].o, q[0].off + 8, 8)
                c.ob('uuid2form looks up the whole UUID', list(v) == vlib.arg(0) and list(o) == vlib.arg(1),
                     showbits(v) + showbits(o), vlib.where(I))
            c.need(it.rets, 'outcomes of uuid2form')
            for (ctx, b), (rv, st) in it.rets.items():
                if not hit:
                    c.ob('uuid2form: unknown names give the zero form', rv.const() == 0, repr(rv), F)
                    continue
                l = rv.b[0][0] if isinstance(rv.b[0], tuple) else None
                c.ob('uuid2form: known names give the entry', l is not None and l.t[0] == 'm' and
                     l.t[1:3] == (('it', 'found'), 24) and list(rv.b) == [(l, i) for i in range(8)], repr(rv), F)
    # mappers
    for i in range(12):
        with c.trying():
            for rv, st in rets('h_map2uuid', argvals={0: ai.const(8, i)}):
                want = (name(MAPS[i]), 0) if i < 11 else (MAXV, MAXV)
                c.ob('map2uuid(%d)' % i, pair(st) == want, '%r want %r' % (pair(st), want), D)
    for i, nm in enumerate(MAPS):
        with c.trying():
            for rv, st in rets('h_uuid2map', argvals={0: ai.const(64, name(nm)), 1: ai.const(64, 0)}):
                c.ob('uuid2map(%s)' % nm, rv.const() == i, repr(rv), D)
            for o in (1, 1 << 60, MAXV):
                for rv, st in rets('h_uuid2map', argvals={0: ai.const(64, name(nm)), 1: ai.const(64, o)}):
                    c.ob('uuid2map(%s with origin %x)' % (nm, o), rv.const() == 11, repr(rv), D)
    # anything that is not one of the names is unknown
    it = ai.walk(c.fn(m, '^h_uuid2map$'), m, init=init, track=True)
    v, o = ai.Label(('in', 'a0'), 64), ai.Label(('in', 'a1'), 64)
    n = 0
    for (ctx, b), (rv, st) in it.rets.items():
        with c.trying():
            for vm, om in ((False, False), (False, True), (True, False)):
                def extra(od, t, vm=vm, om=om):
                    if t[0] == 'eq' and v in t[1:]:
                        return vm
                    if t[0] == 'eq' and o in t[1:]:
                        return om
                    return None
                od = order.Order({}, extra=extra)
                got = evsel(od, rv)
                n += 1
                c.ob('uuid2map: not a mapper name (exit %d, value match %s, origin match %s)' % (n, vm, om),
                     got == 11 or contradiction(ctx, v, o, vm, om), '%r -> %r' % (rv, got), D)


def contradiction(ctx, v, o, vm, om):
    for e in ctx:
        if e[0] == '?' and e[1][0] == 'eq':
            if v in e[1][1:] and e[2] != vm or o in e[1][1:] and e[2] != om:
                return True
    return False


def evsel(od, rv):
    """constant value of a select tree under the ordering"""
    k = rv.const()
    if k is not None:
        return k
    out = 0
    for i, x in enumerate(rv.b):
        if x in (0, 1):
            out |= x << i
            continue
        l, j = x
        t = l.t
        while t[0] == 'sel':
            try:
                q = od.ev(t[1])
            except order.Unknown:
                return None
            t = t[2] if q else t[3]
            if isinstance(t, ai.Label):
                t = t.t
        if t[0] != 'c':
            return None
        out |= ((t[1] >> j) & 1) << i
    return out
