"""Automata of scanners.  A scanner function is unrolled into a transducer: a
state is a program point about to read the next byte, with the abstract values
live there; a transition is a set of bytes, the effects on the way to the next
read and the predicates asked.  The transducer is walked together with a
reference one; a joint state keeps only which values of the scanner agree with
which registers of the reference, so there are finitely many and every input
of every length is covered.  Nothing is executed and no solver is asked."""
import re
from collections import deque
import absint as ai
import tab
import vlib

TEXT = ('text',)
END = ('end',)
STALE = ('stale',)
PTRS = {'text', 'mark', 'stale', 'end', 'buf'}
CH = ai.lab(8, ('ch', 0))


# labels made of other values (all others are values of their own)
DERIVED = tab.OPS | {'sl', 'nil', 'size', 'word', 'abc', 'peq', 'plt', 'intbig', 'term', 'hex', 'esc', 'zext', 'sext'}


class Stale(Exception):
    pass


class Mismatch(Exception):
    pass


def mapterm(t, f):
    """t with f applied to every P and Label (f returns a replacement, or None
    to go into the parts of a label)"""
    if isinstance(t, ai.P):
        r = f(t)
        if r is not None:
            return r
        return ai.P(mapterm(t.o, f), mapterm(t.off, f))
    if isinstance(t, ai.Label):
        r = f(t)
        if r is not None:
            return r
        return ai.Label(mapterm(t.t, f), t.w)
    if isinstance(t, ai.V):
        r = f(t)
        if r is not None:
            return r
        m = {}
        out = []
        for b in t.b:
            if isinstance(b, tuple):
                l = b[0]
                if l not in m:
                    m[l] = mapterm(l, f)
                x = m[l]
                if isinstance(x, ai.V):
                    out.append(x.b[b[1]])
                else:
                    out.append((x, b[1]))
            else:
                out.append(b)
        return ai.V(t.w, out)
    if isinstance(t, ai.A):
        return ai.A([mapterm(x, f) for x in t.f])
    if isinstance(t, tuple):
        return tuple(mapterm(x, f) for x in t)
    return t


def shift(t, k=1):
    """t as seen from k bytes further"""
    def f(x):
        if isinstance(x, ai.P) and x.o == TEXT and isinstance(x.off, int):
            return ai.P(TEXT, x.off - k)
        if isinstance(x, ai.Label) and x.t[0] == 'ch':
            return ai.Label(('ch', x.t[1] - k), x.w)
        if isinstance(x, ai.Label) and x.t[0] == 'p2i' and x.t[1] == TEXT:
            return ai.Label(('p2i', TEXT, x.t[2] - k), x.w)
    return mapterm(t, f)


def lownibble(v, st):
    """the value of the digit read is the low half of the byte, however it was computed"""
    l = CH.label()
    iv = st.facts.get(l)
    if iv is None or iv[0][0] < 48 or iv[-1][1] > 57 or tab.leaves(v) != {l}:
        return v
    dom = [x for a, b in iv for x in range(a, b + 1)]
    try:
        t = tab.table(v, l, dom)
    except tab.NoTab:
        return v
    if all(int(a) == b & 15 for a, b in zip(t, dom)):
        return ai.V(v.w, (list(CH.b[:4]) + [0] * v.w)[:v.w])
    return v


class Scanner(ai.Interp):
    """explores a scanner function one byte at a time"""

    def __init__(self, fn, mod, model, init=None, argvals=None, ask=None):
        super().__init__(fn, mod, model=model, loadhook=hook, argvals=argvals)
        self.bcs = {b['id']: b['ins'] for b in fn['blocks']}
        self.livecache, self.memcache = {}, {}
        self.live = self.liveness(fn)
        self.memlive(fn)
        for k, (r, o) in self.lroot.items():     # locals are constants
            if o is not None:
                self.args[k] = ai.P(('al', r), o)
        self.init = init
        self.ask = ask        # decides a condition from its terms, or None
        self.steps = 0
        self.sized = {'size', 'reg'}     # kinds of labels that carry a range

    def step_inst(self, I, st, ctx):
        if I['op'] == 'icmp':
            a, b = self.val(I['ops'][0], st), self.val(I['ops'][1], st)
            if isinstance(a, ai.P) and isinstance(b, ai.P):
                if STALE in (a.o, b.o) and ai.NULL not in (a, b):
                    return ai.lab(1, ('b', ('stalecmp', I['id'])))
                if ai.NULL in (a, b) and a != b and I['pred'] in ('eq', 'ne') and {a.o[0], b.o[0]} & PTRS:
                    return ai.const(1, int(I['pred'] == 'ne'))
        if I['op'] == 'store' and self.onstore:
            v = self.val(I['ops'][0], st, I['size'] * 8)
            p = self.val(I['ops'][1], st)
            if isinstance(p, ai.P) and self.onstore(st, p, v, I['size'], I):
                return None
        r = super().step_inst(I, st, ctx)
        if I['op'] in ('add', 'sub', 'and', 'xor', 'or') and isinstance(r, ai.V) and r.w > 1 and r.const() is None:
            r = lownibble(r, st)
        return r

    def memcpy(self, st, d, s, n):
        super().memcpy(st, d, s, n)
        if self.oncopy and isinstance(d, ai.P):
            self.oncopy(st, d, n)

    onstore = oncopy = None

    # -- liveness of SSA values ------------------------------------------
    @staticmethod
    def uses(I):
        out = []

        def go(o):
            if isinstance(o, dict):
                if 'v' in o and len(o) <= 3 and not isinstance(o['v'], (dict, list)):
                    out.append(o['v'])
                for v in o.values():
                    go(v)
            elif isinstance(o, (list, tuple)):
                for v in o:
                    go(v)
        for k in ('ops', 'cond', 'base', 'var'):
            if k in I:
                go(I[k])
        return out

    def liveness(self, fn):
        succ, use, dfn, phiuse = {}, {}, {}, {}
        for b in fn['blocks']:
            u, d = set(), set()
            phis = {}
            for I in b['ins']:
                if I['op'] == 'phi':
                    for pb, o in I['ops']:
                        if 'v' in o:
                            phis.setdefault(pb, set()).add(o['v'])
                    d.add(I['id'])
                    continue
                for x in self.uses(I):
                    if x not in d:
                        u.add(x)
                d.add(I['id'])
            t = b['ins'][-1]
            s = list(t.get('succ', ()))
            if t['op'] == 'switch':
                s = [x for _, x in t['cases']] + [t['default']]
            succ[b['id']], use[b['id']], dfn[b['id']], phiuse[b['id']] = s, u, d, phis
        inn = {b: set() for b in succ}
        go = True
        while go:
            go = False
            for b in reversed(list(succ)):
                out = set()
                for s in succ[b]:
                    out |= inn[s]
                    out |= phiuse[s].get(b, set())
                n = use[b] | (out - dfn[b])
                if n != inn[b]:
                    inn[b] = n
                    go = True
        self.liveout = {}
        for b in succ:
            out = set()
            for s in succ[b]:
                out |= inn[s] | phiuse[s].get(b, set())
            self.liveout[b] = out
        return inn

    # -- liveness of locals in memory, by units of 4 bytes -----------------
    CTOR = re.compile(r'^ron::(Slice|Range|Word|Atom|Uuid)::(Slice|Range|Word|Atom|Uuid)\(')

    def locals(self, fn):
        size, root, wild = {}, {}, set()
        for b in fn['blocks']:
            for I in b['ins']:
                if I['op'] == 'alloca':
                    size[I['id']] = max(1, I.get('size') or 1)
                    root[I['id']] = (I['id'], 0)
        go = True
        while go:
            go = False
            for b in fn['blocks']:
                for I in b['ins']:
                    if I['op'] == 'getelementptr' and 'base' in I and I['base'].get('v') in root and I['id'] not in root:
                        r, o = root[I['base']['v']]
                        root[I['id']] = (r, o + I['off'] if o is not None and not I['var'] else None)
                        go = True
        self.lsize, self.lroot = size, root

        def units(r, lo, hi):
            """units whole in the bytes lo..hi"""
            n = size[r]
            return {(r, u) for u in range((n + 3) // 4) if lo <= 4 * u and min(4 * u + 4, n) <= hi}

        def touch(r, lo, hi):
            return {(r, u) for u in range((size[r] + 3) // 4) if 4 * u < hi and lo < 4 * u + 4}
        eff = {}
        for b in fn['blocks']:
            for I in b['ins']:
                op = I['op']
                if op in ('alloca', 'getelementptr'):
                    continue
                gen, kill = set(), set()
                ps = [(i, o['v']) for i, o in enumerate(I.get('ops', ())) if isinstance(o, dict) and o.get('v') in root]
                if op == 'load' and ps:
                    r, o = root[ps[0][1]]
                    gen = touch(r, o, o + I['size']) if o is not None else touch(r, 0, size[r])
                elif op == 'store' and ps:
                    for i, v in ps:
                        r, o = root[v]
                        if i == 0:
                            wild.add(r)
                        elif o is not None:
                            kill = units(r, o, o + I['size'])
                elif op == 'call':
                    nm = I.get('callee') or ''
                    n = None
                    if nm.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        n = int(I['ops'][2]['c']) if 'c' in I['ops'][2] else None
                    if nm.startswith('llvm.lifetime'):
                        for i, v in ps:
                            kill |= touch(root[v][0], 0, size[root[v][0]])
                    else:
                        ctor = self.CTOR.match(I.get('cd') or '')
                        for i, v in ps:
                            r, o = root[v]
                            if i == 0 and n is not None:
                                if o is not None:
                                    kill |= units(r, o, o + n)
                            elif i == 1 and n is not None and not nm.startswith('llvm.memset'):
                                gen |= touch(r, o, o + n) if o is not None else touch(r, 0, size[r])
                            elif i == 0 and ctor and o is not None and [x for _, x in ps].count(v) == 1:
                                kill |= units(r, o, o + {'Slice': 16, 'Range': 8, 'Word': 8, 'Atom': 16, 'Uuid': 16}[ctor.group(1)])
                            else:
                                gen |= touch(r, 0, size[r])
                else:
                    for q in self.uses(I):
                        if q in root:
                            wild.add(root[q][0])
                if gen or kill:
                    eff[I['id']] = (gen, kill)
        return eff, {u for r in wild for u in touch(r, 0, size[r])}

    def memlive(self, fn):
        self.eff, self.wild = self.locals(fn)
        inn = {b['id']: set() for b in fn['blocks']}
        self.memout = {}
        go = True
        while go:
            go = False
            for b in reversed(fn['blocks']):
                t = b['ins'][-1]
                s = [x for _, x in t['cases']] + [t['default']] if t['op'] == 'switch' else t.get('succ', ())
                out = set()
                for x in s:
                    out |= inn[x]
                self.memout[b['id']] = out
                n = set(out)
                for I in reversed(b['ins']):
                    e = self.eff.get(I['id'])
                    if e:
                        n = (n - e[1]) | e[0]
                if n != inn[b['id']]:
                    inn[b['id']] = n
                    go = True

    def memlive_at(self, b, i):
        k = (b, i)
        if k not in self.memcache:
            self.memcache[k] = self.memlive_at1(b, i)
        return self.memcache[k]

    def memlive_at1(self, b, i):
        n = set(self.memout[b])
        for I in reversed(self.bcs[b][i:]):
            e = self.eff.get(I['id'])
            if e:
                n = (n - e[1]) | e[0]
        return n | self.wild

    def live_at(self, b, i):
        k = (b, i)
        if k not in self.livecache:
            self.livecache[k] = frozenset(self.live_at1(b, i)) - set(self.args)
        return self.livecache[k]

    def live_at1(self, b, i):
        out = set(self.liveout[b])
        for I in reversed(self.bcs[b][i:]):
            out.discard(I['id'])
            if I['op'] != 'phi':
                out |= set(self.uses(I))
        return out

    # -- the end of the text ----------------------------------------------
    def at_end(self, st, off):
        """is there a byte at off? True/False/None"""
        e, a = st.aux.get('end'), st.aux.get('avail', 0)
        if e is not None:
            return off == e if off <= e else None
        if off < a:
            return False
        return None

    def branch(self, c, st, I):
        """[(polarity, state)] of a condition"""
        k = c.const() if isinstance(c, ai.V) else None
        if k is not None:
            return [(bool(k), st)]
        l = c.label() if isinstance(c, ai.V) else None
        if l is None:
            raise vlib.Broken('condition %r at %s' % (c, vlib.where(I)))
        out = []
        for pol in (True, False):
            ss = [st]
            ts = list(ai.conj(l.t, pol))
            for t, p in ts:
                nx = []
                for s in ss:
                    nx += self.assume(s, t, p, I)
                ss = nx
            out += [(pol, s) for s in ss]
        return out

    def assume(self, st, t, pol, I):
        while isinstance(t, ai.Label):
            t = t.t
        while t[0] in ('b', 'not'):
            if t[0] == 'not':
                pol = not pol
            t = t[1]
            while isinstance(t, ai.Label):
                t = t.t
        if t[0] in ('and', 'or'):
            conjy = (t[0] == 'and') == pol
            a = self.assume(st, t[1], pol, I)
            if conjy:
                return [y for x in a for y in self.assume(x, t[2], pol, I)]
            # one of them: split to keep the cases apart
            b = [y for x in self.assume(st, t[1], not pol, I) for y in self.assume(x, t[2], pol, I)]
            return a + b
        if t[0] in ('peq', 'plt'):
            x, y = t[1], t[2]
            if t[0] == 'peq' and {x.o, y.o} == {TEXT, END}:
                off = (x.off - y.off) if x.o == TEXT else (y.off - x.off)
                return self.ends(st, off, pol, I)
            if t[0] == 'plt' and x.o == TEXT and y.o == END:    # x < end+k: there is a byte at x-k
                r = []
                for end, s in self.exists(st, x.off - y.off, I):
                    if (not end) == pol:
                        r.append(s)
                return r
            if t[0] == 'plt' and y.o == TEXT and x.o == END:    # end+k < y: no byte at y-k-1
                return [s for end, s in self.exists(st, y.off - x.off - 1, I) if end == pol]
            # a mark is the place of a byte read before
            for a, b in ((x, y), (y, x)):
                if a.o[0] == 'mark' and isinstance(a.off, int) and a.off <= 0 and b.o in (TEXT, END) and isinstance(b.off, int) and b.off >= 0:
                    r = False if t[0] == 'peq' else a is x
                    return [st] if r == pol else []
            raise vlib.Broken('pointer comparison %r at %s' % (t, vlib.where(I)))
        lv = tab.leaves(t)
        if lv == {CH.label()}:
            return self.byte(st, t, pol, I)
        if t[0] in ('eq', 'ult') and any(isinstance(x, ai.Label) and x.t[0] in self.sized for x in t[1:]):
            r = self.refine1(st, t, pol)
            if r is None:
                return []
            if r is not st:
                return [r]
        if t[0] == 'eq':
            z = self.shifted(t)
            if z is not None and z[1] in st.facts:
                n, l = z
                iv = st.facts[l]
                hit = ai.meet_iv(iv, ((n, n),)) if hasattr(ai, 'meet_iv') else tuple(p for p in ((n, n),) if any(a <= n <= b for a, b in iv))
                if not hit and pol:
                    return []
                if not hit or iv == ((n, n),) and pol:
                    return [st]
        known = dict(st.aux.get('pred', ()))
        if t in known:
            return [st] if known[t] == pol else []
        if self.ask:
            k = self.ask(st, t)
            if k is not None:
                return [st] if k == pol else []
        s = st.copy()
        s.aux['pred'] = s.aux.get('pred', ()) + ((t, pol),)
        return [s]

    def shifted(self, t):
        """(n, label) when t says that a label that carries a range is n"""
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if isinstance(a, tuple) and a[:1] == ('c',) and isinstance(b, ai.Label) and b.t[0] == 'addc':
                co, k = vlib.linear(ai.lab(b.w, b.t), b.w)
                co = list(co)
                if len(co) == 1 and co[0][1] == 1 and isinstance(co[0][0], ai.Label) and co[0][0].t[0] in self.sized:
                    return (a[1] - k) % (1 << b.w), co[0][0]
        return None

    def byte(self, st, t, pol, I):
        """the bytes for which a condition on the byte alone holds"""
        l = CH.label()
        dom = [x for lo, hi in st.facts.get(l, ((0, 255),)) for x in range(lo, hi + 1)]
        try:
            r = tab.table(ai.lab(1, ('b', t)), l, dom)
        except tab.NoTab as e:
            raise vlib.Broken('condition on a byte: %r at %s' % (t, vlib.where(I)))
        iv = ai.union_iv(tuple((x, x) for x, y in zip(dom, r) if bool(y) == pol), ())
        if not iv:
            return []
        s = st.copy()
        s.facts[l] = iv
        return [s]

    def exists(self, st, off, I):
        """[(past the end, state)]: whether the byte at off is past the end"""
        e, a = st.aux.get('end'), st.aux.get('avail', 0)
        if e is not None:
            return [(off >= e, st)]
        if off < a:
            return [(False, st)]
        if off > a:
            raise vlib.Broken('looks %d bytes ahead of the text known to be there, at %s' % (off - a, vlib.where(I)))
        s1, s2 = st.copy(), st.copy()
        s1.aux['end'] = off
        s2.aux['avail'] = off + 1
        return [(True, s1), (False, s2)]

    def ends(self, st, off, pol, I):
        e, a = st.aux.get('end'), st.aux.get('avail', 0)
        if e is not None:
            return [st] if (off == e) == pol else []
        if off < a:
            return [st] if not pol else []
        return [s for end, s in self.exists(st, off, I) if end == pol]

    # -- one step ---------------------------------------------------------
    def explore(self, b, i, st, stop):
        """paths from instruction i of block b to the next read of a byte at
        offset stop, or to the exit: [(b, i, state) or ('exit', value, state)]"""
        out = []
        work = [(b, i, st, 0)]
        while work:
            b, i, st, n = work.pop()
            self.steps += 1
            if n > 400:
                raise vlib.Broken('%s does not read on' % self.fn['d'][:60])
            ins = self.bcs[b]
            dead = False
            while True:
                I = ins[i]
                op = I['op']
                if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                    break
                if op == 'load' and I['ty'] != 'ptr' and stop is not None:
                    p = self.val(I['ops'][0], st)
                    if isinstance(p, ai.P) and p.o == TEXT and p.off == stop:
                        if self.at_end(st, stop) is not False:
                            raise Mismatch('reads past the end of the text at %s' % vlib.where(I))
                        out.append((b, i, st))
                        dead = True
                        break
                if op == 'select':
                    c = self.val(I['ops'][0], st)
                    if isinstance(c, ai.V) and c.const() is None:
                        for pol, s in self.branch(c, st, I):
                            s = s.copy()
                            s.v[I['id']] = self.val(I['ops'][1 if pol else 2], s, I.get('w'))
                            work.append((b, i + 1, s, n + 1))
                        dead = True
                        break
                if I['id'] in self.args:
                    i += 1
                    continue
                v = self.step_inst(I, st, ())
                if op != 'store' and I['ty'] != 'void':
                    if v is None:
                        v = ai.fresh_for(I['ty'], I.get('w') or 0, ('unk', I['id']))
                    st.v[I['id']] = v
                i += 1
            if dead:
                continue
            if op == 'ret':
                ops = I.get('ops', [])
                out.append(('exit', self.val(ops[0], st) if ops else None, st))
                continue
            if op in ('unreachable', 'resume'):
                continue
            if op == 'br' and 'cond' not in I:
                nx = [(I['succ'][0], st)]
            elif op == 'br':
                nx = [(I['succ'][0 if pol else 1], s) for pol, s in self.branch(self.val(I['cond'], st, 1), st, I)]
            else:
                nx = self.switch(I, st)
            for k, (sb, s) in enumerate(nx):
                s = s.copy()
                new = {}
                for J in self.bcs[sb]:
                    if J['op'] != 'phi':
                        break
                    for pb, o in J['ops']:
                        if pb == b:
                            v = self.val(o, s, J.get('w'))
                            new[J['id']] = v if v is not None else ai.fresh_for(J['ty'], J.get('w') or 0, ('undef', J['id']))
                s.v.update(new)
                j = 0
                while self.bcs[sb][j]['op'] == 'phi':
                    j += 1
                work.append((sb, j, s, n + 1))
        return out

    def switch(self, I, st):
        c = self.val(I['cond'], st)
        k = c.const() if isinstance(c, ai.V) else None
        if k is not None:
            for cv, t in I['cases']:
                if int(cv) == k:
                    return [(t, st)]
            return [(I['default'], st)]
        out = {}
        rest = [st]
        for cv, t in I['cases']:
            r = ai.icmp('eq', c, ai.const(c.w, int(cv)))
            if r is False:
                continue
            tm, pol = self.cmp_term('eq', c, ai.const(c.w, int(cv)))
            for s in [y for x in rest for y in self.assume(x, tm, pol, I)]:
                out.setdefault(t, []).append(s)
            rest = [y for x in rest for y in self.assume(x, tm, not pol, I)]
        for s in rest:
            out.setdefault(I['default'], []).append(s)
        res = []
        for t, ss in out.items():
            res += [(t, s) for s in merge(ss)]
        return res


def merge(ss):
    """states that differ in the set of bytes only are one"""
    l = CH.label()
    out = []
    for s in ss:
        for o in out:
            if o.mem == s.mem and o.ep == s.ep and o.aux == s.aux and o.v == s.v and l in o.facts and l in s.facts and \
                    {k: x for k, x in o.facts.items() if k != l} == {k: x for k, x in s.facts.items() if k != l}:
                o.facts[l] = ai.union_iv(o.facts[l], s.facts[l])
                break
        else:
            out.append(s.copy())
    return out


def hook(it, st, p, size, isptr, site):
    if p.o == TEXT and not isptr and size == 1 and isinstance(p.off, int):
        return ai.lab(8, ('ch', p.off))
    if p.o[0] == 'mark' and p.off != 0:
        raise vlib.Broken('reads at a distance from %s' % (p.o[1][0],))
    if p.o[0] in ('mark', 'stale') and not isptr:
        return ai.lab(size * 8, ('stale', p))
    return None


def byteset(st):
    iv = st.facts.get(CH.label(), ((0, 255),))
    return iv


def canonical(regs, counters=(), near=1):
    """the renaming that keeps the values equal to a register; counters also
    keep the values at a small distance"""
    ren = {}
    out = {}
    for n, v in regs.items():
        out[n] = v

        def put(key, x):
            if x is None:
                return None
            if isinstance(x, ai.P):
                if x.o == TEXT and x.off >= -near or x == ai.NULL:
                    return x
                if x not in ren:
                    ren[x] = ai.P(('mark', key), 0)
                return ren[x]
            if isinstance(x, ai.V):
                if x.const() is not None and not (key[0] in counters and x.const() >= 3):
                    return x
                if key[0] in counters:
                    co, c = vlib.linear(x, x.w)
                    ren.setdefault(('lin', x.w, co), (c, ai.Label(('reg', key), x.w)))
                    return ai.lab(x.w, ('reg', key))
                if x not in ren:
                    ren[x] = ai.lab(x.w, ('reg', key))
                return ren[x]
            if isinstance(x, tuple):
                return tuple(put(key + (i,), y) for i, y in enumerate(x))
            return x
        out[n] = put((n,), v)
    return ren, out


def renamer(ren, near=1):
    byl = {}
    cnt = {k[1]: {} for k in ren if isinstance(k, tuple)}
    for k, v in ren.items():
        if isinstance(k, tuple):
            cnt[k[1]][k[2]] = v
        if isinstance(k, ai.V):
            l = k.label()
            if l is not None and l.w == k.w:
                byl[l] = v.label()

    def f(x):
        if isinstance(x, ai.V):
            r = ren.get(x)
            if r is None and x.w in cnt and ai.T not in x.b:
                co, c = vlib.linear(x, x.w)
                if co in cnt[x.w]:
                    c0, l = cnt[x.w][co]
                    d = (c - c0) % (1 << x.w)
                    d = d - (1 << x.w) if d >> (x.w - 1) else d
                    if co or abs(d) <= 1:
                        base = ai.V(x.w, [(l, i) for i in range(x.w)])
                        return ai.binop('add', base, ai.const(x.w, d)) if d else base
            return r
        if isinstance(x, ai.P):
            if x in ren:
                return ren[x]
            if x.o == TEXT:
                if isinstance(x.off, int) and x.off >= -near:
                    return x
                raise Stale()
            if x.o[0] in ('mark', 'stale', 'U', 'P', 'phiP', 'phiX'):
                raise Stale()
            return None
        if isinstance(x, ai.Label):
            if x in byl:
                return byl[x]
            h = x.t[0]
            if h == 'ch':
                if x.t[1] >= -near:
                    return x
                raise Stale()
            if h == 'p2i':
                q = f(ai.P(x.t[1], x.t[2]))
                return x if q is None else ai.Label(('p2i', q.o, q.off), x.w)
            if h in DERIVED:
                return None
            raise Stale()
    return f


def lost(p):
    return ai.P(STALE if p.o[0] in PTRS else ('U', 'lost'), 0)


def forget(v):
    """nothing but flags and null pointers matters once the text is refused"""
    if isinstance(v, ai.V):
        return v if v.w <= 8 and v.const() is not None else ai.lab(v.w, ('stale', 0))
    if isinstance(v, ai.P) and (v.o == ai.NULL.o or v.o == END or v.o == TEXT and v.off >= 0 or v.o[0] not in PTRS | {'U', 'P'}):
        return v
    return lost(v) if isinstance(v, ai.P) else v


def clean(st, live, mlive, f, keepmem, drop=(), poison=False):
    """the state with every value that agrees with no register forgotten"""
    s = ai.State()
    for k in live:
        v = st.v.get(k)
        if v is None:
            continue
        if poison:
            s.v[k] = forget(v)
            continue
        try:
            s.v[k] = mapterm(v, f)
        except Stale:
            s.v[k] = lost(v) if isinstance(v, ai.P) else ai.lab(v.w, ('stale', 0)) if isinstance(v, ai.V) else v
    for o, cells in st.mem.items():
        out = {}
        done = {}
        if o[0] in drop:
            continue
        if o[0] == 'al' and len(o) == 2:
            cells = {k: c for k, c in cells.items() if (o[1], k // 4) in mlive}
        for off in sorted(cells):
            c = cells[off]
            if poison:
                if c[0] == 'p':
                    out[off] = ('p', forget(c[1]), c[2])
                elif o[0] != 'al' and all(x in (0, 1) for x in c[1]) and (off ^ 1) not in cells:
                    out[off] = c
                continue
            try:
                if c[0] == 'p':
                    q = mapterm(c[1], f)
                    out[off] = ('p', q, c[2])
                else:
                    out[off] = ('b', mapbits(cells, off, c[1], f, done))
            except Stale:
                if keepmem(o):
                    out[off] = ('p', lost(c[1]), c[2]) if c[0] == 'p' else \
                        ('b', tuple((ai.Label(('stale', 0), 64), j) for j in range(8)))
        if out:
            s.mem[o] = out
    s.ep = {}
    return s


def mapbits(cells, off, bits, f, done):
    # a word stored at once may be a register as a whole
    for w in (8, 4, 2, 1):
        b = off // w * w
        if (b, w) not in done:
            bs = []
            ok = True
            for i in range(b, b + w):
                c = cells.get(i)
                if c is None or c[0] != 'b':
                    ok = False
                    break
                bs += list(c[1])
            done[(b, w)] = f(ai.V(w * 8, bs)) if ok else None
        r = done[(b, w)]
        if r is not None:
            return r.b[(off - b) * 8:(off - b) * 8 + 8]
    return mapterm(ai.V(8, bits), f).b


class Joint:
    """the walk of a scanner together with a reference transducer"""

    def __init__(self, sc, ref, keepmem=lambda o: False, limit=6000, counters=(), drop=(), chars=(), near=1):
        self.chars, self.near = chars, near
        self.counters, self.drop = counters, drop
        self.sc, self.ref, self.keepmem, self.limit = sc, ref, keepmem, limit
        self.seen = {}
        self.work = deque()
        self.trans = 0
        self.errors = []

    def freeze(self, b, i, st, rs, pend):
        key = (b, i, tuple(sorted(st.v.items(), key=lambda x: str(x[0]))),
               tuple(sorted(((o, tuple(sorted(c.items()))) for o, c in st.mem.items()), key=lambda x: repr(x[0]))),
               tuple(sorted(st.facts.items(), key=lambda x: x[0].k)), rs[0], tuple(sorted(rs[1].items(), key=lambda x: x[0])), pend)
        return key

    def fail(self, path, msg):
        if len(self.errors) < 12 and (path, msg) not in self.errors:
            self.errors.append((path, msg))

    def enter(self, b, i, st, rs, impl, refev, path):
        """st stands before the read of the byte at offset 0 (already shifted)"""
        n = 0
        if rs[0] in (('poison',), ('refused',)):
            impl = refev = ()
        while n < len(impl) and n < len(refev) and impl[n] == refev[n]:
            n += 1
        impl, refev = impl[n:], refev[n:]
        if impl and refev:
            return self.fail(path, 'does %s where %s is due' % (show(impl[0]), show(refev[0])))
        if len(impl) > 4 or len(refev) > 4:
            return self.fail(path, 'does %s out of turn' % show((impl or refev)[0]) if impl else 'fails to do %s' % show(refev[0]))
        mode, regs = rs
        regs = dict(regs)
        for k, e in enumerate(impl + refev):
            regs['pend%d' % k] = e
        orig = dict(regs)
        ren, out = canonical(regs, self.counters, self.near)
        f = renamer(ren, self.near)
        try:
            impl = tuple(mapterm(e, f) for e in impl)
            refev = tuple(mapterm(e, f) for e in refev)
        except Stale:
            return self.fail(path, 'does %s with a value of its own' % show((impl + refev)[0]))
        regs = {k: v for k, v in out.items() if not k.startswith('pend')}
        drop = self.drop(impl, refev) if callable(self.drop) else self.drop
        s = clean(st, self.sc.live_at(b, i), self.sc.memlive_at(b, i), f, self.keepmem, drop, rs[0] == ('poison',))
        s.aux['avail'] = 1
        for n in self.chars:        # one at most for each byte of a text
            v = regs.get(n)
            l = v.label() if isinstance(v, ai.V) and v.const() is None else None
            if l is not None and l.t[0] == 'reg':
                s.facts[l] = ((3, 3 << 30),)
        for n in self.counters:
            v, x = regs.get(n), orig.get(n)
            l = v.label() if isinstance(v, ai.V) and v.const() is None else None
            if l is None or l in s.facts:
                continue
            if x.const() is not None:
                continue
            co, k = vlib.linear(x, x.w)
            co = list(co)
            iv = st.facts.get(co[0][0]) if len(co) == 1 and co[0][1] == 1 and isinstance(co[0][0], ai.Label) else None
            k = k - (1 << l.w) if k >> (l.w - 1) else k
            if iv and 0 < iv[0][0] + k and iv[-1][1] + k < 1 << l.w:
                hi = iv[-1][1] + k      # (a lower bound would make the bits above it constants)
                s.facts[l] = ((iv[0][0] + k, hi if hi >> (l.w - 1) else (1 << l.w) - 1),)
        for l, iv in st.facts.items():
            if l.t[0] in self.sc.sized:
                try:
                    q = mapterm(ai.V(l.w, [(l, i) for i in range(l.w)]), f).label()
                    if q is not None and q.t[0] in self.sc.sized and q not in s.facts:
                        s.facts[q] = iv
                except Stale:
                    pass
        key = self.freeze(b, i, s, (mode, regs), (impl, refev))
        if key in self.seen:
            return
        if len(self.seen) > self.limit:
            raise vlib.Broken('more than %d joint states' % self.limit)
        self.seen[key] = path
        self.work.append((b, i, s, (mode, regs), impl, refev, path))

    def step(self, rs, b, st):
        # the text is refused, though what it said counts for a byte more
        if rs[0] == ('refused',):
            return [((('poison',), {}), ())]
        return [((('refused',), rs[1]) if r == ('poison',) and rs[0] != ('poison',) else (r, g), ev)
                for (r, g), ev in self.ref.step(rs, b, st, self.sc)]

    def run(self, exits):
        """exits(rv, st, rs, events, refevents, path, eof): judges an exit"""
        while self.work and len(self.errors) < 12:
            b, i, s, rs, impl, refev, path = self.work.popleft()
            s = s.copy()
            s.aux['ev'] = impl
            s.facts[CH.label()] = ((0, 255),)
            try:
                outs = self.sc.explore(b, i, s, 1)
            except Mismatch as e:
                self.fail(path, str(e))
                continue
            for o in outs:
                st = o[2]
                for rep, sub in self.ref.classes(byteset(st)):
                    p2 = (path + chr(rep) if isinstance(path, str) else path)[-40:]
                    for rs2, rev in self.step(rs, rep, st):
                        self.trans += 1
                        ev = st.aux.get('ev', ())
                        rr = refev + tuple(rev)
                        if o[0] == 'exit':
                            e = exits(o[1], st, (('poison',), rs2[1]) if rs2[0] == ('refused',) else rs2, ev, rr, p2, sub)
                            if e:
                                self.fail(p2, e)
                        elif rs2[0] == ('done',):
                            self.fail(p2, 'reads on after the end of the op')
                        else:
                            st2 = shiftstate(st, self.sc.live_at(o[0], o[1]), self.sc.memlive_at(o[0], o[1]))
                            self.enter(o[0], o[1], st2, (rs2[0], {k: shift(v) for k, v in rs2[1].items()}),
                                       shift(ev), shift(rr), p2)


def shiftstate(st, live=None, mlive=None):
    s = ai.State()
    s.v = {k: shift(v) for k, v in st.v.items() if live is None or k in live}
    for o, cells in st.mem.items():
        out = {}
        if mlive is not None and o[0] == 'al' and len(o) == 2:
            cells = {k: c for k, c in cells.items() if (o[1], k // 4) in mlive}
            if not cells:
                continue
        for off, c in cells.items():
            if c[0] == 'p':
                out[off] = ('p', shift(c[1]), c[2])
            else:
                out[off] = ('b', shift(ai.V(8, c[1])).b) if any(isinstance(x, tuple) for x in c[1]) else c
        s.mem[o] = out
    s.facts = {l2: iv for l, iv in st.facts.items() for l2 in [shiftlabel(l)] if l2 is not None}
    return s


def shiftlabel(l):
    if l == CH.label():
        return None
    return shift(ai.V(l.w, [(l, i) for i in range(l.w)])).label()


def show(e):
    def go(x):
        if isinstance(x, ai.P):
            return 'here%+d' % x.off if x.o == TEXT else x.o[1][0] if x.o[0] == 'mark' else repr(x)
        if isinstance(x, ai.V):
            return repr(x)
        if isinstance(x, tuple):
            return '(%s)' % ', '.join(go(y) for y in x)
        return str(x)
    return go(e)
