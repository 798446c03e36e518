"""The text builder: what each step appends is what the reader turns back into
the same op.  Inductive over the history: from any state the builder can be in
(and any text before), appending any op or ending the chunk gives a text that
reads as the old ops followed by the new one, and a state that describes it."""
import itertools
import re
import absint as ai
import vlib
import vecs
import textout
from textout import lit
from vlib import argobj

MINOBS = 1150
LOC = 'ron/text-builder.cc'
HPP = 'ron/text.hpp'
INT, STRING, FLOAT, UUID = 1, 2, 3, 0
BASE = ai.P(('base',), 0)
PREV, SIG, SPAN, DATA = 0, 16, 32, 40
KEEP = ['ron::Slice::', 'ron::Range::', 'utf8esc_append', 'Cursor::ParseInteger', 'Cursor::ParseFloat',
        'TextFrame::Cursor::NextCodepoint', 'Uuid::str', 'Uuid::write_base64', 'is_ambiguous', '^std::',
        '^([^(<]*[ *&])?std::(vector|__cxx11)', 'ParseUtf8']


def word(name, ty=0):
    l = ai.Label(('in', name), 64)
    # a range's ends have 30 bits each
    return ai.V(64, [0 if ty and i in (30, 31) else (l, i) for i in range(62)] + [ty & 1, ty >> 1])


def uuid(name):
    return ai.lab(64, ('in', name + 'v')), word(name + 'o')


def inc(u):
    return ai.binop('add', u[0], ai.const(64, 1)), u[1]


NIL = (ai.const(64, 0), ai.const(64, 0))
PI = uuid('prev')
U = uuid('same')


class Arg:
    """an atom of the op being appended: the words in memory, what must be
    written for it, and what a span of it would repeat"""

    def __init__(self, kind, name, raw):
        self.kind = kind
        self.name = name
        self.char = False
        self.cps = []
        self.size = None
        v = ai.lab(64, ('in', name + 'v'))
        if kind == 'uuid' or kind == 'same':
            self.ty = UUID
            self.w = uuid(name) if kind == 'uuid' else U
            self.want = ('uuid',) + self.w
        elif kind in ('int', 'float'):
            self.ty = INT if kind == 'int' else FLOAT
            o = word(name + 'o', self.ty) if raw else ai.V(64, [0] * 62 + [self.ty & 1, self.ty >> 1])
            self.w = (v, o)
            self.want = ('slice', rng(o)) if raw else ({'int': 'int', 'float': 'g17'}[kind], v)
        else:
            self.ty = STRING
            o = word(name + 'o', STRING)
            cp = ai.lab(32, ('in', name + 'c'))
            self.cp = cp
            self.size = n = {'empty': 0, 'one': 1, 'two': 2, 'three': 3, 'char': 1}[kind]
            if raw and kind != 'char':
                w = (0, n)
                self.want = ('str', (('slice', rng(o)),))
                self.one = ('cp', ai.lab(32, ('char', rng(o))))
            elif raw:                       # an op of a char span: more chars may follow
                w = (cp, ai.lab(32, ('in', name + 'n')))
                self.want = ('str', (('cp', cp),))
                self.one = ('cp', cp)
            else:
                w = (cp if n else 0, max(n - 1, 0))
                self.cps = [ai.lab(32, ('in', name + 'c%d' % k)) for k in range(1, n)]
                self.want = ('str', tuple(('cp', x) for x in ([cp] if n else []) + self.cps))
                self.one = ('cp', cp)
                o = ai.V(64, list(ai.const(32, 0).b) + list(ai.const(32, n).b[:30]) + [0, 1])
            lo, hi = [x if isinstance(x, ai.V) else ai.const(32, x) for x in w]
            self.w = (ai.V(64, lo.b + hi.b), o)
            self.char = n == 1


def rng(o):
    return ai.V(64, o.b[:62] + (0, 0))


class Op:
    def __init__(self, kinds, raw, ref, id_):
        self.raw = raw
        self.kinds = kinds
        self.id = inc(PI) if id_ == 'next' else uuid('id')
        self.ref = PI if ref == 'prev' else uuid('ref')
        self.atoms = [Arg(k, 'x%d' % i, raw) for i, k in enumerate(kinds)]
        self.name = '%s op %s, id %s, ref %s' % ('read' if raw else 'new', '+'.join(kinds) or 'empty', id_, ref)


def chars():
    """the last char written, in every form the grammar has"""
    def x(i, bad):
        l = ai.Label(('in', 'lc%d' % i), 8)
        return l, [(lo, hi) for lo, hi in bad]
    plain = ((0x20, 0x26), (0x28, 0x5b), (0x5d, 0x7f))
    hi = ((0x80, 0xff),)
    E = ('c', ai.const(8, 0x5c))

    def lc(i, f):
        l = ai.Label(('in', 'lc%d' % i), 8)
        return ('c', ai.V(8, [(l, k) for k in range(8)])), (l, f)
    for n in (1, 2, 3, 4):
        its = [lc(i, plain if n == 1 else hi) for i in range(n)]
        yield '%d bytes' % n, [a for a, b in its], [b for a, b in its]
    for e in '"\'\\/bfnrt':
        yield '\\' + e, [E] + list(lit(e)), []
    its = [lc(i, ((0x30, 0x39), (0x41, 0x46), (0x61, 0x66))) for i in range(4)]
    yield '\\u', [E] + list(lit('u')) + [a for a, b in its], [b for a, b in its]


class St:
    """a state of the builder: the text before, whether an op is open and how
    many ops its span has, what the span repeats"""

    def __init__(self, name, text, span, sig, facts=()):
        self.name = name
        self.text = tuple(text)
        self.span = span
        self.sig = sig
        self.facts = facts


SIGSTR = (ai.const(64, 0), ai.V(64, [0] * 62 + [0, 1]))
COUNT = ai.lab(32, ('in', 'n'))
PRE = ('pre',)
VAL = ('val',)


def states():
    any2 = (ai.lab(64, ('in', 'sv')), ai.lab(64, ('in', 'so')))
    yield St('no open op', (PRE,), ai.const(32, 0), any2)
    yield St('an open op', (PRE, VAL), ai.const(32, 1), NIL)
    nz = [(U[0].label(), ((1, (1 << 64) - 1),))]
    yield St('an open op, one UUID', (PRE, VAL), ai.const(32, 1), U, nz)
    n2 = [(COUNT.label(), ((2, (1 << 30)),))]
    yield St('a span of UUIDs', (PRE, VAL), COUNT, U, nz + n2)
    for nm, its, f in chars():
        yield St('an open op, one char, ' + nm, (PRE,) + lit(" '") + tuple(its) + lit("'"), ai.const(32, 1), SIGSTR, f)
    yield St('a span of chars', (PRE,) + lit(" ('") + (VAL,), COUNT, SIGSTR, n2)


ROOM = {}      # place of a number's printing: room for it, chars it may take


def model(it, I, cd, args, st, ctx):
    for f in (textout.model, vecs.model):
        r = f(it, I, cd, args, st, ctx)
        if r is not NotImplemented:
            return r

    def ld(p, off=0, w=8, ptr=False):
        return it.load(st, ai.P(p.o, p.off + off), w, ptr, ('p14',))
    if 'std::swap<' in cd and 'basic_string<char' in cd or cd.startswith('void std::swap<char,'):
        a, b = textout.get(st, args[0]), textout.get(st, args[1])
        textout.put(st, args[0], b)
        textout.put(st, args[1], a)
        return None
    if 'ron::utf8esc_append(' in cd or 'utf8append(' in cd:
        if 'esc' not in cd:
            return NotImplemented
        cur = textout.get(st, args[0])
        if cur is not None and len(cur) > 100:
            raise Bad('a string is written without end')
        textout.put(st, args[0], None if cur is None else cur + (('cp', ai.V(32, args[1].b)),))
        return None
    if cd.startswith('ron::Uuid::str'):
        textout.put(st, args[0], (('uuid', ld(args[1], 8), ld(args[1], 0)),))
        return None
    if cd.startswith('ron::Uuid::write_base64'):
        cur = textout.get(st, args[1])
        textout.put(st, args[1], None if cur is None else cur + (('uuid', ld(args[0], 8), ld(args[0], 0)),))
        return None
    if 'is_ambiguous' in cd:
        return it.boolval(('ambig', ai.term(ld(args[0], 8)), ai.term(ld(args[0], 0))), True)
    if cd.startswith('ron::Slice::Slice(unsigned char const*, ron::Range)'):
        it.store(st, args[0], ai.P(('slice', args[2] if args[1] == BASE else None), 0), 8)
        it.store(st, ai.P(args[0].o, args[0].off + 8), args[2], 8)
        return None
    if cd.startswith('ron::Slice::'):
        m = vlib_member(cd)
        if args[0] == ai.P(argobj(1), 0):     # the cursor's own text
            return BASE if m == 'data' else NotImplemented
        p = ld(args[0], 0, 8, True)
        if m in ('begin', 'data', 'buffer') and p.o[0] == 'slice':
            return p
        if m in ('size', 'length') and p.o[0] == 'slice':
            return ai.lab(I['w'], ('slen', p.o[1]))
        if m == 'end' and p.o[0] == 'slice':
            return ai.P(p.o, ('end',))
    if cd.startswith('ron::Range::') and args and isinstance(args[0], ai.P):
        m = vlib_member(cd)
        if m in ('begin', 'end', 'operator++') or m.startswith('operator'):
            lo, hi = ld(args[0], 0, 4), ld(args[0], 4, 4)
            if m == 'begin':
                return lo
            if m == 'operator++':
                it.store(st, args[0], ai.binop('add', lo, ai.const(32, 1)), 4)
                return args[0]
    if cd.startswith('ron::TextFrame::Cursor::NextCodepoint'):
        a = args[1]
        n = ld(a, 12, 4).const()
        r = rng(ld(a, 0))
        if n is None or n == 0:
            return NotImplemented
        it.store(st, ai.P(a.o, a.off + 8), ai.lab(32, ('char', r)), 4)
        it.store(st, ai.P(a.o, a.off + 12), ai.const(32, n - 1), 4)
        it.store(st, a, ai.V(64, ai.lab(64, ('rest', r)).b[:62] + (0, 1)), 8)
        return ai.lab(64, ('res', I['id']))
    if 'Cursor::ParseInteger' in cd or 'Cursor::ParseFloat' in cd:
        a = args[1]
        it.store(st, ai.P(a.o, a.off + 8), ai.lab(64, ('parsed', rng(ld(a, 0)))), 8)
        return ai.lab(64, ('res', I['id']))
    if re.search(r'(^| )std::(__cxx11::)?to_string(\[abi:cxx11\])?\((unsigned )?(int|long|long long)\)', cd):
        v = args[1]
        u = 'unsigned' in cd
        textout.put(st, args[0], (('int' if not (u and any(v.b[31:])) else 'int by unsigned to_string', v),))
        return None
    if cd in ('sprintf', 'snprintf'):
        k = 1 if cd == 'sprintf' else 2
        f = textout.cstring(it, st, args[k])
        f = ''.join(chr(x[1].const()) for x in f) if f is not None else ''
        if len(args) != k + 2:
            return NotImplemented
        v = args[k + 1]
        mi = re.match(r'^%(l|ll|j|z|t|)([diu])$', f)
        mg = re.match(r'^%(?:\.(\d+))?([gGeE])$', f)
        if mi and isinstance(v, ai.V):
            kind = 'int' if mi.group(1) and mi.group(2) != 'u' or not any(v.b[31:]) else 'int by ' + f
            need = 11 if not any(v.b[32:]) else 21     # "-9223372036854775808"
        elif mg:
            digits = int(mg.group(1) or 6) + (mg.group(2) in 'eE')
            kind = 'g17' if digits >= 17 else 'float by ' + f
            need = digits + 8                          # "-1.7976931348623157E+308"
        else:
            return NotImplemented
        its = ((kind, v),)
        room = None
        for b in it.fn['blocks']:
            for J in b['ins']:
                if J['op'] == 'alloca' and ('al', J['id']) == args[0].o[:2]:
                    room = J['size'] - args[0].off
        if k == 2:
            n = args[1].const()
            room = None if room is None or n is None else min(room, n)
        ROOM.setdefault((vlib.where(I), f), []).append(None if room is None else (room, need))
        st.aux[('cstr', args[0].o, args[0].off)] = its
        return ai.V(32, textout.length(its).b[:31] + (0,))
    if cd == 'strspn':
        s = textout.cstring(it, st, args[0])
        set_ = textout.cstring(it, st, args[1])
        if s is None or set_ is None:
            return NotImplemented
        return ai.lab(64, ('spn', s, ''.join(sorted(chr(x[1].const()) for x in set_))))
    if cd == 'strlen':
        s = textout.cstring(it, st, args[0])
        return NotImplemented if s is None else ai.V(64, textout.length(s).b[:31] + (0,) * 33)
    return NotImplemented


def vlib_member(cd):
    return vecs.member(cd)


def conds(ctx):
    return [(e[1], e[2]) for e in ctx if e[0] == '?']


def unlab(t):
    while isinstance(t, ai.Label):
        t = t.t
    return t


def sameword(a, b, cs, it):
    """a == b by construction, or on the conditions of the path"""
    if a == b:
        return True
    t, pol = it.cmp_term('eq', a, b)
    return any(x == t and p == pol for x, p in cs)


def equal(a, b, cs, it):
    return sameword(a[0], b[0], cs, it) and sameword(a[1], b[1], cs, it)


def spanned(q):
    """the strspn term of a character read right after the span"""
    def has(x):
        x = unlab(x.label() if isinstance(x, ai.V) else x)
        if isinstance(x, tuple):
            if x and x[0] == 'spn':
                return [x]
            return [z for y in x for z in has(y)]
        return []
    r = has(q)
    return r[0] if len(r) == 1 and any(unlab(x)[:2] == ('lin', 0) for x in q[1:] if isinstance(unlab(x), tuple)) else None


class Bad(Exception):
    pass


WS = ' \n\t\r'


def toks(items):
    """items to tokens: punctuation, words, strings; words keep apart"""
    r = []
    i = 0
    gap = True
    while i < len(items):
        x = items[i]
        if x[0] == 'c':
            n = x[1].const()
            if n is None:
                raise Bad('a character %r outside of a string' % (x[1],))
            k = chr(n)
            i += 1
            if k in WS:
                gap = True
                continue
            if k == "'":
                j = i
                s = []
                while j < len(items) and not (items[j][0] == 'c' and items[j][1].const() == 0x27):
                    s.append(items[j])
                    j += 1
                if j == len(items):
                    raise Bad('a string is not closed')
                r.append(('str', tuple(s)))
                i = j + 1
                gap = True
                continue
            if k == '.' and r and r[-1][0] == 'g17' and not gap and items[i:i + 1] == lit('0'):
                r[-1] = ('g17.0',) + r[-1][1:]
                i += 1
                continue
            r.append((k,))
            gap = True
            continue
        if not gap:
            raise Bad('%s follows another token at once' % x[0])
        r.append(x)
        gap = False
        i += 1
    return r


def readop(tk, cs):
    """spec and values of one op"""
    i = 0
    idt = ref = None
    if tk[:1] == [('@',)]:
        if len(tk) < 2 or tk[1][0] != 'uuid':
            raise Bad('no UUID after @')
        idt = tk[1][1:]
        i = 2
        if tk[i:i + 1] == [(':',)]:
            if len(tk) < i + 2 or tk[i + 1][0] != 'uuid':
                raise Bad('no UUID after :')
            ref = tk[i + 1][1:]
            i += 2
    vals = []
    while i < len(tk):
        t = tk[i]
        if t == ('>',):
            if i + 1 >= len(tk) or tk[i + 1][0] != 'uuid':
                raise Bad('no UUID after >')
            vals.append(tk[i + 1])
            i += 2
            continue
        if t[0] == 'uuid':
            w = ('ambig', ai.term(t[1]), ai.term(t[2]))
            if not any(x == w and p is False for x, p in cs):
                raise Bad('an UUID that may read as a number is written bare')
            vals.append(t)
        elif t[0] in ('int', 'slice', 'str'):
            vals.append(t)
        elif t[0] in ('g17', 'g17.0'):
            onlydigits = None
            for x, p in cs:
                y = unlab(x)
                if y[0] == 'eq':
                    for q in y[1:]:
                        q = unlab(q.label() if isinstance(q, ai.V) else q)
                        if isinstance(q, tuple) and q[0] == 'idx':     # text[strspn(text, digits)] == 0
                            q = spanned(q)
                        if isinstance(q, tuple) and q[0] == 'spn':
                            if q[1] != (('g17', t[1]),) or set('.E') & set(q[2]) or not set('-0123456789') <= set(q[2]):
                                raise Bad('the test for a whole float')
                            onlydigits = p
            if onlydigits is None:
                if t[0] == 'g17':
                    raise Bad('a whole float is written as an integer')
                raise vlib.Broken('a float gets ".0" on conditions the analysis does not know: %r' % (cs,))
            if onlydigits != (t[0] == 'g17.0'):
                raise Bad('a whole float is written as an integer' if onlydigits else '".0" after a fraction or an exponent')
            vals.append(('g17', t[1]))
        elif ' by ' in t[0]:
            raise Bad('a number is written as an ' + t[0])
        else:
            raise Bad('%r is no value' % (t,))
        i += 1
    return idt, ref, vals


def known(cs):
    """every condition is one of those the judgement knows"""
    def leaf(y):
        y = unlab(y)
        if isinstance(y, ai.V):
            y = unlab(y.label())
        if not isinstance(y, tuple):
            return y in (True, False)
        if y[0] in ('and', 'or', 'not', 'b', 'xor'):
            return all(leaf(z) for z in y[1:])
        return y[0] in ('eq', 'ambig', 'c')
    return all(leaf(x) for x, p in cs)


def constants(it, st):
    for g in (NILG, ai.P(('g', '_ZN3ron4Uuid5FATALE'), 0)):
        x = NIL[0] if g == NILG else ai.const(64, (1 << 60) - 1)
        it.store(st, g, x, 8)
        it.store(st, ai.P(g.o, 8), x, 8)


NILG = ai.P(('g', '_ZN3ron4Uuid3NILE'), 0)


class W:
    def __init__(self, c, m):
        self.c = c
        self.m = m
        self.n = 0

    def run(self, fn, s, op=None, extra=None):
        def init(it, st):
            b = argobj(0)
            constants(it, st)
            textout.put(st, ai.P(argobj(1), 0), (('old',),))
            for off, u in ((PREV, PI), (SIG, s.sig)):
                it.store(st, ai.P(b, off), u[1], 8)
                it.store(st, ai.P(b, off + 8), u[0], 8)
            it.store(st, ai.P(b, SPAN), s.span, 4)
            textout.put(st, ai.P(b, DATA), s.text)
            for l, f in s.facts:
                st.facts[l] = tuple(f)
            if op is None:
                return
            at = ('atoms',)
            ws = [op.id, op.ref] + [a.w for a in op.atoms]
            for i, w in enumerate(ws):
                it.store(st, ai.P(at, 16 * i), w[1], 8)
                it.store(st, ai.P(at, 16 * i + 8), w[0], 8)
            vecs.put(it, st, ai.P(argobj(1), 16 if op.raw else 0), ai.P(at, 0), ai.P(at, 16 * len(ws)))
            k = 0
            for a in op.atoms:
                if a.ty == STRING:
                    st.facts[a.cp.label()] = ((1, 0x10ffff),)
                    if not op.raw and a.size:
                        # chars after the first lie in the op's own array
                        base = k
                        for x in a.cps:
                            it.store(st, ai.P(('cps',), 4 * k), x, 4)
                            st.facts[x.label()] = ((1, 0x10ffff),)
                            k += 1
                        o = ai.V(64, list(ai.const(32, base).b) + list(ai.const(32, k).b[:30]) + [0, 1])
                        i = 2 + op.atoms.index(a)
                        it.store(st, ai.P(at, 16 * i), o, 8)
            if not op.raw:
                vecs.put(it, st, ai.P(argobj(1), 24), ai.P(('cps',), 0), ai.P(('cps',), 4 * k))
        f = self.c.fn(self.m, fn)
        it = ai.Interp(f, self.m, model=model, init=init, partition=True, track=True, unroll=True, loadhook=textout.hook,
                       argvals=extra or {}, maxctx=400, maxiter=4000).run()
        self.c.need(it.rets, fn)
        out = []
        for (ctx, b), (rv, st) in it.rets.items():
            self.c.paths += 1
            text = textout.get(st, ai.P(argobj(0), DATA))
            if text is None:
                raise vlib.Broken('%s, %s: the text written is not determined' % (s.name, op.name if op else fn))
            out.append((it, conds(ctx), text, st))
        return out

    def field(self, it, st, off, n=16):
        b = argobj(0)
        if n == 4:
            return it.load(st, ai.P(b, off), 4, False, ('q',))
        return it.load(st, ai.P(b, off + 8), 8, False, ('q',)), it.load(st, ai.P(b, off), 8, False, ('q',))

    def closing(self, s, rest, term):
        """the rest of the text after the open op of the state is terminated"""
        def need(k, what):
            nonlocal rest
            while rest and rest[0][0] == 'c' and rest[0][1].const() is not None and chr(rest[0][1].const()) in WS:
                rest = rest[1:]
            if k is None:
                if not rest or rest[0][0] != 'int' or not isinstance(rest[0][1], ai.V) or rest[0][1].b[:32] != s.span.b \
                        or any(rest[0][1].b[32:]):
                    raise Bad('the span of %r ops is written as %r' % (s.span, rest[:1]))
            elif rest[:1] != lit(k):
                raise Bad('%s: %r instead of %s' % (what, rest[:1], k))
            rest = rest[1:]
        if s.span.const() == 0:
            return rest
        if s.span.const() != 1:
            if s.sig == SIGSTR:
                if rest[:1] != lit("'"):
                    raise Bad('the span is not closed')
                rest = rest[1:]
                need(')', 'the span is not closed')
            else:
                need('(', 'the span is not counted')
                need(None, '')
                need(')', 'the span is not closed')
        need(term, 'the op is not terminated')
        return rest

    def judge(self, s, op, it, cs, text, st):
        span = self.field(it, st, SPAN, 4)
        prev = self.field(it, st, PREV)
        sig = self.field(it, st, SIG)
        if not equal(prev, op.id, cs, it):
            raise Bad('the builder takes %r for the last id' % (prev,))
        one = ai.binop('add', s.span, ai.const(32, 1))
        if s.span.const() != 0 and (span == one or span.label() is not None and one.label() is not None and
                                    span.label().t == one.label().t):
            if not equal(op.id, inc(PI), cs, it):
                raise Bad('an op is added to the span though its id is not the next one')
            if not equal(op.ref, PI, cs, it):
                raise Bad('an op is added to the span though it does not refer to the previous one')
            if sig != s.sig:
                raise Bad('the span now repeats %r' % (sig,))
            if s.sig == NIL:
                raise Bad('an op is added to an op that is no span')
            if len(op.atoms) != 1:
                raise Bad('an op of %d values is added to a span' % len(op.atoms))
            a = op.atoms[0]
            if s.sig == SIGSTR:
                if not a.char:
                    raise Bad('a value that is no single char is added to a span of chars')
                if s.span.const() == 1:
                    want = s.text[:1] + lit(" ('") + s.text[3:-1] + (a.one,)
                else:
                    want = s.text + (a.one,)
                if text != want:
                    raise Bad('the span of chars becomes %s' % show(text))
            else:
                if a.ty != UUID or not equal(a.w, s.sig, cs, it):
                    raise Bad('another value is added to a span of equal ones')
                if text != s.text:
                    raise Bad('the span of UUIDs becomes %s' % show(text))
            return
        if span.const() != 1:
            raise Bad('the builder counts %r ops in the span' % (span,))
        if text[:len(s.text)] != s.text:
            raise Bad('the text before is changed: %s' % show(text))
        rest = self.closing(s, text[len(s.text):], ',')
        idt, ref, vals = readop(toks(rest), cs)
        if idt is not None and not equal(idt, op.id, cs, it):
            raise Bad('the id is written as %r' % (idt,))
        if idt is None and not equal(op.id, inc(PI), cs, it):
            raise Bad('the id is left out though it is not the next one')
        if ref is not None and not equal(ref, op.ref, cs, it):
            raise Bad('the reference is written as %r' % (ref,))
        if ref is None and not equal(op.ref, PI, cs, it):
            raise Bad('the reference is left out though it is not the previous op')
        want = [a.want for a in op.atoms]
        if vals != want:
            raise Bad('the values are written as %s, not %s' % (show(vals), show(want)))
        one = op.atoms[0] if len(op.atoms) == 1 else None
        if sig == SIGSTR:
            if not one or not one.char:
                raise Bad('the builder takes the op for a single char')
            i = len(text) - 1 - len(one.want[1])
            before = text[i - 2]
            if text[-1:] != lit("'") or text[i - 1:i] != lit("'") or before[0] == 'c' and before[1].const() in (None, 0x5c):
                raise vlib.Broken('a char is not written as a quoted string after a space')
        elif sig != NIL and (not one or one.ty != UUID or not equal(sig, one.w, cs, it)):
            raise Bad('the builder takes %r for the value of the op' % (sig,))

    def append(self, s, kinds, raw, ref, id_):
        op = Op(kinds, raw, ref, id_)
        name = '%s: %s' % (s.name, op.name)
        bad = None
        n = 0
        try:
            paths = self.run('^h_cursor$' if raw else '^h_op$', s, op)
        except Bad as e:
            paths, bad = [], str(e)
        for it, cs, text, st in paths:
            n += 1
            try:
                self.judge(s, op, it, cs, text, st)
            except Bad as e:
                if not known(cs):
                    raise vlib.Broken('%s: %s, on conditions the analysis does not know: %r' % (name, e, cs))
                bad = bad or str(e)
        room = [(k, tuple(x)) for k, x in ROOM.items()]
        ROOM.clear()
        return name, bad, n, room


def show(items):
    r = ''
    for x in items:
        if x[0] == 'c' and x[1].const() is not None:
            r += chr(x[1].const())
        else:
            r += '<%s>' % x[0]
    return repr(r)


def ambiguous(c, m):
    """the test for UUIDs whose text reads as a number, over texts of every
    length: each path of the scan against the grammar of numbers"""
    D, EE, S, O = '0', 'E', '+', 'x'
    classes = {D: ((0x30, 0x39),), EE: ((0x45, 0x45), (0x65, 0x65)), S: ((0x2b, 0x2b), (0x2d, 0x2d)),
               O: ((0x24, 0x25), (0x28, 0x29), (0x2f, 0x2f), (0x3a, 0x3a), (0x3e, 0x3e), (0x41, 0x44), (0x46, 0x5a), (0x5f, 0x5f),
                   (0x61, 0x64), (0x66, 0x7a), (0x7e, 0x7e))}

    # deterministic automaton of D+ ( E S? D+ )?
    def step(q, k):
        return {(0, D): 1, (1, D): 1, (1, EE): 2, (2, S): 3, (2, D): 4, (3, D): 4, (4, D): 4}.get((q, k), 9)
    f = [x for x in m['functions'] if x['d'].startswith('ron::Uuid::is_ambiguous')]
    c.need(len(f) == 1, 'is_ambiguous')

    def size(n):
        npaths = 0
        labs = [ai.Label(('in', 'c%d' % i), 8) for i in range(n)]
        items = tuple(('c', ai.V(8, [(l, k) for k in range(8)])) for l in labs)

        def mod(it, I, cd, args, st, ctx):
            if cd.startswith('ron::Uuid::str'):
                textout.put(st, args[0], items)
                return None
            if cd.startswith('ron::Uuid::write_base64'):
                textout.put(st, args[1], items)
                return None
            if cd in ('isdigit', '__isdigit') or re.match(r'^(std::)?isdigit\(', cd):
                v = args[0]
                t = ('ult', ai.term(ai.binop('sub', ai.V(8, v.b[:8]), ai.const(8, 0x30))), ('c', 10))
                b = it.boolval(t, True)
                return ai.V(I['w'], list(b.b) + [0] * (I['w'] - 1))
            return model(it, I, cd, args, st, ctx)

        def init(it, st):
            for l in labs:
                st.facts[l] = ((0x24, 0x7e),)
        it = ai.Interp(f[0], m, model=mod, init=init, partition=True, track=True, unroll=True, loadhook=textout.hook, maxctx=3000).run()
        bad = None
        c.need(it.rets, 'is_ambiguous')
        for (ctx, b), (rv, st) in it.rets.items():
            npaths += 1
            got = rv.const()
            # the classes each place may have on this path
            qs = {0}
            for l in labs:
                ok = allowed(ctx, l)
                ks = {k for k, iv in classes.items() if any(ok[lo:hi + 1].any() for lo, hi in iv)}
                qs = {step(q, k) for q in qs for k in ks}
            want = {q in (1, 4) for q in qs}
            if got is None:
                raise vlib.Broken('is_ambiguous returns %r' % rv)
            if want and want != {bool(got)}:
                bad = bad or 'says %s for a text of %d characters that reads as %s (%s)' % (
                    bool(got), n, 'a number' if True in want else 'no number', conds(ctx)[:6])
        return n, bad, npaths

    for n, bad, np in vlib.pmap(size, [(n,) for n in reversed(NS)]):
        c.paths += np
        c.ob('an UUID of %d characters is known for a number' % n, bad is None, bad or '%d paths' % np, 'ron/uuid.cc')


def allowed(ctx, l):
    """the values of the character on this path"""
    import tab
    import numpy as np
    dom = np.arange(256, dtype=np.uint64)
    ok = np.ones(256, dtype=bool)
    for e in ctx:
        if e[0] != '?' or not ai.mentions(e[1], l.t):
            continue
        try:
            t = np.broadcast_to(np.asarray(tab.term(e[1], 1, {l: dom})).astype(bool), dom.shape)
        except tab.NoTab:
            raise vlib.Broken('is_ambiguous: condition %r' % (e[1],))
        ok = ok & (t == e[2])
    return ok


# branches are not turned into selects: the scan's place stays known on each path
PASSES = ('function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg<no-speculate-blocks;no-simplify-cond-branch>,'
          'early-cse<memssa>)')
NS = list(range(1, 13)) + [20, 23]
KINDS = [(), ('int',), ('float',), ('uuid',), ('same',), ('empty',), ('one',), ('two',), ('three',)]
MORE = [('int', 'uuid'), ('one', 'one'), ('same', 'same'), ('uuid', 'two', 'int', 'float'), ('float', 'one'), ('empty', 'empty')]


def check(c):
    c.level = 'proof'
    c.rule('induction over the calls of the builder: for every state and every kind of op, each path of the append gives a '
           'text whose tokens are read back as the old ops and the new one, and a state that describes that text')
    m = c.ir([vlib.VERIF + '/harness/P14.cc'], ['^h_', 'is_ambiguous'], inline=['ron::', '^__gnu_cxx', '^bool __gnu_cxx'], keep=KEEP, passes=PASSES)
    f = c.fn(m, '^h_data$')
    it = ai.Interp(f, m).run()
    c.need([x[0] for x in it.rets.values()] == [ai.P(argobj(0), DATA)], 'place of the text in the builder')
    w = W(c, m)
    ss = list(states())
    jobs = []
    for raw in (True, False):
        for kinds in KINDS + ([('char',)] if raw else []) + MORE:
            for i, s in enumerate(ss):
                if 'one char, ' in s.name and (len(kinds) > 1 or kinds and kinds[0] not in ('one', 'char', 'two')):
                    if not s.name.endswith('1 bytes'):
                        continue
                for ref, id_ in (('prev', 'next'), ('any', 'next'), ('prev', 'any'), ('any', 'any')):
                    jobs.append((i, kinds, raw, ref, id_))
    rooms = {}
    for name, bad, n, room in vlib.pmap(lambda i, *a: w.append(ss[i], *a), jobs):
        c.paths += n
        c.ob(name, bad is None, bad or '%d paths' % n, LOC if bad and 'values' in bad else HPP)
        for k, xs in room:
            rooms.setdefault(k, set()).update(xs)
    for (loc, f), xs in sorted(rooms.items()):
        c.need(None not in xs, 'the buffer of a number, ' + loc)
        bad = [x for x in xs if x[0] < x[1]]
        c.ob('the buffer of a number (%s) holds the longest one' % f, not bad, '%d bytes, needs %d' % bad[0] if bad else '', loc)
    chunk(c, m, w, ss)
    made(c, m)
    ambiguous(c, m)


def made(c, m):
    """an op built of plain values has their atoms, in the order given"""
    def run(fn, strs_, args):
        def mod(it, I, cd, args, st, ctx):
            if 'ParseUtf8(' in cd:
                v = args[0]
                s = textout.get(st, args[1])
                if s is None or len(s) != 1 or s[0][0] != 'given':
                    return NotImplemented
                b, n = vecs.span(it, st, v)
                if n is None:
                    return NotImplemented
                k = n // 4
                o = ai.P(('cps',), 0)
                for i in range(s[0][2]):
                    it.store(st, ai.P(o.o, 4 * (k + i)), ai.lab(32, ('in', '%sc%d' % (s[0][1], i))), 4)
                vecs.put(it, st, v, o, ai.P(o.o, 4 * (k + s[0][2])))
                return ai.const(64, 0)
            if cd.startswith('ron::Range::Range(') and len(args) == 3:
                it.store(st, args[0], args[1], 4)
                it.store(st, ai.P(args[0].o, args[0].off + 4), args[2], 4)
                return None
            if cd.startswith('ron::Range::Range()'):
                it.store(st, args[0], ai.const(64, 0), 8)
                return None
            return model(it, I, cd, args, st, ctx)

        def init(it, st):
            constants(it, st)
            for k, n in strs_:
                textout.put(st, ai.P(argobj(k), 0), (('given', 's%d' % k, n),))
        it = ai.Interp(c.fn(m, fn), m, model=mod, init=init, partition=True, track=True, unroll=True, loadhook=textout.hook,
                       argvals=args, maxctx=500).run()
        c.need(it.rets, fn)
        for (ctx, b), (rv, st) in it.rets.items():
            c.paths += 1
            b, n = vecs.span(it, st, ai.P(argobj(0), 0))
            if n is None:
                raise vlib.Broken(fn + ': the atoms are not determined')
            q = ('q',)
            yield (st, it, [(it.load(st, ai.P(b.o, b.off + 16 * i + 8), 8, False, q), it.load(st, ai.P(b.o, b.off + 16 * i), 8, False, q))
                            for i in range(n // 16)])

    def mem(it, st, k):
        q = ('q',)
        return it.load(st, ai.P(argobj(k), 8), 8, False, q), it.load(st, ai.P(argobj(k), 0), 8, False, q)

    def flagged(o, ty):
        return o == ai.V(64, [0] * 62 + [ty & 1, ty >> 1])
    iv = ai.lab(64, ('in', 'i'))
    fv = ai.lab(64, ('in', 'f'))
    for st, it, at in run('^h_bare$', (), {}):
        c.ob('an op of no values', at == [mem(it, st, 1), mem(it, st, 2)], repr(at), 'ron/op.hpp')
    for st, it, at in run('^h_make$', (), {3: iv, 4: fv}):
        ok = len(at) == 5 and at[:2] == [mem(it, st, 1), mem(it, st, 2)] and at[4] == mem(it, st, 5)
        c.ob('an op of an integer, a float and an UUID', ok and at[2][0] == iv and flagged(at[2][1], INT) and
             at[3][0] == fv and flagged(at[3][1], FLOAT), repr(at), 'ron/op.hpp')
    gv = ai.lab(64, ('in', 'g'))
    for st, it, at in run('^h_make2$', (), {4: fv, 5: iv, 6: gv}):
        ok = len(at) == 7 and at[:2] == [mem(it, st, 1), mem(it, st, 2)] and at[2] == mem(it, st, 3) and at[6] == mem(it, st, 7)
        c.ob('an op of an UUID, a float, an integer, a float and an UUID', ok and at[4][0] == iv and flagged(at[4][1], INT) and
             [x[0] for x in (at[3], at[5])] == [fv, gv] and all(flagged(x[1], FLOAT) for x in (at[3], at[5])), repr(at), 'ron/op.hpp')
    for na, nb in itertools.product(range(4), repeat=2):
        for st, it, at in run('^h_text$', ((3, na), (5, nb)), {4: iv}):
            ok = len(at) == 5 and at[:2] == [mem(it, st, 1), mem(it, st, 2)] and at[3][0] == iv and flagged(at[3][1], INT)
            bad = None if ok else repr(at)
            for k, n, at0, base in ((3, na, 2, 0), (5, nb, 4, na)):
                if bad or len(at) != 5:
                    break
                v, o = at[at0]
                first = ai.lab(32, ('in', 's%dc0' % k)) if n else ai.const(32, 0)
                size = ai.const(32, max(n - 1, 0))
                if v != ai.V(64, first.b + size.b):
                    bad = 'the first char and the number of the rest: %r' % (v,)
                if o.b[62:] != (0, 1):
                    bad = 'the type of a string: %r' % (o,)
                if n and ai.V(30, o.b[:30]).const() != base + 1:
                    bad = 'the rest of a string starts at %r' % (o,)
            c.ob('an op of texts of %d and %d characters' % (na, nb), bad is None, bad or '', 'ron/op.hpp')


def chunk(c, m, w, ss):
    punct = {}
    f = c.fn(m, '^h_chr2term$')
    for k in range(256):
        it = ai.Interp(f, m, argvals={0: ai.const(8, k)}).run()
        vs = {x[0].const() for x in it.rets.values()}
        if len(vs) == 1 and chr(k) in ';,!?':
            punct.setdefault(vs.pop(), []).append(chr(k))
    c.need(len(punct) == 4, 'terms')
    for s in ss:
        for t, name in ((0, 'raw'), (2, 'header'), (3, 'query')):
            bad = None
            for it, cs, text, st in w.run('^h_chunk$', s, extra={1: ai.const(32, t)}):
                bad = bad or ended(w, s, it, cs, text, st, punct[t][0])
            c.ob('%s: end of a %s chunk' % (s.name, name), bad is None, bad or '', HPP)
        bad = None

        def grab(st):
            return textout.get(st, ai.P(argobj(1), 0))
        for it, cs, text, st in w.run('^h_release$', s):
            to = grab(st)
            bad = bad or ended(w, s, it, cs, to, st, ';', False) if to is not None else 'lost'
            if text != ():
                bad = bad or 'the builder still holds %s' % show(text)
            if w.field(it, st, PREV) != NIL:
                bad = bad or 'the next frame would count its ids from this one'
            if w.field(it, st, SPAN, 4).const() != 0:
                bad = bad or 'the next frame would go on with the open op'
        c.ob('%s: release' % s.name, bad is None, bad or '', HPP)
    it = ai.Interp(c.fn(m, '^h_new$'), m, model=model, init=constants).run()
    for (ctx, b), (rv, st) in it.rets.items():
        c.ob('a new builder is empty', textout.get(st, ai.P(argobj(0), DATA)) == () and w.field(it, st, PREV) == NIL and
             w.field(it, st, SPAN, 4).const() == 0, '', HPP)


def ended(w, s, it, cs, text, st, term, keep=True):
    try:
        if text[:len(s.text)] != s.text:
            raise Bad('the text before is changed: %s' % show(text))
        rest = w.closing(s, text[len(s.text):], term)
        if toks(rest):
            raise Bad('%s follows' % show(rest))
        if keep and w.field(it, st, PREV) != PI:
            raise Bad('the builder takes %r for the last id' % (w.field(it, st, PREV),))
        if w.field(it, st, SPAN, 4).const() != 0:
            raise Bad('the op is still open')
    except Bad as e:
        if not known(cs):
            raise vlib.Broken('%s: %s, on conditions the analysis does not know: %r' % (s.name, e, cs))
        return str(e)
    return None
