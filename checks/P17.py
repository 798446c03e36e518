"""The reader: Cursor::Next is walked together with a reference transducer of
the grammar (see lib/grammar.py), byte class by byte class."""
import re
import absint as ai
import auto
import grammar
import textmodel as tm
import vlib

MINOBS = 50
SRC = 'ron/text-parser.cc'
CUR = ai.P(('cur',), 0)
RES = ai.P(('res',), 0)
OFF = dict(data=0, op=16, term=40, cs=41)


def layout(c):
    return OFF


VEC = r'^(?:ron::Atom const&|ron::Atom&|void|bool)?\s*std::vector<ron::Atom, std::allocator<ron::Atom>>::'


def model(it, I, cd, args, st, ctx):
    r = tm.model(it, I, cd, args, st, ctx)
    if r is not NotImplemented:
        return r
    m = re.search(r'std::vector<ron::Atom, std::allocator<ron::Atom>>::(operator\[\]|\w+)', cd)
    if m and not m.group(1).startswith('~'):
        return vec(it, I, m.group(1), cd, args, st)
    if 'NextCodepoint(' in cd:
        a = args[-1]
        tm.event(st, 'ncp', a.o[0] if a.o == ('back',) else a)
        st.mem.pop(a.o, None)
        return ai.fresh_for(I['ty'], I.get('w') or 0, ('lost',))
    if re.match(r'^ron::Status::Status\(ron::Status const&\)', cd):
        if args[0].o == RES.o:
            st.aux['status'] = name(args[1])
        else:
            it.store(st, args[0], args[1], 8)
        return None
    if re.match(r'^ron::Status::comment\(', cd):
        if args[0].o == RES.o:
            st.aux['status'] = name(args[1])
        return None
    if re.match(r'^(sprintf|snprintf|std::)|basic_string|allocator', cd):
        return ai.fresh_for(I['ty'], I.get('w') or 0, ('lost',))
    raise vlib.Broken('calls %s at %s' % (cd[:100], vlib.where(I)))


def name(p):
    m = re.search(r'Status\d+(\w+?)E$', p.o[1]) if p.o[0] == 'g' else None
    return m.group(1) if m else repr(p)


def vec(it, I, op, cd, args, st):
    if op == 'empty':
        return tm.wide(it.boolval(('noatoms',), True), I)
    if op == 'clear':
        tm.event(st, 'clear')
        return None
    if op == 'back':
        return ai.P(('back',), 0)
    if op in ('operator[]', 'at'):
        n = args[1].const()
        return ai.P(('at', n), 0)
    if op == 'emplace_back' and '<ron::ATOM, ron::Range' in cd:
        ty = tm.ld(it, st, args[1], 1).const()
        rg = tm.ld(it, st, args[2], 8)
        if ty is None:
            raise vlib.Broken('type of an atom at %s' % vlib.where(I))
        push(it, st, ty, rg, ai.const(64, 0))
        return ai.P(('back',), 0)
    if op == 'push_back' or op == 'emplace_back' and '<ron::Atom' in cd or '<ron::Uuid' in cd:
        o, v = tm.ld(it, st, args[1], 8), tm.ld(it, st, ai.P(args[1].o, args[1].off + 8), 8)
        l = ai.V(64, o.b[:62] + tuple((x[0], i + 62) for i, x in enumerate([o.b[61]] * 2))) if isinstance(o.b[61], tuple) else o
        ty = 0
        for k in (0, 1):
            x = o.b[62 + k]
            if x == 1:
                ty |= 1 << k
            elif x != 0 and x != l.b[62 + k]:
                ty = None
                break
        if ty:
            push(it, st, ty, l, v)
        else:
            push(it, st, ty, o, v)
        return ai.P(('back',), 0)
    raise vlib.Broken('atoms.%s at %s' % (op, vlib.where(I)))


def push(it, st, ty, o, v):
    tm.event(st, 'push', ty, o, v)
    full = ai.V(64, list(o.b[:62]) + [(1 if ty >> k & 1 else o.b[62 + k]) for k in (0, 1)]) if ty else o
    st.mem.pop(('back',), None)
    st.mem[('back',)] = {}
    ai.Interp.store(it, st, ai.P(('back',), 0), full, 8)
    ai.Interp.store(it, st, ai.P(('back',), 8), v, 8)


def word_event(st, i, off, v):
    ev = list(st.aux.get('ev', ()))
    k = len(ev)
    while k and ev[k - 1][0] == 'w' and ev[k - 1][1] == i and ev[k - 1][2] > off:
        k -= 1
    ev.insert(k, ('w', i, off, v))
    st.aux['ev'] = tuple(ev)


class Sc(auto.Scanner):
    def onstore(self, st, p, v, size, I):
        if p.o[0] == 'at':
            if size != 8:
                raise vlib.Broken('store into an atom at %s' % vlib.where(I))
            word_event(st, p.o[1], p.off, v)
            return False
        if p.o == ('back',):
            if (p.off, size) == (12, 4):
                tm.event(st, 'cp', v)
            else:
                tm.event(st, 'store', p.off, size, v)
            return False
        return False

    def oncopy(self, st, d, n):
        if d.o[0] == 'at':
            for k in range(0, n, 8):
                word_event(st, d.o[1], d.off + k, tm.ld(self, st, ai.P(d.o, d.off + k), 8))
        elif d.o == ('back',):
            tm.event(st, 'store', d.off, n)


def base(c):
    m = c.ir([SRC], [r'^ron::TextFrame::Cursor::Next\('], inline=['^ron::'],
             keep=['^ron::Slice::', '^ron::Range::(Range\\(unsigned char|begin|end|size|empty|Consume)', '^ron::Word::Word\\(unsigned char, ron::Slice',
                   'NextCodepoint', 'int_too_big', 'decode_', 'chr2term', 'Status::', 'emplace_back'])
    return m, c.fn(m, r'^ron::TextFrame::Cursor::Next\(')


def start(cs, span):
    st = ai.State()
    st.mem[CUR.o] = {}
    st.mem[('back',)] = {}
    it = ai.Interp.__new__(ai.Interp)
    ai.Interp.store(it, st, CUR, tm.BUF, 8)
    ai.Interp.store(it, st, ai.P(CUR.o, 8), ai.lab(64, ('sl', tm.TEXT0, tm.END0)), 8)
    ai.Interp.store(it, st, ai.P(CUR.o, 41), ai.const(8, cs), 1)
    ai.Interp.store(it, st, ai.P(CUR.o, 48), span, 4)
    return st


def status_at(st, size=8):
    return st.aux.get('status')


def dropped(impl, refev):
    """the last atom matters as long as its first char is due"""
    return ('at',) if refev is None or any(e[0] == 'ncp' for e in refev) else ('at', 'back')


class Walk:
    def __init__(self, c, m, f, span_off):
        self.c, self.m, self.f, self.so = c, m, f, span_off
        self.resume = set()
        self.judged = 0

    def scanner(self):
        return Sc(self.f, self.m, model, argvals={0: RES, 1: CUR})

    def span(self, st):
        it = ai.Interp.__new__(ai.Interp)
        it.loadhook = None
        return ai.Interp.load(it, st, ai.P(CUR.o, self.so), 4, False, 0)

    def cell(self, st, off, size):
        it = ai.Interp.__new__(ai.Interp)
        it.loadhook = None
        return ai.Interp.load(it, st, ai.P(CUR.o, off), size, False, 0)

    def exits(self, rv, st, rs, ev, refev, path, sub):
        self.judged += 1
        mode, regs = rs
        end = st.aux.get('end')
        s = st.aux.get('status')
        eof = end is not None and end <= 1
        if mode == ('done',):
            if s != 'OK':
                return 'refuses a valid op (%s)' % s
            n = 0
            while n < len(ev) and n < len(refev) and ev[n] == refev[n]:
                n += 1
            if n < len(ev) or n < len(refev):
                return 'does %s where %s is due' % (auto.show(ev[n]) if n < len(ev) else 'nothing',
                                                    auto.show(refev[n]) if n < len(refev) else 'nothing')
            be = tm.ends(self.cell(st, 8, 8))
            if be is None or be[0] != grammar.NEXT:
                return 'is not left right after the term %r' % (self.cell(st, 8, 8),)
            t = self.cell(st, OFF['term'], 1).label()
            if t is None or t.t != ('term', grammar.CH0):
                return 'does not take the term of the op'
            n = self.span(st)
            if n != regs['span'] and vlib.linear(n) != vlib.linear(regs['span']):
                return 'span count is %r, not %r' % (n, regs['span'])
            k = self.cell(st, OFF['cs'], 1).const()
            if not k:
                return 'can not be resumed'
            self.resume.add(k)
            return None
        if mode == ('end',) and not eof:
            mode = ('poison',)     # nothing may follow
        if mode != ('poison',) and not eof:
            return 'stops (%s) in the middle of an op' % s
        want = 'ENDOFFRAME' if mode in (('T',), ('end',)) else 'BAD_STATE'
        if s != want:
            return 'gives %s, not %s%s' % (s, want, ' at the end of the text' if eof and mode != ('poison',) else
                                           ' for a text that is no op')
        if self.cell(st, OFF['cs'], 1).const() != 0 or self.span(st).const() != 0:
            return 'can be resumed after %s' % s
        return None

    def run(self, cs, dflt):
        sc = self.scanner()
        j = auto.Joint(sc, grammar.Frame(), counters=('cp', 'span'), drop=dropped, chars=('cp',))
        st = start(cs, ai.const(32, 0))
        regs = {'begin': tm.TEXT0, 'span': ai.const(32, 0)}
        ent = sc.fn['blocks'][0]['id']
        for o in sc.explore(ent, 0, st, 0):
            s = o[2]
            ev = s.aux.get('ev', ())
            pred = dict(s.aux.get('pred', ()))
            if o[0] == 'exit':
                moved = cs == 0 and [p for t, p in s.aux.get('pred', ()) if 'begin' in repr(t)]
                want = 'BAD_STATE' if cs == 0 and moved == [False] else 'ENDOFFRAME'
                if s.aux.get('status') != want:
                    j.fail('', 'gives %s, not %s, before any byte (state %d)' % (s.aux.get('status'), want, cs))
                elif want == 'ENDOFFRAME' and s.aux.get('end') != 0:
                    j.fail('', 'ends the frame before the end of the text')
                continue
            s.aux.pop('ev', None)
            e = dflt(ev, pred)
            if e:
                j.fail('', e)
            j.enter(o[0], o[1], s, (('T',), regs), (), (), '')
        j.run(self.exits)
        return j


H = vlib.VERIF + '/harness/P17.cc'
KEEP = ['^ron::Slice::', '^ron::Range::(Range\\(unsigned char|begin|end|size|empty|Consume)', '^ron::Word::Word\\(unsigned char, ron::Slice',
        'decode_', '::data\\(']


def offsets(c):
    """where a cursor keeps its parts"""
    m = c.ir([H, 'ron/text.cc', 'ron/uuid.cc'], ['^h_'], inline=['ron::'], keep=['vector'])

    def ret(n):
        it = ai.Interp(c.fn(m, '^%s$' % n), m, partition=True, track=True).run()
        return it, list(it.rets.values())
    for n, off in (('h_data', OFF['data']), ('h_op', OFF['op'])):
        _, r = ret(n)
        c.need(len(r) == 1 and r[0][0] == ai.P(('P', ('in', 'a0')), off), 'layout of a cursor (%s)' % n)
    for n, w in (('h_term', ('m', OFF['term'], 0)), ('h_size', ('m', 8, 32)), ('h_cp', ('m', 8, 0))):
        _, r = ret(n)
        c.need(len(r) == 1 and r[0][0].b[:4] == field(w), 'layout (%s)' % n)
    f = c.fn(m, '^h_cursor$')
    init = ai.Interp(f, m, partition=True, track=True, argvals={0: CUR}, model=lambda it, I, cd, a, st, ctx: ai.fresh_for(I['ty'], I.get('w') or 0, ('lost',))).run()
    for rv, st in init.rets.values():
        it = ai.Interp.__new__(ai.Interp)
        it.loadhook = None
        for off, size, want in ((OFF['cs'], 1, 0), (44, 4, 1), (48, 4, 0)):
            v = ai.Interp.load(it, st, ai.P(CUR.o, off), size, False, 0)
            c.need(v.const() == want, 'state of a new cursor: %d is %r, not %d' % (off, v, want))
    return m, ret


def field(w):
    _, off, at = w
    l = ai.Label(('m', ('P', ('in', 'a0')), off, 0), 64)
    return tuple((l, i) for i in range(at, at + 4))


def tables(c, m, ret):
    import numpy as np
    import tab
    def whole(n, pairs, what):
        f = c.fn(m, '^%s$' % n)
        bad = []
        for x, want in pairs:
            it = ai.Interp(f, m, partition=True, track=True, argvals={0: ai.const(8, x)}).run()
            got = [rv.const() for rv, st in it.rets.values()]
            c.need(len(got) == 1 and got[0] is not None, '%s of %r' % (n, chr(x)))
            c.sites += 1
            if got[0] != want:
                bad.append('%r gives %#x, not %#x' % (chr(x), got[0], want))
        c.ob(what, not bad, '; '.join(bad), 'ron/text.hpp')
    esc = {'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}
    whole('h_esc', [(x, esc.get(chr(x), x)) for x in sorted(grammar.ESC)], 'an escaped char stands for what it stands for in JSON')
    whole('h_chr2term', [(ord(x), i) for i, x in enumerate(';,!?')], 'a term char tells its term')
    abc = globalbytes(c, m, 'ron::ABC')
    for i, ch in enumerate('0123456789ABCDEF'):
        c.ob('variety %s is %d' % (ch, i), abc[ord(ch)] == i, 'table gives %d' % abc[ord(ch)], 'ron/uuid.cc')
    for i, ch in enumerate('$%+-'):
        c.ob('version %s is %d' % (ch, i), abc[ord(ch)] == i, 'table gives %d' % abc[ord(ch)], 'ron/uuid.cc')
    # \uXXXX
    a16 = globalbytes(c, m, 'ron::ABC16')
    for ch in sorted(grammar.XHEX):
        c.ob('hex digit %s' % chr(ch), a16[ch] == int(chr(ch), 16), 'table gives %d' % a16[ch], 'ron/uuid.cc')
    it, _ = ret('h_hex')
    lab = {}

    def find(t):
        if isinstance(t, ai.Label) and t.t[0] == 'idx' and 'ABC16' in repr(t.t[1]):
            g = re.search(r'\.0\[(\d+)\.\.', repr(t))
            lab[t] = int(g.group(1)) // 8 if g else None
            return
        for x in (t.t if isinstance(t, ai.Label) else t.b if isinstance(t, ai.V) else t if isinstance(t, (tuple, list)) else ()):
            if isinstance(x, (ai.Label, ai.V, tuple, list)):
                find(x)
    for (ctx, b), (rv, st) in it.rets.items():
        find(ctx)
        find(rv)
    c.need(sorted(lab.values(), key=str) == [0, 1, 2, 3], 'digits of \\uXXXX: %r' % sorted(lab.values(), key=str))
    env = np.meshgrid(*[np.arange(16, dtype=np.uint64)] * 4, indexing='ij')
    env = [x.ravel() for x in env]
    want = (env[0] << np.uint64(12)) | (env[1] << np.uint64(8)) | (env[2] << np.uint64(4)) | env[3]
    try:
        bad = tab.refute(it, {l: env[i] for l, i in lab.items()}, want)
    except tab.NoTab as e:
        raise vlib.Broken('h_hex: %s' % str(e)[:200])
    c.ob('\\uXXXX is read digit by digit', bad is None, bad or '', 'ron/text.cc')


def globalbytes(c, m, d):
    g = [x for x in m['globals'].values() if x['d'] == d]
    c.need(len(g) == 1 and g[0].get('const') and 'bytes' in (g[0].get('init') or {}), 'table %s' % d)
    return g[0]['init']['bytes']


def report(c, what, j, loc):
    c.paths += j.trans
    c.sites += len(j.seen)
    c.ob(what, not j.errors, '; '.join('%s after %r' % (e, p) for p, e in j.errors[:8]), loc)


# -- one op of a frame ----------------------------------------------------
NILG = ('g', '_ZN3ron4Uuid3NILE')


def words(p):
    return tuple(ai.lab(64, ('m', p, o, 0)) for o in (0, 8))


def inc(v):
    return ai.binop('add', v, ai.const(64, 1))


def defaults(ev, pred):
    """id and ref an op has when its spec says nothing"""
    e = pred.get(('noatoms',))
    if e is None:
        return 'does not ask for the op before'
    o, v = words(NILG if e else ('at', 0))
    if ev[:1] != (('clear',),):
        return 'keeps atoms of the op before'
    want = [(0, o, inc(v)), (0, o, v)]
    got = [x[1:] for x in ev[1:] if x[0] == 'push']
    if len(ev) != 3 or got != want:
        return 'starts an op with %s' % auto.show(ev[1:])
    return None


def ops(c, m, f):
    w = Walk(c, m, f, 48)
    todo, done = [0], set()
    while todo:
        cs = todo.pop()
        done.add(cs)
        w.resume = set()
        j = w.run(cs, defaults)
        c.need(j.errors or j.trans > 5000 and w.judged > 1000, 'the grammar is walked from state %d (%d steps)' % (cs, j.trans))
        report(c, 'ops of a frame are read as written, from parser state %s' % ('of a new cursor' if cs == 0 else 'after an op'), j, SRC)
        todo += [x for x in w.resume if x not in done and x not in todo]
        c.need(len(done) < 6, 'states after an op')
    return done


def spans(c, m, f):
    """an op of a span: the next id, the id before as the ref, the next char"""
    for ty in range(4):
        for cp in (0, 5):
            w = Walk(c, m, f, 48)
            sc = w.scanner()
            span = ai.lab(32, ('reg', ('span0',)))
            st = start(74, span)
            st.facts[span.label()] = ((1, (1 << 32) - 1),)
            o = ai.lab(64, ('back0',))
            o = ai.V(64, list(o.b[:62]) + [ty & 1, ty >> 1])
            ai.Interp.store(sc, st, ai.P(('back',), 0), o, 8)
            ai.Interp.store(sc, st, ai.P(('back',), 8), ai.V(64, list(ai.const(32, cp).b) + list(ai.lab(32, ('left',)).b)), 8)
            want = cp and ty == 2
            err = None
            n = 0
            for x in sc.explore(sc.fn['blocks'][0]['id'], 0, st, 0):
                n += 1
                s = x[2]
                ev = list(s.aux.get('ev', ()))
                o0, v0 = words(('at', 0))
                ncp = [e for e in ev if e[0] == 'ncp']
                due = {(1, 0): o0, (1, 8): v0, (0, 8): inc(v0), (0, 0): o0}
                rest = {(0, 0): o0}
                rest.update({e[1:3]: e[3] for e in ev if e[0] == 'w'})
                other = [e for e in ev if e[0] not in ('w', 'ncp')]
                if x[0] != 'exit' or s.aux.get('status') != 'OK':
                    err = 'is not taken at once (%s)' % s.aux.get('status')
                elif rest != due or other:
                    err = 'does %s' % auto.show(tuple(ev))
                elif ncp != ([('ncp', 'back')] if want else []):
                    err = 'does %s' % auto.show(tuple(ncp)) if ncp else 'does not take the next char'
                elif vlib.linear(w.span(s)) != vlib.linear(ai.binop('sub', span, ai.const(32, 1))):
                    err = 'leaves %r ops of the span' % w.span(s)
                elif tm.ends(w.cell(s, 8, 8)) != (tm.TEXT0, tm.END0) or w.cell(s, OFF['cs'], 1).const() != 74:
                    err = 'moves the cursor'
                elif w.cell(s, OFF['term'], 1).b != ai.lab(64, ('m', CUR.o, OFF['term'], 0)).b[:8]:
                    err = 'changes the term'
            c.need(n, 'op of a span')
            c.paths += n
            c.ob('an op of a span, last atom %s%s' % (('UUID', 'INT', 'STRING', 'FLOAT')[ty], ' with chars' if cp else ''),
                 err is None, err or '', SRC)


# -- a UUID of its own ----------------------------------------------------
class UuidRef:
    classes = staticmethod(grammar.classes)

    def step(self, rs, b, st, sc):
        mode, regs = rs
        regs = dict(regs)
        if mode == ('poison',):
            return [(rs, ())]
        n = grammar.Uuid.start(b, regs) if mode == ('u',) else grammar.Uuid.step(mode[1], b, regs)
        return [((('u', n), regs), ())] if n else [((('poison',), {'begin': regs['begin']}), ())]


THIS = ai.P(('uuid',), 0)


def isfatal(p):
    return p.o == ('g', '_ZN3ron4Uuid5FATALE') and p.off == 0


def uuid(c):
    m = c.ir(['ron/uuid-parser.cc'], ['^ron::Uuid::Uuid\\(ron::Slice'], inline=['^ron::'], keep=KEEP)
    f = c.fn(m, r'^ron::Uuid::Uuid\(ron::Slice')

    class S(auto.Scanner):
        def oncopy(self, st, d, n):
            pass
    sc = S(f, m, tm.model, argvals={0: THIS, 1: tm.BUF, 2: ai.lab(64, ('sl', tm.TEXT0, tm.END0))})
    j = auto.Joint(sc, UuidRef())
    F = tuple(ai.lab(64, ('m', ('g', '_ZN3ron4Uuid5FATALE'), o, 0)) for o in (0, 8))

    def got(st):
        return tuple(ai.Interp.load(sc, st, ai.P(THIS.o, o), 8, False, 0) for o in (0, 8))

    def judge(st, mode, regs, after):
        v, o = got(st)[1], got(st)[0]
        if mode == ('u',):     # no text
            z = {'variety': grammar.c8('0'), 'version': grammar.c8('$'), 'value': (ai.NULL, ai.const(64, 0)),
                 'origin': (ai.NULL, ai.const(64, 0))}
            return None if (v, o) == grammar.Uuid.words(z) else 'no text gives %r %r' % (v, o)
        ok = mode != ('poison',) and grammar.Uuid.final(mode[1], regs, after)
        for bad in (grammar.toolong(st, regs) if ok else [True]):
            if bad:
                if (o, v) == F:
                    return None
            elif (v, o) == grammar.Uuid.words(regs):
                return None
        return 'gives %r %r for %s' % (o, v, 'a UUID' if ok else 'what is no UUID')

    def exits(rv, st, rs, ev, refev, path, sub):
        mode, regs = rs
        if st.aux.get('end') is None or st.aux['end'] > 1:
            mode = ('poison',) if mode == ('poison',) else ('early',)
            if mode == ('early',):
                return 'stops in the middle of a UUID'
        return judge(st, mode, dict(regs), grammar.NEXT)
    st = ai.State()
    st.mem[THIS.o] = {}
    for o in sc.explore(sc.fn['blocks'][0]['id'], 0, st, 0):
        if o[0] == 'exit':
            e = judge(o[2], ('u',), {}, tm.TEXT0)
            if e:
                j.fail('', e)
        else:
            j.enter(o[0], o[1], o[2], (('u',), {'begin': tm.TEXT0}), (), (), '')
    j.run(exits)
    c.need(j.errors or len(j.seen) > 4, 'UUID texts are walked')
    report(c, 'a UUID is read from its own text as from a frame', j, 'ron/uuid-parser.cc')


# -- chars ----------------------------------------------------------------
def V32(v):
    return ai.V(32, list(v.b) + [0] * (32 - v.w))


def lead(n):
    return ai.V(32, (list(grammar.CH0.b[:{1: 8, 2: 5, 3: 4, 4: 3}[n]]) + [0] * 32)[:32])


def decode(sub, b, regs):
    """regs['cp'] after one more byte of a char; (new sub, begins) or None"""
    r = grammar.chars(sub, b)
    if r is None:
        return None
    ch = grammar.CH0
    k = sub[0] if isinstance(sub, tuple) else sub
    if k == 0 and r[0] != 'esc':
        n = 1 + (r[0][1] if r[0] else 0)
        regs['cp'] = lead(n)
    elif k == 'c':
        regs['cp'] = ai.V(32, list(ch.b[:6]) + list(regs['cp'].b[:26]))
    elif k == 'esc' and r[0] == 0:
        regs['cp'] = ai.V(32, list(ai.lab(8, ('esc', ch)).b[:7]) + [0] * 25)
    elif k == 'u' and r[0] == 0:
        regs.pop('cp', None)
        regs.update(u0=ai.P(auto.TEXT, -3), u1=grammar.NEXT)    # (decoded at once or later)
    return r


class Utf8Ref:
    """a text of chars without escapes; every char is given once complete"""
    classes = staticmethod(grammar.classes)

    def step(self, rs, b, st, sc):
        mode, regs = rs
        regs = dict(regs)
        if mode == ('poison',):
            return [(rs, ())]
        ev = ()
        sub = mode[1]
        ch = grammar.CH0
        if sub == 0:
            n = [n for n, s in grammar.LEAD.items() if b in s]
            if not n:
                return [(grammar.POISON, ())]
            n = n[0]
            regs['cp'] = lead(n)
        else:
            if b not in grammar.CONT:
                return [(grammar.POISON, ())]
            n = sub
            regs['cp'] = ai.V(32, list(ch.b[:6]) + list(regs['cp'].b[:26]))
        if n == 1:
            ev = (('push', regs.pop('cp')),)
        return [((('c', n - 1), regs), ev)]


class CharRef:
    """the first char of a text of a frame's chars"""
    classes = staticmethod(grammar.classes)

    def step(self, rs, b, st, sc):
        mode, regs = rs
        regs = dict(regs)
        if mode[0] in ('done', 'free'):
            return [((('free',), regs), ())]
        sub, pend = mode[1:]
        if sub == 0 and pend:    # the first char is there, does another one follow?
            return [((('done',) if grammar.chars(0, b) else ('free',), regs), ())]
        r = decode(sub, b, regs)
        return [((('c', r[0], 1), regs), ())] if r else [((('free',), regs), ())]


def utf8(c):
    m = c.ir(['ron/utf8-parser.cc'], ['^ron::ParseUtf8\\('], inline=['^ron::'], keep=KEEP)
    f = c.fn(m, r'^ron::ParseUtf8\(')

    def model(it, I, cd, args, st, ctx):
        if re.search(r'basic_string<char.*>::(data|c_str)\(\)', cd):
            return tm.TEXT0
        if re.search(r'basic_string<char.*>::(size|length)\(\)', cd):
            return ai.lab(64, ('len',))
        if 'vector<unsigned int' in cd and re.search(r'::(push_back|emplace_back)\b', cd):
            tm.event(st, 'push', tm.ld(it, st, args[1], 4))
            return None
        return tm.model(it, I, cd, args, st, ctx)

    class S(auto.Scanner):
        def assume(self, st, t, pol, I):
            if isinstance(t, tuple) and t[0] == 'eq' and ('c', 0) in t[1:] and ai.Label(('len',), 64) in t[1:]:
                t = ('peq', tm.END0, tm.TEXT0)
            return super().assume(st, t, pol, I)

        def step_inst(self, I, st, ctx):
            if I['op'] == 'getelementptr':
                b = self.val(I['base'], st)
                if b == tm.TEXT0 and I.get('var') and I.get('off', 0) == 0:
                    v = [self.val(x[0] if isinstance(x, (list, tuple)) else x['idx'] if 'idx' in x else x, st) for x in I['var']]
                    if len(v) == 1 and isinstance(v[0], ai.V) and v[0] == ai.lab(64, ('len',)):
                        return tm.END0
            return super().step_inst(I, st, ctx)
    sc = S(f, m, model, argvals={0: ai.P(('into',), 0), 1: ai.P(('from',), 0)})
    j = auto.Joint(sc, Utf8Ref())
    res = {}

    def exits(rv, st, rs, ev, refev, path, sub):
        mode = rs[0]
        k = kind(rv)
        if st.aux.get('end') is None or st.aux['end'] > 1:
            if mode != ('poison',):
                return 'stops in the middle of the text'
        want = 'OK' if mode == ('c', 0) else 'BADSYNTAX'
        if k != want:
            return 'gives %s, not %s' % (k, want)
        if want == 'OK' and ev != refev:
            return 'gives the chars %s, not %s' % (auto.show(ev), auto.show(refev))
        return None
    for o in sc.explore(sc.fn['blocks'][0]['id'], 0, ai.State(), 0):
        if o[0] == 'exit':
            if kind(o[1]) != 'OK' or o[2].aux.get('ev'):
                j.fail('', 'gives %s for no text' % kind(o[1]))
        else:
            j.enter(o[0], o[1], o[2], (('c', 0), {}), (), (), '')
    j.run(exits)
    c.need(j.errors or len(j.seen) > 4, 'UTF-8 texts are walked')
    report(c, 'UTF-8 text is read char by char', j, 'ron/utf8-parser.cc')


def kind(rv):
    """name of a result"""
    ns = set(re.findall(r'_ZN3ronL?\d+(OK|BADSYNTAX|ENDOFINPUT)E', repr(rv)))
    return ns.pop() if len(ns) == 1 else repr(rv)


ATOM = ai.P(('atom',), 0)


def char(c):
    m = c.ir(['ron/cp-parser.cc'], ['^ron::TextFrame::Cursor::NextCodepoint\\('], inline=['^ron::'], keep=KEEP)
    f = c.fn(m, r'^ron::TextFrame::Cursor::NextCodepoint\(')

    def model(it, I, cd, args, st, ctx):
        if 'Cursor::data(' in cd:
            a = [x for x in args if isinstance(x, ai.V)]
            l = a[0] if a else tm.ld(it, st, args[-1], 8)
            return ai.A([tm.BUF, l]) if tm.ends(l) else NotImplemented
        if re.match(r'^ron::Range::Consume', cd) and args[0].o == ATOM.o:
            v = tm.ld(it, st, args[0], 8)
            be = tm.ends(v)
            b = be and tm.after(be[0], args[1])
            it.store(st, args[0], ai.lab(64, ('sl', b, be[1])) if b is not None and be else tm.lost(64), 8)
            return None
        return tm.model(it, I, cd, args, st, ctx)
    sc = auto.Scanner(f, m, model, argvals={0: CUR, 1: ATOM})
    j = auto.Joint(sc, CharRef(), near=8)
    left = ai.lab(32, ('reg', ('left',)))
    st = ai.State()
    st.mem[ATOM.o] = {}
    ai.Interp.store(sc, st, ATOM, ai.lab(64, ('sl', tm.TEXT0, tm.END0)), 8)
    ai.Interp.store(sc, st, ai.P(ATOM.o, 8), ai.V(64, list(ai.lab(32, ('old',)).b) + list(left.b)), 8)

    def cell(st, off, size):
        return ai.Interp.load(sc, st, ai.P(ATOM.o, off), size, False, 0)

    def exits(rv, st, rs, ev, refev, path, sub):
        mode, regs = rs
        eof = st.aux.get('end') is not None and st.aux['end'] <= 1
        k = kind(rv)
        if mode[0] == 'free':
            return None
        if mode[0] == 'done':
            at = tm.TEXT0
        elif mode[1] == 0 and eof:
            at = grammar.NEXT
        elif eof:
            return None if k != 'OK' else 'takes a part of a char'
        else:
            return 'stops (%s) in the middle of a char' % k
        if k != 'OK':
            return 'gives %s for a char' % k
        want = regs.get('cp') or ai.lab(32, ('hex', regs['u0'], regs['u1']))
        if cell(st, 8, 4) != want:
            return 'reads %r, not %r' % (cell(st, 8, 4), want)
        if vlib.linear(cell(st, 12, 4)) != vlib.linear(ai.binop('sub', regs['left'], ai.const(32, 1))):
            return 'leaves %r chars' % cell(st, 12, 4)
        be = tm.ends(cell(st, 0, 8))
        if be != (at, tm.END0):
            return 'is not left at the next char (%r)' % (be,)
        return None
    for o in sc.explore(sc.fn['blocks'][0]['id'], 0, st, 0):
        s = o[2]
        iv = s.facts.get(left.label())
        if o[0] == 'exit':
            if iv == ((0, 0),):
                if kind(o[1]) != 'ENDOFINPUT' or cell(s, 8, 4).const() != 0:
                    j.fail('', 'gives %s, not ENDOFINPUT, when no chars are left' % kind(o[1]))
            elif kind(o[1]) == 'OK':
                j.fail('', 'reads a char from no text')
        else:
            if iv is None or iv[0][0] < 1:
                j.fail('', 'reads on when no chars are left')
            j.enter(o[0], o[1], s, (('c', 0, 0), {'begin': tm.TEXT0, 'left': left}), (), (), '')
    j.run(exits)
    c.need(j.errors or len(j.seen) > 8, 'chars are walked')
    report(c, 'the next char of a string, with escapes', j, 'ron/cp-parser.cc')


def check(c):
    m, ret = offsets(c)
    c.part(tables, c, m, ret)
    c.part(uuid, c)
    c.part(utf8, c)
    c.part(char, c)
    m, f = base(c)
    c.part(ops, c, m, f)
    c.part(spans, c, m, f)
    c.rule('each scanner, unrolled into a transducer over byte classes, is walked jointly with the reference transducer of '
           'the RON grammar (lib/grammar.py); in every joint state the same ops, errors and register values are due')
