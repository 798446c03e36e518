"""A world of frames for the merge analyses: a cursor is (frame number,
position), an op is its identity (symbolic id and reference words ordered by a
decision table); the builder is the trace of what was appended to it."""
import re
import absint as ai
import order
import strs
import vecs

PAYLOAD = (1 << 60) - 1
STATUS = ['OK', 'ENDOFFRAME', 'ENDOFINPUT', 'NOT_IMPLEMENTED', 'NOT_FOUND', 'BAD_STATE', 'BADARGS', 'BADSYNTAX',
          'DB_FAIL', 'IOFAIL', 'BADFRAME', 'BADID', 'BADREF', 'BADVALUE', 'NOTYPE', 'NOTOPEN', 'CHAINBREAK', 'HASHBREAK',
          'TREEBREAK', 'CAUSEBREAK', 'TREEGAP', 'YARNGAP', 'REPEAT', 'REORDER', 'CONFLICT']
RAW, REDUCED, HEADER, QUERY = 0, 1, 2, 3
GLOBALS = {}   # what the static initialisers leave
CS = 56   # sizeof(Cursor)
FRESH = 0x0fff0000   # the size of a frame's text


class Op:
    """one op: its name, id rank, and the name of the op it refers to (or None)"""

    def __init__(self, name, ref=None, term=REDUCED, atoms=()):
        self.name, self.ref, self.term, self.atoms = name, ref, term, tuple(atoms)

    def __repr__(self):
        return self.name


def half(kind, name):
    """a word of a symbolic UUID; the atom type bits are those of a UUID"""
    if kind == 'o':     # an event: version TIME
        l = ai.Label(('in', 'org.' + name), 60)
        v = ai.V(64, [(l, i) for i in range(60)] + [0, 1, 0, 0])
        return v, v
    l = ai.Label(('in', 'val.' + name), 64)
    return ai.V(64, [(l, i) for i in range(64)]), l


def base64name(s):
    """the value word of a name UUID"""
    B = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~'
    n = 0
    for ch in s.ljust(10, '0'):
        n = n << 6 | B.index(ch)
    return n


class World:
    def __init__(self, frames, ids, variant='A', cursors=None, invec=('curs',), consts=None):
        """frames: list of op lists; ids: id names in ascending order;
        variant: how the order is realised in the two words"""
        self.frames = frames
        self.ids = list(ids)
        self.invec = invec
        n = len(ids)
        rank = {}
        for i, nm in enumerate(self.ids):
            v, o = half('v', nm)[1], half('o', nm)[1]
            # 0 is the zero word
            rank[v] = 1 + (i if variant in 'AC' else 0)
            rank[o] = 1 + {'A': n - i, 'B': i, 'C': 0}[variant]
        self.consts = consts or {}
        cr = {0: 0}
        for v, o in self.consts.values():
            for x in (v, o):
                cr.setdefault(x, -1 - len(cr))
        self.order = order.Order(rank, cr)
        self.forms = {}      # value word -> form code, for uuid2form
        self.payload = {}    # (type, raw origin word) -> parsed value
        self.arrays = {}     # object of a frame vector -> frame numbers

    def word(self, nm, kind):
        if nm in self.consts:
            return ai.const(64, self.consts[nm][1 if kind == 'o' else 0])
        return half(kind, nm)[0]

    def decide(self, it, c, st, I):
        return self.order.decide(it, c, st, I)

    # -- the cursors ------------------------------------------------------
    def place(self, it, st, p, k, pos):
        """make the cursor at p stand on op pos of frame k"""
        it.store(st, p, ai.P(('frame', k), 0), 8)
        it.store(st, ai.P(p.o, p.off + 8), ai.const(64, pos), 8)
        self.setop(it, st, p, k, pos)

    def setop(self, it, st, p, k, pos):
        ok = 0 <= pos < len(self.frames[k])
        if ok:
            op = self.frames[k][pos]
            n = 32 + 16 * len(op.atoms)
            o = ('opatoms', k, pos, n)
            it.store(st, ai.P(p.o, p.off + 16), ai.P(o, 0), 8)
            it.store(st, ai.P(p.o, p.off + 24), ai.P(o, n), 8)
            it.store(st, ai.P(p.o, p.off + 32), ai.P(o, n), 8)
            it.store(st, ai.P(p.o, p.off + 40), ai.const(8, op.term), 1)
        it.store(st, ai.P(p.o, p.off + 41), ai.const(8, 9 if ok else 0), 1)

    bad = None      # a use of an op that is out of its contract

    def at(self, it, st, p):
        d = it.load(st, p, 8, True, ('at',))
        if isinstance(d, ai.P) and d.o[0] == 'frame' and isinstance(p.off, int):
            w = it.load(st, ai.P(p.o, p.off + 8), 8, False, ('at',))
            if isinstance(w, ai.V) and w.const() == FRESH << 32:
                return d.o[1], -1       # just made from the frame
        pos = it.load(st, ai.P(p.o, p.off + 8), 8, False, ('at',))
        if not isinstance(d, ai.P) or d.o[0] != 'frame' or not isinstance(pos, ai.V) or pos.const() is None:
            return None
        n = pos.const()
        return d.o[1], n - (1 << 64) if n >> 63 else n     # -1: before the first op

    # -- abstract memory of ops and status constants ------------------------
    def init(self, it, st):
        for o, cells in GLOBALS.items():
            st.mem[o] = dict(cells)
        for i, s in enumerate(STATUS):
            o = ('g', '_ZN3ron6Status%d%sE' % (len(s), s))
            it.store(st, ai.P(o, 0), ai.const(64, 0 if s == 'OK' else PAYLOAD), 8)
            it.store(st, ai.P(o, 8), ai.const(64, 0 if s == 'OK' else 1000 + i), 8)
            strs.put(st, ai.P(o, 16), ())
        for n in ('LWW', 'RGA', 'MX', 'MAX', 'LOG', 'YARN', 'META', 'ZERO', 'VV'):
            o = ('g', '_ZN3ronL%d%s_FORM_UUIDE' % (len(n) + 10, n))
            it.store(st, ai.P(o, 0), ai.const(64, 0), 8)
            it.store(st, ai.P(o, 8), ai.const(64, base64name(n.lower())), 8)
        for k, f in enumerate(self.frames):
            for i, op in enumerate(f):
                o = ('opatoms', k, i, 32 + 16 * len(op.atoms))
                ws = [(op.name, op.ref)]
                for j, nm in enumerate((op.name, op.ref)):
                    org = ai.const(64, 0) if nm is None else self.word(nm, 'o')
                    val = ai.const(64, 0) if nm is None else self.word(nm, 'v')
                    it.store(st, ai.P(o, 16 * j), org, 8)
                    it.store(st, ai.P(o, 16 * j + 8), val, 8)
                for j, (val, org) in enumerate(op.atoms):
                    it.store(st, ai.P(o, 32 + 16 * j), org, 8)
                    it.store(st, ai.P(o, 40 + 16 * j), val, 8)

    def cursors(self, it, st, vec, ks, advanced=True):
        """a vector of cursors at vec, one per frame of ks"""
        o = self.invec
        for i, k in enumerate(ks):
            self.place(it, st, ai.P(o, CS * i), k, 0)
        b = ai.P(o, 0) if ks else ai.NULL
        e = ai.P(o, CS * len(ks)) if ks else ai.NULL
        vecs.put(it, st, vec, b, e)

    # -- calls ----------------------------------------------------------------
    def status(self, it, st, p, name):
        o = ('g', '_ZN3ron6Status%d%sE' % (len(name), name))
        it.memcpy(st, p, ai.P(o, 0), 16)
        strs.put(st, ai.P(p.o, p.off + 16), ())

    def emit(self, st, bld, item):
        k = ('trace', bld.o, bld.off)
        t = st.aux.get(k, ())
        if len(t) > 40 + 8 * sum(map(len, self.frames)):
            raise ai.Misuse('writes more ops than there are, without end: ... %s' % (t[-3:],))
        st.aux[k] = t + (item,) if t[:1] != ('join',) else t

    def trace(self, st, bld):
        return st.aux.get(('trace', bld.o, bld.off), ())

    def text(self, it, I, cd, args, st):
        """frames as strings: the input frames, and what a builder released"""
        m = re.match(r'bool __gnu_cxx::operator(==|!=)<.*basic_string', cd)
        if m and len(args) == 2:        # iterators over texts
            a, b = (it.load(st, x, 8, True, ('iter',)) for x in args)
            if isinstance(a, ai.P) and isinstance(b, ai.P) and a.o == b.o and isinstance(a.off, int) and isinstance(b.off, int):
                return ai.const(1, int((a.off == b.off) == (m.group(1) == '==')))
        if re.match(r'((void )?std::swap<char, .*|std::__cxx11::basic_string<char.*::swap\()std::__cxx11::basic_string<char', cd) and \
                len(args) == 2 and isinstance(args[0], ai.P) and isinstance(args[1], ai.P):
            ks = [('trace', x.o, x.off) for x in args]
            st.aux[ks[0]], st.aux[ks[1]] = (st.aux.get(k, ()) or (('emptied',),) for k in ks[::-1])
            return None
        m = re.search(r'__normal_iterator<(?:const )?std::__cxx11::basic_string<char.*::operator(\*|->|\+\+)\((int)?\)', cd)
        if m and args and isinstance(args[0], ai.P) and not m.group(2):
            a = it.load(st, args[0], 8, True, ('iter',))
            if m.group(1) != '++':
                return a
            if isinstance(a, ai.P) and isinstance(a.off, int):
                it.store(st, args[0], ai.P(a.o, a.off + 32), 8)
                return args[0]
        if not cd.startswith('std::__cxx11::basic_string<') or not args or not isinstance(args[0], ai.P):
            return NotImplemented
        m = vecs.member(cd)
        if m in ('data', 'c_str', 'size', 'length') and args[0].o in self.arrays and isinstance(args[0].off, int):
            k = self.arrays[args[0].o][args[0].off // 32]
            return ai.P(('frame', k), 0) if m in ('data', 'c_str') else ai.const(64, FRESH)
        if m in ('operator=', 'basic_string') and len(args) == 2 and isinstance(args[1], ai.P):
            t = self.trace(st, args[1])
            if t and t[-1] != ('moved',):
                self.emit(st, args[0], t[-1])
                if '&&)' in cd:
                    self.emit(st, args[1], ('moved',))
                return args[0] if m == 'operator=' else None
        return NotImplemented

    def model(self, it, I, cd, args, st, ctx):
        r = self.text(it, I, cd, args, st)
        if r is not NotImplemented:
            return r
        r = vecs.model(it, I, cd, args, st, ctx)
        if r is not NotImplemented:
            return r
        r = strs.model(it, I, cd, args, st, ctx)
        if r is not NotImplemented:
            return r
        h = cd.split('(')[0]
        if h.endswith('uuid2form') and len(args) == 2:
            ws = [x.const() if isinstance(x, ai.V) else None for x in args]   # origin, value
            return ai.const(8, self.forms[ws[1]]) if ws[1] in self.forms and ws[0] == 0 else NotImplemented
        if re.search(r'Cursor, .*emplace_back<(ron::TextFrame( const)?|std::__cxx11::basic_string<char.*)&>', cd) and args[1].o in self.arrays:
            k = self.arrays[args[1].o][args[1].off // 32]
            t = ai.P(('tmpcur', I['id'], it.level), 0)
            for i, n in enumerate(range(0, CS, 8)):
                it.store(st, ai.P(t.o, n), ai.const(64, 0), 8)
            self.place(it, st, t, k, -1)
            return vecs.model(it, I, re.sub(r'emplace_back<.*>\(.*\)$', 'emplace_back<ron::TextFrame::Cursor const&>(ron::TextFrame::Cursor const&)', cd), [args[0], t], st, ctx)
        if cd.endswith('Builder::Release()'):
            self.emit(st, args[0], ('released', self.trace(st, args[1])))
            return None
        if h.endswith('Builder::Release') and len(args) == 2:
            self.emit(st, args[1], ('released', self.trace(st, args[0])))
            return None
        if h.endswith('Cursor::Next'):
            w = self.at(it, st, args[1])
            if w is None:
                return NotImplemented
            k, pos = w
            if pos > 30 + 4 * len(self.frames[k]):
                raise ai.Misuse('reads on and on past the end of a frame')
            it.store(st, ai.P(args[1].o, args[1].off + 8), ai.const(64, pos + 1), 8)
            self.setop(it, st, args[1], k, pos + 1)
            self.status(it, st, args[0], 'OK' if pos + 1 < len(self.frames[k]) else 'ENDOFFRAME')
            return None
        if h.endswith('Cursor::ParseInteger') or h.endswith('Cursor::ParseFloat'):
            a = args[1]
            org = it.load(st, a, 8, False, ('pa',)).const()
            p = self.payload.get((1 if 'Integer' in h else 3, org))
            if p is None:
                return NotImplemented
            it.store(st, ai.P(a.o, a.off + 8), p, 8)
            return ai.const(I['w'], 0)
        if re.match(r'(ron::\w+ )?ron::ReadString<', cd) and self.payload:
            ints = [x for x in args[2:] if isinstance(x, ai.V)]
            if len(args) == 3 and ints:      # by index
                w, i = self.at(it, st, args[1]), ints[0].const()
                if w is None or i is None or i > 64:
                    return NotImplemented
                f = self.frames[w[0]]
                ats = f[w[1]].atoms if 0 <= w[1] < len(f) else []
                org = ats[i - 2][1].const() if 2 <= i < len(ats) + 2 else None
                what = 'value %d of %s' % (i, f[w[1]].name if 0 <= w[1] < len(f) else 'a frame that is over')
            else:
                org = ints[0].const() if ints else None
                what = 'a value'
            p = self.payload.get((2, org))
            if p is None:
                if len(args) != 3 or not ints:
                    return NotImplemented
                self.bad = 'reads %s as a string, which it is not' % what
                p = 'text0'
            st.aux[('text', args[0].o, args[0].off)] = p
            return ai.const(I['w'], 0) if I.get('w') else ai.A([ai.const(64, 0)])
        if self.payload and 'basic_string' in cd and len(args) == 2:
            m = re.search(r'operator(==|!=|<=|>=|<|>)<char|::(compare)\(', cd)
            ts = [st.aux.get(('text', x.o, x.off)) if isinstance(x, ai.P) else None for x in args]
            if m and None not in ts:
                a, b = ts
                if m.group(2):
                    return ai.const(I['w'], (a > b) - (a < b))
                return ai.const(1, int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b,
                                        '>=': a >= b}[m.group(1)]))
        if h.endswith('Builder::AppendOp'):
            w = self.at(it, st, args[1])
            if w is None:
                self.emit(st, args[0], ('op?',))
            else:
                k, pos = w
                f = self.frames[k]
                self.emit(st, args[0], ('op', f[pos].name if pos < len(f) else 'an op past the end of frame %d' % k))
            return None
        if h.endswith('Builder::EndChunk'):
            t = args[1].const() if len(args) > 1 and isinstance(args[1], ai.V) else None
            self.emit(st, args[0], ('end', t))
            return None
        if h.endswith('Status::comment') and len(args) == 3:
            it.memcpy(st, args[0], args[1], 16)
            strs.put(st, ai.P(args[0].o, args[0].off + 16), None)
            return None
        return NotImplemented

    def code(self, it, st, p):
        """the name of the status at p"""
        o = it.load(st, p, 8, False, ('st',)).const()
        v = it.load(st, ai.P(p.o, p.off + 8), 8, False, ('st',)).const()
        if o is None or v is None:
            return None
        if o != PAYLOAD:
            return 'OK' if v == 0 else 'a non-error code'
        return STATUS[v - 1000] if 1000 <= v < 1000 + len(STATUS) else None
