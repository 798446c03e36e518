"""A model of the RocksDB interface for the store analyses: database calls are
events, their results are unknown statuses, so every outcome of every call is
followed.  shared_ptr is its pointer word, std::string a pointer to a token."""
import re
import absint as ai
import vecs

KEEP = ['^([^(<]*[ *&])?std::(shared_ptr|__shared_ptr|vector|deque|unordered_map|make_shared|static_pointer_cast|swap|move|basic_string|unique_ptr|__cxx11|__shared_count|allocator|__new_allocator)',
        'std::enable_if<', '(unordered_map|_Hashtable)<ron::Uuid', r'^([^(<]*[ *&])?ron::MasterRDT', r'^([^(<]*[ *&])?ron::TextFrame::', 'ron::OneOp<', 'Uuid::str', 'Uuid::parse', r'^([^(<]*[ *&])?ron::Status::', 'MergeCursors',
        'rocksdb::Status::ToString', 'Word::write']
INLINE = ['^ron::', '^([^(<]*[ *&])?ron::', '^([^(<]*[ *&])?rocksdb::', '^__gnu_cxx', '^bool __gnu_cxx', 'std::pair', '^std::make_pair',
          '_Deque_iterator', '^([^(<]*[ *&])?std::operator[<>!=].*pair', '_Rb_tree']


def slots(c, m):
    """virtual method slots, as the compiler lays them out"""
    r = {}
    for f in m['functions']:
        g = re.match(r'^h_v_(\w+)', f['d'])
        if not g:
            continue
        seen = []

        def model(it, I, cd, args, st, ctx):
            if I.get('fnptr'):
                p = it.val(I['fnptr'], st)
                seen.append((p.o[1] if isinstance(p, ai.P) and p.o[0] == 'vfn' else None, len(args)))
            return NotImplemented
        cls = 'bat' if g.group(1) in ('BMerge', 'BPut') else 'it' if g.group(1) in (
            'Valid', 'Seek', 'SeekForPrev', 'Next', 'Prev', 'key', 'value', 'status') else 'cf' if g.group(1) == 'GetName' else 'db'

        def hook(it, st, p, sz, isptr, site):
            return vhook(cls, p, isptr)
        ai.Interp(f, m, model=model, loadhook=hook, argvals={0: ai.P((cls, 'x'), 0)}).run()
        ks = {k for k, n in seen if k is not None}
        if len(ks) != 1:
            raise c_broken('%s calls %d virtual methods' % (f['d'], len(ks)))
        if g.group(1).endswith('0'):
            r[(cls, ks.pop())] = g.group(1)
            continue
        r[(cls, ks.pop())] = g.group(1).lstrip('B') if cls == 'bat' else g.group(1)
    return r


def c_broken(s):
    import vlib
    return vlib.Broken(s)


def vhook(cls, p, isptr):
    if isptr and p.o[0] == cls and p.off == 0:
        return ai.P(('vt', cls), 0)
    if isptr and p.o == ('vt', cls) and isinstance(p.off, int):
        return ai.P(('vfn', p.off), 0)
    return None


VIRT = ('db', 'it', 'cf', 'bat')


def tok(t):
    return ai.P(('text', t), 0)


def member(cd):
    return vecs.member(cd.replace('operator->', 'operatorARROW')).replace('operatorARROW', 'operator->')


class Rocks:
    def __init__(self, c, m, families=0, extra=None):
        self.c, self.m = c, m
        self.slots = slots(c, m)
        self.families = families
        self.extra = extra
        self.off = {}
        for f in m['functions']:
            g = re.match(r'^h_(mop2|mop|create|cfd_name|cfd_opt|db|cf|tip|it|mkey|mex|mops|mout|rec_frame)(\(|$)', f['d'])
            if g:
                it = ai.Interp(f, m).run()
                (rv, st), = it.rets.values()
                c.need(isinstance(rv, ai.P) and isinstance(rv.off, int), 'layout of ' + f['d'])
                self.off[g.group(1)] = rv.off
                if rv.o != ('P', ('in', 'a0')):        # a reference: where it is kept
                    r = re.match(r"P\(a0\)\.(\d+)$", str(rv.o[1]))
                    c.need(r and rv.off == 0, 'layout of ' + f['d'])
                    self.off[g.group(1)] = int(r.group(1))
            g = re.match(r'^h_z_(\w+)', f['d'])
            if g:
                it = ai.Interp(f, m).run()
                (rv, st), = it.rets.values()
                self.off['z_' + g.group(1)] = rv.const()

    # -- state ------------------------------------------------------------
    def hook(self, it, st, p, sz, isptr, site):
        if p.o[0] in VIRT:
            return vhook(p.o[0], p, isptr)
        if p.o[0] == 'vt':
            return vhook(p.o[1], p, isptr)
        return None

    def emit(self, st, e):
        t = st.aux.get(('ev',), ())
        st.aux[('ev',)] = t if t[:1] == ('join',) else t + (e,)

    def events(self, st):
        t = st.aux.get(('ev',), ())
        return None if t[:1] == ('join',) else t

    def count(self, st, k):
        n = st.aux.get(('n', k), 0)
        st.aux[('n', k)] = n + 1 if isinstance(n, int) else n
        return n if isinstance(n, int) else '?'

    def text(self, it, st, p):
        """token of the std::string at p"""
        if not isinstance(p, ai.P):
            return None
        if p.o[0] == 'g':
            return ('global', p.o[1])
        w = it.load(st, p, 8, True, ('tx',))
        return w.o[1] if isinstance(w, ai.P) and w.o[0] == 'text' else None

    def settext(self, it, st, p, t):
        it.store(st, p, tok(t), 8)

    def bytes(self, it, st, p):
        """what the rocksdb::Slice at p refers to"""
        d = it.load(st, p, 8, True, ('sl',))
        n = it.load(st, ai.P(p.o, p.off + 8), 8, False, ('sl',))
        if not isinstance(d, ai.P):
            return None
        if d.o[0] == 'text':
            whole = d.off == 0 and isinstance(n, ai.V) and n.b[:32] == ai.lab(64, ('len', d.o[1])).b[:32]
            return ('text', d.o[1]) if whole else ('part', d.o[1])
        if n.const() == 16:
            return ('words', it.load(st, d, 8, False, ('sl',)), it.load(st, ai.P(d.o, d.off + 8), 8, False, ('sl',)))
        return None

    def ronst(self, it, st, p):
        if isinstance(p, ai.P) and p.o[0] == 'g':
            g = re.match(r'_ZN3ron6Status\d+([A-Z_]+)E$', p.o[1])
            return ('S', g.group(1)) if g else None
        t = st.aux.get(('ronst', p.o, p.off))
        return None if t is None or t[:1] == ('join',) else t

    def setronst(self, st, p, t):
        st.aux[('ronst', p.o, p.off)] = t

    def rc(self, it, st, p, what):
        """an unknown rocksdb status"""
        n = self.count(st, what)
        it.store(st, p, ai.lab(8, ('rc', what, n)), 1)
        for i in range(1, 6):
            it.store(st, ai.P(p.o, p.off + i), ai.lab(8, ('rcx', what, n, i)), 1)
        it.store(st, ai.P(p.o, p.off + 8), ai.P(('rcs', what, n), 0), 8)
        return (what, n)

    def merger(self, it, st, opts):
        """is the merge operator installed in the ColumnFamilyOptions at opts"""
        w = it.load(st, ai.P(opts.o, opts.off + self.off['mop']), 8, True, ('mo',))
        return isinstance(w, ai.P) and w.o[0] == 'made' and 'RDTMerge<ron::TextFrame' in w.o[1]

    # -- calls --------------------------------------------------------------
    def model(self, it, I, cd, args, st, ctx):
        r = self.extra(self, it, I, cd, args, st, ctx) if self.extra else NotImplemented
        if r is not NotImplemented:
            return r
        h = cd.split('(')[0]
        if I.get('fnptr'):
            p = it.val(I['fnptr'], st)
            a0 = args[1] if I.get('sret') else args[0]
            if isinstance(p, ai.P) and p.o[0] == 'g':     # an alias of a constructor or destructor
                if re.search(r'RocksDBStore\w*D\dEv$', p.o[1]):
                    return None
                if re.search(r'RocksDBStore\w*C\dESt10shared_ptrIvES\d_$', p.o[1]):
                    for a, o in ((1, 'db'), (2, 'cf')):
                        it.store(st, ai.P(args[0].o, args[0].off + self.off[o]), it.load(st, args[a], 8, True, ('sp',)), 8)
                    return None
            if isinstance(p, ai.P) and p.o[0] == 'fn':
                return NotImplemented
            if a0 == ai.NULL:
                self.emit(st, ('a call on no object',))
                if I.get('sret'):
                    self.rc(it, st, args[0], 'none')
                    return None
                return ai.NULL if I['ty'] == 'ptr' else NotImplemented
            if not isinstance(p, ai.P) or p.o[0] != 'vfn' or not isinstance(a0, ai.P):
                raise c_broken('an indirect call at %s through %r on %r' % (self.where(I), p, a0))
            n = self.slots.get((a0.o[0], p.o[1]))
            if n is None:
                raise c_broken('an unknown virtual call on %r at %s' % (a0.o, self.where(I)))
            return self.virt(it, I, n, args, st)
        g = re.match(r'^rocksdb::WriteBatch::(\w+)$', h)
        if g and I.get('sret'):
            return self.virt(it, I, g.group(1), args, st)
        g = re.match(r'^rocksdb::WriteBatch::WriteBatch', h)
        if g:
            return None
        if h.startswith('rocksdb::WriteBatch::~') or h.endswith('Options::~Options') or 'ColumnFamilyOptions::~' in h \
                or 'ColumnFamilyDescriptor::~' in h or '::~unique_ptr' in cd or '::~__shared_count' in cd or '::~allocator' in cd \
                or '::allocator(' in cd or '__new_allocator' in cd:
            return None
        if h in ('rocksdb::Options::Options',):
            it.store(st, ai.P(args[0].o, args[0].off + self.off['mop2']), ai.NULL, 8)
            it.store(st, ai.P(args[0].o, args[0].off + self.off['create']), ai.const(8, 0), 1)
            return None
        if h == 'rocksdb::ColumnFamilyOptions::ColumnFamilyOptions':
            w = ai.NULL
            if len(args) > 1 and isinstance(args[1], ai.P):
                w = it.load(st, ai.P(args[1].o, args[1].off + self.off['mop']), 8, True, ('mo',))
            it.store(st, ai.P(args[0].o, args[0].off + self.off['mop']), w, 8)
            return None
        if h == 'rocksdb::ColumnFamilyDescriptor::ColumnFamilyDescriptor':
            w, t = ai.NULL, ('global', 'default')
            if len(args) == 3:
                w = it.load(st, ai.P(args[2].o, args[2].off + self.off['mop']), 8, True, ('mo',))
                t = self.text(it, st, args[1])
            elif len(args) == 2:     # copy, move
                w = it.load(st, ai.P(args[1].o, args[1].off + self.off['cfd_opt'] + self.off['mop']), 8, True, ('mo',))
                t = self.text(it, st, args[1])
            self.settext(it, st, ai.P(args[0].o, args[0].off + self.off['cfd_name']), t)
            it.store(st, ai.P(args[0].o, args[0].off + self.off['cfd_opt'] + self.off['mop']), w, 8)
            return None
        if re.match(r'rocksdb::(Write|Read)Options::~?(Write|Read)Options$', h):
            return None
        if h == 'rocksdb::DB::Open':
            return self.dbopen(it, I, cd, args, st)
        if h == 'rocksdb::DB::ListColumnFamilies':
            v = args[3]
            k = self.rc(it, st, args[0], 'List')
            self.emit(st, ('List', k, self.text(it, st, args[2])))
            o = ('names',)
            for i in range(self.families):
                self.settext(it, st, ai.P(o, 32 * i), ('cfname', i))
            vecs.put(it, st, v, ai.P(o, 0), ai.P(o, 32 * self.families))
            return None
        if h == 'rocksdb::RepairDB':
            k = self.rc(it, st, args[0], 'Repair')
            fams = self.descriptors(it, st, args[3]) if len(args) > 3 and 'vector' in cd else None
            self.emit(st, ('Repair', k, self.text(it, st, args[1]), fams))
            return None
        if cd.startswith('rocksdb::Status::ToString'):
            self.settext(it, st, args[0], ('errtext',))
            return None
        r = self.sharedptr(it, I, cd, h, args, st)
        if r is not NotImplemented:
            return r
        r = self.string(it, I, cd, h, args, st)
        if r is not NotImplemented:
            return r
        r = self.status(it, I, cd, h, args, st)
        if r is not NotImplemented:
            return r
        r = self.frame(it, I, cd, h, args, st)
        if r is not NotImplemented:
            return r
        if 'std::deque<' in h:
            return self.deque(it, I, cd, h, args, st)
        if 'std::__deque_buf_size' in h:
            return ai.const(64, 32)
        if 'std::vector<' in h:
            return self.vector(it, I, cd, h, args, st, ctx)
        if h.startswith('operator new') or h.startswith('operator delete') or 'std::_Destroy' in h:
            return vecs.model(it, I, cd, args, st, ctx)
        if 'std::unordered_map<ron::Uuid' in h:
            m = member(cd)
            if m in ('reserve', 'rehash'):
                return None
            if m == 'clear':
                self.emit(st, ('clear',))
                return None
            if m in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
                a = args[2:] if I.get('sret') else args[1:]
                if isinstance(a[0], ai.P) and len(a) == 1:     # a pair
                    a = [a[0], ai.P(a[0].o, a[0].off + 16)]
                u = (it.load(st, a[0], 8, False, ('br',)), it.load(st, ai.P(a[0].o, a[0].off + 8), 8, False, ('br',)))
                self.emit(st, ('branch', u, self.ptr(it, st, ai.P(a[1].o, a[1].off + self.off['db'])),
                               self.ptr(it, st, ai.P(a[1].o, a[1].off + self.off['cf']))))
                return None if I['ty'] == 'void' or I.get('sret') else ai.A([ai.P(('mapit',), 0), ai.const(8, 1)])
        return NotImplemented

    def where(self, I):
        import vlib
        return vlib.where(I)

    def ptr(self, it, st, p):
        w = it.load(st, p, 8, True, ('pt',))
        return w.o if isinstance(w, ai.P) else None

    def descriptors(self, it, st, v):
        b, n = vecs.span(it, st, v)
        if n is None:
            return None
        z = self.off['z_cfd']
        return tuple((self.text(it, st, ai.P(b.o, b.off + i + self.off['cfd_name'])),
                      self.merger(it, st, ai.P(b.o, b.off + i + self.off['cfd_opt']))) for i in range(0, n, z))

    def dbopen(self, it, I, cd, args, st):
        k = self.rc(it, st, args[0], 'Open')
        o = args[1]
        if 'std::vector' in cd:
            fams = self.descriptors(it, st, args[3])
            self.emit(st, ('OpenAll', k, self.text(it, st, args[2]), fams))
            if fams is not None:
                b = ('handles',)
                for i in range(len(fams)):
                    it.store(st, ai.P(b, 8 * i), ai.P(('cf', fams[i][0]), 0), 8)
                vecs.put(it, st, args[4], ai.P(b, 0), ai.P(b, 8 * len(fams)))
            it.store(st, args[5], ai.P(('db', 'all'), 0), 8)
            return None
        cfo = ai.P(o.o, o.off + self.off['mop2'] - self.off['mop'])
        mk = it.load(st, ai.P(o.o, o.off + self.off['create']), 1, False, ('cr',)).const()
        self.emit(st, ('Open', k, self.text(it, st, args[2]), self.merger(it, st, cfo), mk))
        it.store(st, args[3], ai.P(('db', 'new'), 0), 8)
        return None

    def virt(self, it, I, n, args, st):
        s = args[0] if I.get('sret') else None
        a = args[1:] if I.get('sret') else args
        me = a[0].o

        if n.endswith('0'):            # the short forms use the default branch
            n = n[:-1]
            a = a[:2] + [ai.P(('cf', 'default'), 0)] + a[2:]

        def obj(p):
            return p.o if isinstance(p, ai.P) else None
        if n in ('Merge', 'Put') and me[0] == 'db':
            k = self.rc(it, st, s, n)
            self.emit(st, (n, k, me, obj(a[2]), self.bytes(it, st, a[3]), self.bytes(it, st, a[4])))
            return None
        if n in ('Merge', 'Put'):
            k = self.rc(it, st, s, 'B' + n)
            self.emit(st, ('B' + n, k, me, obj(a[1]), self.bytes(it, st, a[2]), self.bytes(it, st, a[3])))
            return None
        if n == 'Get':
            k = self.rc(it, st, s, n)
            self.emit(st, (n, k, me, obj(a[2]), self.bytes(it, st, a[3])))
            self.settext(it, st, a[4], ('row', k[1]))
            return None
        if n == 'Write':
            k = self.rc(it, st, s, n)
            self.emit(st, (n, k, me, obj(a[2])))
            return None
        if n == 'NewIterator':
            self.emit(st, (n, me, obj(a[2])))
            return ai.P(('it', 'new'), 0)
        if n == 'CreateColumnFamily':
            k = self.rc(it, st, s, n)
            self.emit(st, (n, k, me, self.merger(it, st, a[1]), self.text(it, st, a[2])))
            it.store(st, a[3], ai.P(('cf', 'created'), 0), 8)
            return None
        if n == 'DropColumnFamily':
            k = self.rc(it, st, s, n)
            self.emit(st, (n, k, me, obj(a[1])))
            return None
        if n == 'DefaultColumnFamily':
            return ai.P(('cf', 'default'), 0)
        if n == 'Valid':
            return ai.lab(I['w'] or 1, ('valid', self.moves(st)))
        if n in ('Seek', 'SeekForPrev'):
            self.emit(st, (n, me, self.bytes(it, st, a[1])))
            return None
        if n in ('Next', 'Prev'):
            self.emit(st, (n, me))
            return None
        if n in ('key', 'value'):
            t = (n, self.moves(st))
            self.emit(st, (n, me))
            p, z = tok(t), ai.lab(64, ('len', t))
            if n == 'key':
                p, z = ai.P(('rowkey', self.moves(st)), 0), ai.const(64, 16)
            if s is not None:
                it.store(st, s, p, 8)
                it.store(st, ai.P(s.o, s.off + 8), z, 8)
                return None
            return ai.A([p, z])
        if n == 'status':
            k = self.rc(it, st, s, 'status')
            self.emit(st, ('status', k, me))
            return None
        if n == 'GetName':
            if s is None:          # by reference
                self.settext(it, st, ai.P(('name', me), 0), me[1])
                return ai.P(('name', me), 0)
            self.settext(it, st, s, me[1])
            return None
        raise c_broken('no model of %s' % n)

    def moves(self, st):
        """how often the iterator moved"""
        return sum(1 for e in self.events(st) or () if e[0] in ('Seek', 'SeekForPrev', 'Next', 'Prev'))

    def sharedptr(self, it, I, cd, h, args, st):
        if 'shared_ptr' not in cd and 'make_shared' not in cd and 'static_pointer_cast' not in cd:
            return NotImplemented
        if 'make_shared' in h or 'make_shared<' in cd.split(' std::shared_ptr<')[0]:
            if I.get('sret'):
                n = self.count(st, 'made')
                it.store(st, args[0], ai.P(('made', re.sub(r'.*make_shared<', '', cd), n), 0), 8)
                return None
        if 'pointer_cast<' in h:
            it.store(st, args[0], it.load(st, args[1], 8, True, ('sp',)), 8)
            return None
        if not re.search(r'std::(__)?shared_ptr(_access)?<', h + '<') and not h.startswith('std::operator'):
            return NotImplemented
        m = member(cd)
        s = args[0]
        if 'enable_if<' in h or not m:
            g = re.search(r'>::(~?[a-z_A-Z]+|operator[^<(]*)(<[^()]*>)?\([^()]*\)( const)?$', cd)
            m = g.group(1) if g else m
        if 'operator==' in cd.split('(')[0] or 'operator!=' in cd.split('(')[0]:
            ws = [it.load(st, a, 8, True, ('sp',)) if isinstance(a, ai.P) and a != ai.NULL else ai.NULL for a in args[:2]]
            if len(args) == 1:
                ws.append(ai.NULL)
            if all(w == ai.NULL or isinstance(w, ai.P) and w.o[0] in VIRT + ('made',) for w in ws[:2]):
                return ai.const(1, int((ws[0] == ws[1]) == ('operator==' in cd.split('(')[0])))
            return NotImplemented
        if m in ('shared_ptr', '__shared_ptr'):
            ps = cd[cd.index('('):] if '(' in cd else ''
            ps = paramlist(cd)
            w = ai.NULL
            if len(args) > 1 and isinstance(args[1], ai.P):
                if ps and 'shared_ptr<' in ps[0]:
                    w = it.load(st, args[1], 8, True, ('sp',))
                    if ps[0].endswith('&&'):
                        it.store(st, args[1], ai.NULL, 8)
                else:
                    w = args[1]
            it.store(st, s, w, 8)
            return None
        if m in ('~shared_ptr', '~__shared_ptr'):
            return None
        if m == 'operator=':
            ps = paramlist(cd)
            w = it.load(st, args[1], 8, True, ('sp',))
            if ps and ps[0].endswith('&&'):
                it.store(st, args[1], ai.NULL, 8)
            it.store(st, s, w, 8)
            return s
        if m == 'reset':
            it.store(st, s, args[1] if len(args) > 1 and isinstance(args[1], ai.P) else ai.NULL, 8)
            return None
        if m == 'swap':
            a, b = (it.load(st, x, 8, True, ('sp',)) for x in args[:2])
            it.store(st, args[0], b, 8)
            it.store(st, args[1], a, 8)
            return None
        if m in ('get', 'operator->', 'operator*', '_M_get'):
            return it.load(st, s, 8, True, ('sp',))
        if m in ('operator bool', 'operator') and I.get('w') == 1 or m == 'use_count':
            w = it.load(st, s, 8, True, ('sp',))
            if w == ai.NULL or isinstance(w, ai.P) and w.o[0] in VIRT + ('made',):
                return ai.const(I['w'], int(w != ai.NULL))
        return NotImplemented

    def string(self, it, I, cd, h, args, st):
        if 'std::__cxx11::basic_string' not in cd:
            return NotImplemented
        if re.search(r'std::operator(==|!=)<char', h):
            a, b = self.text(it, st, args[0]), self.text(it, st, args[1])
            if a is None or b is None:
                return NotImplemented
            t = ai.lab(1, ('streq',) + tuple(sorted((a, b), key=str)))
            return t if 'operator==' in h else ai.binop('xor', t, ai.const(1, 1))
        if not h.startswith('std::__cxx11::basic_string<') and not re.match(r'^std::__cxx11::basic_string<', cd):
            return NotImplemented
        m = member(cd)
        if m in ('basic_string', 'operator=', 'assign'):
            ps = paramlist(cd)
            if ps and 'basic_string<' in ps[0]:
                self.settext(it, st, args[0], self.text(it, st, args[1]))
            elif len(args) > 1 and isinstance(args[1], ai.P):
                self.settext(it, st, args[0], ('lit', self.lit(it, st, args[1])))
            else:
                self.settext(it, st, args[0], ('lit', ''))
            return None if m == 'basic_string' else args[0]
        if m in ('~basic_string', 'reserve'):
            return None
        if m == 'clear':
            self.settext(it, st, args[0], ('lit', ''))
            return None
        if m in ('data', 'c_str'):
            t = self.text(it, st, args[0])
            return NotImplemented if t is None else tok(t)
        if m in ('size', 'length'):
            t = self.text(it, st, args[0])
            return NotImplemented if t is None else ai.const(64, len(t[1])) if t[0] == 'lit' and t[1] is not None else ai.lab(64, ('len', t))
        if m == 'empty':
            t = self.text(it, st, args[0])
            return NotImplemented if t is None else ai.const(1, int(t[1] == '')) if t[0] == 'lit' else ai.lab(1, ('empty', t))
        if m == 'swap':
            a, b = self.text(it, st, args[0]), self.text(it, st, args[1])
            self.settext(it, st, args[0], b)
            self.settext(it, st, args[1], a)
            return None
        return NotImplemented

    def lit(self, it, st, p):
        r = ''
        for i in range(80):
            b = it.load(st, ai.P(p.o, p.off + i), 1, False, ('cs',)).const() if isinstance(p.off, int) else None
            if b is None:
                return None
            if b == 0:
                return r
            r += chr(b)
        return None

    def status(self, it, I, cd, h, args, st):
        """ron::Status"""
        if not h.startswith('ron::Status::') and 'ron::Status::operator' not in cd:
            return NotImplemented
        m = h[len('ron::Status::'):]
        if m == 'Status':
            ps = paramlist(cd)
            if ps and 'Status' in ps[0]:
                t = self.ronst(it, st, args[1])
            elif not ps:
                t = ('S', 'OK')
            else:
                t = None
            self.setronst(st, args[0], t)
            return None
        if m == 'operator=':
            self.setronst(st, args[0], self.ronst(it, st, args[1]))
            return args[0]
        if m == '~Status':
            return None
        if m == 'comment' and I.get('sret'):
            self.setronst(st, args[0], self.ronst(it, st, args[1]))
            return None
        if m == 'operator bool':
            t = self.ronst(it, st, args[0])
            if t is None:
                return NotImplemented
            return ai.const(1, int(t[1] not in ERR)) if t[0] == 'S' else ai.lab(1, ('okst', t))
        if m in ('operator==', 'operator!='):
            a, b = self.ronst(it, st, args[0]), self.ronst(it, st, args[1])
            if a is None or b is None:
                return NotImplemented
            if a[0] == b[0] == 'S':
                return ai.const(1, int((a == b) == (m == 'operator==')))
            o = b if a[0] == 'S' else a
            x = a if a[0] == 'S' else b
            if x == ('S', 'OK') and o[0] != 'S':      # success is the one status that is no error
                t = ai.lab(1, ('okst', o))
            else:
                t = ai.lab(1, ('steq', a, b))
            return t if m == 'operator==' else ai.binop('xor', t, ai.const(1, 1))
        if m in ('code', 'str', 'comment'):
            return NotImplemented
        return NotImplemented

    def frame(self, it, I, cd, h, args, st):
        if cd == 'ron::Uuid::Uuid(ron::Slice)':
            t = args[1]                                   # the slice, by value
            if not isinstance(t, ai.P):
                return NotImplemented
            b = (t.o[1], t.off == 0) if t.o[0] == 'text' else None
            x = args[2] if len(args) > 2 else None
            if b is None or not b[1] or not (isinstance(x, ai.V) and x.b[32:] == ai.lab(64, ('len', b[0])).b[:32] and
                                            x.b[:32] == ai.const(32, 0).b):
                return NotImplemented
            it.store(st, args[0], ai.lab(64, ('uuid.o', b[0])), 8)
            it.store(st, ai.P(args[0].o, args[0].off + 8), ai.lab(64, ('uuid.v', b[0])), 8)
            return None
        if h == 'ron::TextFrame::data[abi:cxx11]' or h == 'ron::TextFrame::data':
            return args[0]
        if h == 'ron::TextFrame::empty':
            t = self.text(it, st, args[0])
            return NotImplemented if t is None else ai.const(1, 1) if t == ('lit', '') else ai.lab(1, ('empty', t))
        if h == 'ron::TextFrame::Clear':
            self.settext(it, st, args[0], ('lit', ''))
            return None
        if h in ('ron::TextFrame::swap', 'std::swap') and len(args) == 2 and 'Builder' not in cd:
            a, b = self.text(it, st, args[0]), self.text(it, st, args[1])
            if a is None or b is None:
                return NotImplemented
            self.settext(it, st, args[0], b)
            self.settext(it, st, args[1], a)
            return None
        if h == 'ron::TextFrame::TextFrame' and len(args) == 2 or h == 'ron::TextFrame::operator=':
            self.settext(it, st, args[0], self.text(it, st, args[1]))
            return None if h.endswith('TextFrame') else args[0]
        if h == 'ron::TextFrame::~TextFrame':
            return None
        if 'ron::OneOp<' in cd and I.get('sret'):
            self.settext(it, st, args[0], ('oneop',))
            return None
        if h == 'ron::TextFrame::Builder::Builder' and len(args) == 1:
            self.settext(it, st, args[0], ('lit', ''))
            return None
        if h in ('ron::TextFrame::Builder::~Builder', 'ron::TextFrame::Builder::reserve'):
            return None
        if h == 'std::swap' and 'TextFrame::Builder&' in cd and len(args) == 2:
            self.settext(it, st, args[1], self.text(it, st, args[0]))
            return None
        if h.startswith('ron::TextFrame::Builder::Release'):
            if I.get('sret') and len(args) == 2:
                self.settext(it, st, args[0], self.text(it, st, args[1]))
                return None
            self.settext(it, st, args[-1], self.text(it, st, args[-2]))
            return ai.const(I['w'], 0) if I['ty'] == 'int' else None
        if cd == 'ron::TextFrame::Cursor::Cursor(ron::Slice)':
            return self.cursor(it, st, args[0], args[1], args[2] if len(args) > 2 else None)
        if h == 'ron::TextFrame::Cursor::Cursor' and 'basic_string<' in cd:
            t = self.text(it, st, args[1])
            if t is None:
                return NotImplemented
            self.settext(it, st, args[0], t)
            it.store(st, ai.P(args[0].o, args[0].off + 8), ai.const(64, 0), 8)
            return None
        if 'std::vector<ron::TextFrame::Cursor' in cd and 'emplace_back<ron::Slice' in cd:
            k = self.count(st, 'tmpcur')
            t = ai.P(('tmpcur', k), 0)
            self.cursor(it, st, t, it.load(st, args[1], 8, True, ('eb',)), it.load(st, ai.P(args[1].o, args[1].off + 8), 8, False, ('eb',)))
            return vecs.model(it, I, 'std::vector<ron::TextFrame::Cursor>::push_back(x)', [args[0], t], st, None)
        if cd.startswith('ron::TextFrame::Cursor::Next('):
            s, cur = (args[0], args[1]) if I.get('sret') else (None, args[0])
            t = self.text(it, st, cur)
            at = ai.P(cur.o, cur.off + 8)
            k = it.load(st, at, 8, False, ('nx',)).const()
            if s is None or t is None or k is None:
                return NotImplemented
            it.store(st, at, ai.const(64, k + 1), 8)
            self.emit(st, ('next', t, k))
            self.setronst(st, s, ('next', t, k))
            return None
        if cd.startswith('ron::MasterRDT<ron::TextFrame>::Merge('):
            b, n = vecs.span(it, st, args[4])
            ins = None if n is None else tuple(
                (self.text(it, st, ai.P(b.o, b.off + i)), it.load(st, ai.P(b.o, b.off + i + 8), 8, False, ('mi',)).const()) for i in range(0, n, 56))
            self.emit(st, ('reduce', args[3], ins, self.text(it, st, args[2])))
            self.settext(it, st, args[2], ('merged', self.count(st, 'reduce')))
            self.setronst(st, args[0], ('reduce', 0))
            return None
        if h == 'ron::Uuid::str[abi:cxx11]' and I.get('sret'):
            u = args[1]
            self.settext(it, st, args[0], ('uuidtext', it.load(st, u, 8, False, ('us',)), it.load(st, ai.P(u.o, u.off + 8), 8, False, ('us',))))
            return None
        return NotImplemented

    def cursor(self, it, st, at, d, n):
        """a cursor over a whole text"""
        t = None
        if isinstance(d, ai.P) and d.o[0] == 'text' and d.off == 0 and isinstance(n, ai.V) and n.b[:32] == ai.const(32, 0).b and \
                n.b[32:] == ai.lab(64, ('len', d.o[1])).b[:32]:
            t = d.o[1]
        self.settext(it, st, at, t or ('part',))
        it.store(st, ai.P(at.o, at.off + 8), ai.const(64, 0), 8)
        return None

    def deque(self, it, I, cd, h, args, st):
        """std::deque<rocksdb::Slice>, laid out in one node"""
        m = member(cd)
        q = args[1] if I.get('sret') else args[0]
        b, n = vecs.span(it, st, q)
        if n is None:
            return NotImplemented
        if m == 'size':
            return ai.const(64, n // 16)
        if m == 'empty':
            return ai.const(1, int(n == 0))
        if m in ('begin', 'end', 'cbegin', 'cend') and I.get('sret'):
            s = args[0]
            for o, x in ((0, b.off if 'begin' in m else b.off + n), (8, 0), (16, 512)):
                it.store(st, ai.P(s.o, s.off + o), ai.P(b.o, x), 8)
            it.store(st, ai.P(s.o, s.off + 24), ai.P(('node',), 0), 8)
            return None
        if m in ('front', 'back', 'operator[]', 'at') and n:
            x = 0 if m == 'front' else n - 16 if m == 'back' else args[1].const()
            return NotImplemented if x is None else ai.P(b.o, b.off + x * (16 if m in ('operator[]', 'at') else 1))
        return NotImplemented

    def vector(self, it, I, cd, h, args, st, ctx):
        if 'emplace_back<' in cd and 'std::vector<rocksdb::ColumnFamilyDescriptor' in cd and len(args) in (3, 4) and not I.get('sret'):
            t = ai.P(('tmpcfd', self.count(st, 'tmpcfd')), 0)
            w = it.load(st, ai.P(args[2].o, args[2].off + self.off['mop']), 8, True, ('mo',))
            self.settext(it, st, ai.P(t.o, self.off['cfd_name']), self.text(it, st, args[1]))
            it.store(st, ai.P(t.o, self.off['cfd_opt'] + self.off['mop']), w, 8)
            cd, h, args = 'std::vector<rocksdb::ColumnFamilyDescriptor>::push_back(x)', 'std::vector<rocksdb::ColumnFamilyDescriptor>::push_back', [args[0], t]
        es = self.esize(cd)
        if es is None:
            return NotImplemented
        old = vecs.esize
        vecs.esize = lambda x: es
        try:
            return vecs.model(it, I, cd, args, st, ctx)
        finally:
            vecs.esize = old

    def esize(self, cd):
        i = cd.find('std::vector<')
        t = cd[i + 12:]
        for p, n in (('rocksdb::ColumnFamilyDescriptor', self.off.get('z_cfd')), ('rocksdb::Slice', 16),
                     ('std::__cxx11::basic_string<char', 32), ('std::pair<ron::Key, ron::TextFrame', self.off.get('z_record')),
                     ('ron::TextFrame::Cursor', 56)):
            if t.startswith(p) and not t.startswith(p + '*'):
                return n
        return vecs.esize(cd)


ERR = {'ENDOFFRAME', 'ENDOFINPUT', 'NOT_IMPLEMENTED', 'NOT_FOUND', 'BAD_STATE', 'BADARGS', 'BADSYNTAX', 'DB_FAIL', 'IOFAIL',
       'BADFRAME', 'BADID', 'BADREF', 'BADVALUE', 'NOTYPE', 'NOTOPEN', 'CHAINBREAK', 'HASHBREAK', 'TREEBREAK', 'CAUSEBREAK',
       'TREEGAP', 'YARNGAP', 'REPEAT', 'REORDER', 'CONFLICT'}


def paramlist(cd):
    """the parameter types of a demangled name"""
    s = re.sub(r'\) const$', ')', cd)
    d, j = 0, len(s) - 1
    for j in range(len(s) - 1, -1, -1):
        d += (s[j] == ')') - (s[j] == '(')
        if d == 0:
            break
    body = s[j + 1:-1]
    out, cur, d = [], '', 0
    for ch in body:
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        d += (ch in '<(') - (ch in '>)')
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
