"""Shared driver of the static checks: compiles /repo's current sources to
LLVM bitcode (never running them), normalises them with tools/irtool, keeps
the list of obligations and writes evidence and verdicts."""
import concurrent.futures as cf
import contextlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RON_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, os.path.join(VERIF, 'lib'))

CXX = 'clang++'
CXXFLAGS = ['-include', 'ctime', '-std=gnu++17', '-O1', '-Xclang',
            '-disable-llvm-passes', '-fno-exceptions', '-DNDEBUG',
            '-gline-tables-only', '-I/usr/include/botan-2', '-I' + REPO,
            '-I' + os.path.join(VERIF, 'harness'), '-w']


# small standard helpers that only pass values around
STDINLINE = [r'std::(tie|get|__get_helper|as_const|exchange|min|max|minmax|make_pair|make_tuple|addressof|__addressof|clamp|swap)<(unsigned|int|long|bool|char|ron::)',
             r'std::(tie|get|__get_helper)<', r'std::(as_const|exchange|min|max|clamp|make_tuple)<',
             r'std::(tuple|_Tuple_impl|_Head_base|__tuple_compare|array|initializer_list|__array_traits)<',
             r'std::operator[<>=!]+ ?<(unsigned|int|long|ron::)']


class Broken(Exception):
    """the analysis itself cannot answer (vanished anchor, compile error)"""


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='ronv.')
        self.obs = []        # (name, ok, detail)
        self.deferred = []   # parts that gave no answer
        self.funcs = set()
        self.sites = 0
        self.paths = 0
        self.rules = []
        self.notes = []
        self.assumptions = []
        self.trusted = ['clang 18 front end and LLVM scalar passes',
                        'irtool + absint (this repository)',
                        'C++ standard library contracts']
        self._bc = {}
        self.level = 'other'

    # -- building -------------------------------------------------------
    def bc(self, src, flags=()):
        """src: path relative to /repo, or an absolute path"""
        p = src if os.path.isabs(src) else os.path.join(REPO, src)
        k = (p, tuple(flags))
        if k in self._bc:
            return self._bc[k]
        if not os.path.exists(p):
            raise Broken('source %s is gone' % p)
        out = os.path.join(self.tmp, '%d_%s.bc' % (len(self._bc), os.path.basename(p)))
        self._bc[k] = out
        r = subprocess.run([CXX] + CXXFLAGS + list(flags) + ['-emit-llvm', '-c', p, '-o', out],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('cannot compile %s:\n%s' % (p, r.stderr[:3000]))
        return out

    def bcs(self, srcs):
        with cf.ThreadPoolExecutor(8) as ex:
            return list(ex.map(self.bc, srcs))

    def ir(self, srcs, roots, inline=(), keep=(), globals_=(), passes=None, want=None, flags=(), split=False):
        """normalised IR of the functions matching roots"""
        ins = [self.bc(x, flags) for x in srcs] if flags else self.bcs(srcs)
        cfg = os.path.join(self.tmp, 'cfg%d' % int(time.time() * 1e6))
        with open(cfg, 'w') as f:
            for i in ins:
                f.write('in %s\n' % i)
            for k, v in (('root', roots), ('inline', list(inline) + STDINLINE), ('keep', keep),
                         ('global', globals_)):
                for x in v:
                    f.write('%s %s\n' % (k, x))
            f.write('home %s/\n' % REPO)
            if passes:
                f.write('passes %s\n' % passes)
            if split:
                f.write('split 1\n')
        tool = os.path.join(BUILD, 'irtool')
        r = subprocess.run([tool, cfg], capture_output=True, text=True)
        if r.returncode:
            raise Broken('irtool: ' + r.stderr[:2000])
        m = json.loads(r.stdout)
        m['by'] = {f['name']: f for f in m['functions']}
        for f in m['functions']:
            self.funcs.add(f['d'])
        if not m['functions']:
            raise Broken('no function matches %s' % (roots,))
        return m

    def fn(self, mod, rx, unique=True):
        fs = [f for f in mod['functions'] if re.search(rx, f['d']) or re.search(rx, f['name'])]
        if not fs:
            raise Broken('anchor not found: function %s' % rx)
        if unique and len(fs) > 1:
            raise Broken('ambiguous anchor %s: %s' % (rx, [f['d'] for f in fs]))
        return fs[0] if unique else fs

    # -- obligations ----------------------------------------------------
    def ob(self, name, ok, detail='', loc=None):
        self.obs.append((name, bool(ok), detail if not ok else detail, loc))
        return ok

    @contextlib.contextmanager
    def trying(self):
        """run one part of a check; when it gives no answer, the other parts
        are still run: a violation they find counts, their silence does not"""
        try:
            yield
        except _ai.Misuse as e:
            self.ob('memory is used within its bounds', False, str(e))
        except Exception as e:
            self.deferred.append(e)

    def part(self, fn, *args):
        with self.trying():
            return fn(*args)

    def rule(self, s):
        self.rules.append(s)

    def need(self, cond, what):
        if not cond:
            raise Broken('anchor vanished: ' + what)

    # -- finish ---------------------------------------------------------
    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return {}
        out = {}
        for e in json.load(open(p)):
            if e.get('property') == self.pid and e.get('status') == 'open':
                out[e['obligation']] = e
        return out

    def finish(self, minobs=1):
        bad = [o for o in self.obs if not o[1]]
        known = self.known()
        viol = [o for o in bad if o[0] not in known]
        if self.deferred and not viol:
            raise self.deferred[0]
        if len(self.obs) < minobs and not viol:
            raise Broken('%s: only %d obligations formed, %d expected at least'
                         % (self.pid, len(self.obs), minobs))
        kf = [o for o in bad if o[0] in known]
        for o in kf:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o[0], known[o[0]]['what']))
        ev = {
            'property': self.pid,
            'tier': os.environ.get('VERIF_TIER', 'quick'),
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level,
            'coverage': {
                'obligations': len(self.obs),
                'discharged': len(self.obs) - len(bad),
                'known_findings': len(kf),
                'functions_analysed': sorted(self.funcs)[:200],
                'functions_count': len(self.funcs),
                'sites': self.sites,
                'rules': self.rules,
                'samples': [{'obligation': o[0], 'ok': o[1], 'detail': str(o[2])[:300]}
                            for o in self.obs[:12]],
                'explanation': ' '.join(self.rules) or 'static obligations',
                'checker_cmd': 'python3 checks/run.py %s' % self.pid,
                'trusted_base': self.trusted,
            },
            'assumptions': self.assumptions,
            'violations': len(viol),
            'wall_s': round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if viol:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for o in viol:
                    f.write('%s\n  at: %s\n  %s\n' % (o[0], o[3] or '?', o[2]))
            for o in viol[:40]:
                print('  FAILED %s\n     at %s\n     %s' % (o[0], o[3] or '?', o[2]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s obligations=%d functions=%d wall=%.1fs'
              % (self.pid, len(self.obs), len(self.funcs), time.time() - self.t0))
        return 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def where(I):
    """file:line of an instruction, innermost project frame first"""
    for l in I.get('loc', []):
        if '/usr/' not in l['f'] and l['l']:
            return '%s:%d (%s)' % (l['f'], l['l'], l['fn'].split('(')[0])
    l = I.get('loc') or [{'f': '?', 'l': 0, 'fn': '?'}]
    return '%s:%d' % (l[0]['f'], l[0]['l'])


# -- bit specifications ----------------------------------------------------
import absint as _ai


def arg(i, w=64):
    l = _ai.Label(('in', 'a%d' % i), w)
    return [(l, k) for k in range(w)]


def bits_of(st, obj, off, size, mod=None):
    """bits of `size` bytes of memory object obj"""
    cells = st.mem.get(obj, {})
    out = []
    for k in range(off, off + size):
        x = cells.get(k)
        if x is None:
            x = _ai.initial_byte(obj, k, st.ep.get(obj, 0))
        if x[0] != 'b':
            out += [('ptr', k)] * 8
        else:
            out += list(x[1])
    return out


def argobj(i):
    return ('P', ('in', 'a%d' % i))


def k(n, w):
    return [(n >> i) & 1 for i in range(w)]


def showbits(b):
    return _ai.fmtbits(b)


def _linoff(off):
    """(base terms, constant) of a symbolic or constant offset"""
    if isinstance(off, int):
        return (), off
    if isinstance(off, tuple) and off and off[0] == 'lin':
        return tuple(sorted(map(repr, off[2]))), off[1]
    return (repr((off, 1)),), 0


def place(l):
    """(object, offset terms, constant offset, epoch) a memory label was read
    from, or None"""
    t = l.t
    if not isinstance(t, tuple):
        return None
    if t[0] == 'm':
        return (t[1], (), t[2], t[3])
    if t[0] == 'idx':
        a, b = _linoff(t[2])
        return (t[1], a, b, t[4])
    return None


def adjacent(l1, l2, d=8):
    p, q = place(l1), place(l2)
    return bool(p and q and p[0] == q[0] and p[1] == q[1] and q[2] == p[2] + d and p[3] == q[3])


def zero_bits(ctx):
    """bits established to be zero by the tracked predicates of a context"""
    out = set()
    for e in ctx:
        if e[0] != '?':
            continue
        t, pol = e[1], e[2]
        while isinstance(t, _ai.Label):
            t = t.t
        if t[0] == 'b':
            t = t[1]
        if t[0] == 'eq' and pol:
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if x == ('c', 0):
                    out |= set(termbits(y))
        if t[0] == 'ult' and pol and isinstance(t[2], tuple) and t[2][0] == 'c':
            n = t[2][1]
            out |= set(termbits(t[1])[(n - 1).bit_length():])
        if t[0] == 'ult' and not pol and isinstance(t[1], tuple) and t[1][0] == 'c':
            n = t[1][1]
            out |= set(termbits(t[2])[n.bit_length():])
    return {b for b in out if isinstance(b, tuple)}


def nonzero_sets(ctx):
    """bit sets at least one of which is one"""
    out = []
    for e in ctx:
        if e[0] != '?':
            continue
        t, pol = e[1], e[2]
        while isinstance(t, _ai.Label):
            t = t.t
        if t[0] == 'b':
            t = t[1]
        if t[0] == 'eq' and not pol:
            for x, y in ((t[1], t[2]), (t[2], t[1])):
                if x == ('c', 0):
                    out.append({b for b in termbits(y) if isinstance(b, tuple)})
    return out


def termbits(t):
    if isinstance(t, _ai.V):
        return list(t.b)
    if isinstance(t, _ai.Label):
        return [(t, i) for i in range(t.w)]
    return []


def tabindex(v, table=None):
    """(table global, index bits) when v is exactly a table entry"""
    l = v.label() if isinstance(v, _ai.V) else None
    if l is None or not isinstance(l.t, tuple) or l.t[0] != 'idx':
        return None
    o, off = l.t[1], l.t[2]
    if o[0] != 'g' or not (isinstance(off, tuple) and off[0] == 'lin' and off[1] == 0 and len(off[2]) == 1):
        return None
    tm, sc = off[2][0]
    if sc != 1:
        return None
    b = termbits(tm)
    while b and b[-1] == 0:
        b.pop()
    return o[1], b


def linear(v, w=32):
    """linear form of a value modulo 2^w: ({atom: coefficient}, constant)"""
    mod = 1 << w

    def add(d, x, k):
        co, cst = x
        for a, n in co.items():
            d[0][a] = (d[0].get(a, 0) + k * n) % mod
        d[1] = (d[1] + k * cst) % mod

    def go(t):
        if isinstance(t, _ai.V):
            n = t.const()
            if n is not None:
                return {}, n % mod
            l = t.label()
            if l is None and t.w > w:
                l = _ai.V(w, t.b[:w]).label()
            if l is None:
                return {t: 1}, 0
            t = l
        if isinstance(t, int):
            return {}, t % mod
        if isinstance(t, tuple) and t and t[0] == 'c':
            return {}, t[1] % mod
        x = t.t if isinstance(t, _ai.Label) else t
        if isinstance(t, _ai.Label) and t.w < w:
            return {t: 1}, 0
        if isinstance(x, tuple) and x:
            d = [{}, 0]
            if x[0] == 'add':
                add(d, go(x[1]), 1)
                add(d, go(x[2]), 1)
                return {a: n for a, n in d[0].items() if n}, d[1]
            if x[0] == 'sub':
                add(d, go(x[1]), 1)
                add(d, go(x[2]), -1)
                return {a: n for a, n in d[0].items() if n}, d[1]
            if x[0] == 'addc':
                add(d, go(x[1]), 1)
                return d[0], (d[1] + x[2]) % mod
            if x[0] == 'mul' and x[1][:1] == ('c',) if isinstance(x[1] if len(x) > 1 else None, tuple) else False:
                add(d, go(x[2]), x[1][1])
                return {a: n for a, n in d[0].items() if n}, d[1]
            if x[0] == 'lin':
                d[1] = x[1] % mod
                for tm, sc in x[2]:
                    add(d, go(tm), sc)
                return {a: n for a, n in d[0].items() if n}, d[1]
        return {t: 1}, 0
    co, cst = go(v)
    return frozenset((a, n) for a, n in co.items() if n), cst


def lsum(*terms, w=32):
    """expected linear form: (label, coefficient) pairs and ints"""
    co, cst = {}, 0
    for t in terms:
        if isinstance(t, int):
            cst += t
        else:
            co[t[0]] = (co.get(t[0], 0) + t[1]) % (1 << w)
    return frozenset((a, n) for a, n in co.items() if n), cst % (1 << w)


def mem_value(st, obj, off, size):
    """integer stored at a place, or the pointer"""
    cells = st.mem.get(obj, {})
    x = cells.get(off)
    if x and x[0] == 'p':
        return x[1]
    return _ai.V(size * 8, bits_of(st, obj, off, size))


def static_init(mod, rx, model=None):
    """state left by the static initialisers matching rx (globals only)"""
    mem = {}
    for f in mod['functions']:
        if re.search(rx, f['name']):
            it = _ai.Interp(f, mod, model=model).run()
            for kk, (rv, st) in it.rets.items():
                for o, cells in st.mem.items():
                    if o[0] == 'g':
                        mem[o] = cells
    def init(it, st):
        for o, cells in mem.items():
            st.mem[o] = dict(cells)
    init.mem = mem
    return init


_PF = None


_LATE = []


def _late(*a):
    _LATE.append(1)
    raise Broken('a scenario takes too long')


def _pcall(j):
    if _LATE:
        return ('broken', 'a scenario takes too long')
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(90)
    try:
        return ('ok', _PF(*j))
    except Broken as e:
        return ('broken', str(e))
    except _ai.Misuse as e:
        return ('misuse', str(e))
    except Exception as e:
        import traceback
        return ('error', traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)


def pmap(fn, jobs, procs=8):
    """fn(*job) for job in jobs, in forked workers (the analyses of separate
    scenarios are independent)"""
    global _PF
    import multiprocessing as mp
    _PF = fn
    with mp.get_context('fork').Pool(procs) as p:
        out = p.map(_pcall, jobs, chunksize=max(1, len(jobs) // (procs * 8)))
    for k, v in out:
        if k == 'ok':
            yield v
    for k, v in out:
        if k == 'misuse':
            raise _ai.Misuse(v)
    for k, v in out:        # no answer for some: what the others found stands
        if k == 'broken':
            raise Broken(v)
        if k == 'error':
            raise RuntimeError(v)
