"""Op hashes: exactly what is hashed, in which order."""
import itertools
import absint as ai
import vlib
import strs
import sha
from vlib import argobj

MINOBS = 80
H = vlib.VERIF + '/harness/P11.cc'
F = 'ron/hash.hpp'
UUID, INT, STRING, FLOAT = 0, 1, 2, 3
INLINE = ['^std::pair', 'std::forward', 'std::move', 'ron::', '^std::vector<ron::Atom', 'std::operator[<>!=]']
KEEP = ['Cursor::atom', 'ReadString', 'Cursor::Next\\(', 'Status::comment', 'NextCodepoint']


def lab(w, *t):
    l = ai.Label(t, w)
    return [(l, i) for i in range(w)]


def atoms(types, who='op', cobj=None):
    """parsed atoms of an op whose value types are given (ids first)"""
    out = []
    for i, t in enumerate(types):
        o = lab(64, 'atom', who, i, 'origin')
        if i < 2:
            o = o[:62] + [0, 0]
        else:
            o = o[:62] + vlib.k(t, 2)
        out.append((ai.V(64, lab(64, 'atom', who, i, 'value')), ai.V(64, o)))
    return out


def install(it, st, curobj, ats, tag, types):
    """the cursor's raw atom vector: UUIDs are as parsed, the rest is not"""
    n = len(ats)
    mo = ('atoms', tag)
    it.store(st, ai.P(curobj, 16), ai.P(mo, 0), 8)
    it.store(st, ai.P(curobj, 24), ai.P(mo, 16 * n), 8)
    for i, (v, o) in enumerate(ats):
        raw = i >= 2 and types[i] != UUID
        it.store(st, ai.P(mo, 16 * i + 8), ai.V(64, lab(64, 'raw', tag, i)) if raw else v, 8)
        it.store(st, ai.P(mo, 16 * i),
                 ai.V(64, lab(64, 'raworigin', tag, i)[:62] + list(o.b[62:])) if raw else o, 8)


def hashstr(who):
    return tuple(ai.V(8, lab(8, 'hash', who, i)) for i in range(32))


def opspec(ats, types, prev, ref, empty=False):
    """the byte sequence that identifies an op"""
    tr = sha.be(ats[0][0]) + sha.be(ats[0][1]) + prev + sha.be(ats[1][0]) + sha.be(ats[1][1]) + ref
    for i in range(2, len(ats)):
        v, o = ats[i]
        if types[i] == UUID:
            tr += sha.be(v) + sha.be(o)
            continue
        tr += sha.be(v) + sha.be(ai.V(64, [0] * 60 + list(o.b[60:])))
        if types[i] == STRING and not empty:
            tr += (('text', (ai.term(o), ai.term(v))),)
    return tr


def diff(got, want):
    for i, (x, y) in enumerate(itertools.zip_longest(got, want)):
        if isinstance(x, tuple) and x[:1] == ('?',):
            raise vlib.Broken('cannot follow what is fed to the hash: %r' % (x,))
        if x != y:
            return 'item %d fed to the hash is %s, want %s' % (i, short(x), short(y))
    return None


def short(x):
    return 'nothing' if x is None else repr(x)[:160]


def combos():
    for n in range(0, 4):
        for t in itertools.product((UUID, INT, STRING, FLOAT), repeat=n):
            yield (UUID, UUID) + t
    yield (UUID, UUID, INT, STRING, UUID, FLOAT, STRING, INT)


def digest_of(chars):
    """trace of a string that is exactly one digest"""
    if chars is None or len(chars) != 32 or not isinstance(chars[0], ai.V):
        return None
    l = chars[0].label()
    if l is None or l.t[0] != 'sha':
        return None
    tr = l.t[1]
    if list(chars) != list(sha.digest(tr)):
        return None
    return tr.t[1]


def ophash(c, m, fn, curarg, retp, kb, prevarg, refarg):
    f = c.fn(m, '^%s$' % fn)
    for types, empty in [(t, e) for t in combos() for e in ((False, True) if STRING in t else (False,))]:
        with c.trying():
            ats = atoms(types)
            P, R = hashstr('prev'), hashstr('ref')

            def init(it, st):
                install(it, st, argobj(curarg), ats, 'op', types)
                for a, h in ((prevarg, P), (refarg, R)):
                    strs.put(st, ai.P(argobj(a), 8), h)
            it = ai.Interp(f, m, partition=True, init=init, loadhook=strs.hook,
                           model=sha.makemodel(lambda k, cur: ats[k] if cur.o == argobj(curarg) else
                                               (ai.lab(64, ('other', k)), ai.lab(64, ('other', k, 1))), empty=empty)).run()
            want = (('algo', 'SHA_512_256'),) + opspec(ats, types, P, R, empty)
            nm = '%s, value types %s' % (fn[2:], ''.join('UISF'[t] for t in types[2:]) or 'none') + (', empty strings' if empty else '')
            c.need(it.rets, fn + ' returns')
            err = None
            for (ctx, b), (rv, st) in it.rets.items():
                tr = digest_of(strs.get(st, ai.P(retp, 8)))
                if tr is None:
                    err = 'the result is not a digest of the op: %r' % (st.aux.get(strs.key(ai.P(retp, 8))),)
                else:
                    err = err or diff(tr, want)
                if st.aux.get('overflow'):
                    err = err or 'digest written to a buffer that is not 32 bytes long'
                if kb and vlib.mem_value(st, retp, 0, 4).const() != 256:
                    err = err or 'known bits are %r, want 256' % vlib.mem_value(st, retp, 0, 4)
            c.paths += len(it.rets)
            c.ob(nm, err is None, err or '', F)


def stream_only(c, m):
    """the generic writer: nothing but the op goes to the stream"""
    f = c.fn(m, '^h_op$')
    for types, empty in [(t, e) for t in combos() for e in ((False, True) if STRING in t else (False,))]:
        with c.trying():
            ats = atoms(types)
            P, R = hashstr('prev'), hashstr('ref')

            def init(it, st):
                install(it, st, argobj(0), ats, 'op', types)
                strs.put(st, ai.P(argobj(2), 8), P)
                strs.put(st, ai.P(argobj(3), 8), R)
            it = ai.walk(f, m, partition=True, init=init, loadhook=strs.hook,
                           model=sha.makemodel(lambda k, cur: ats[k], empty=empty))
            want = opspec(ats, types, P, R, empty)
            err = None
            for (ctx, b), (rv, st) in it.rets.items():
                err = err or diff(st.aux.get(('fed', argobj(1), 0), ()), want)
            c.ob('WriteOpHashable, value types %s' % (''.join('UISF'[t] for t in types[2:]) or 'none') + (', empty strings' if empty else ''),
                 err is None and bool(it.rets), err or '', F)


def pair(c, m):
    f = c.fn(m, '^h_pair$')
    A, B = hashstr('one'), hashstr('two')

    def init(it, st):
        strs.put(st, ai.P(argobj(1), 8), A)
        strs.put(st, ai.P(argobj(2), 8), B)
    it = ai.walk(f, m, partition=True, init=init, loadhook=strs.hook, model=sha.makemodel(None))
    for (ctx, b), (rv, st) in it.rets.items():
        with c.trying():
            tr = digest_of(strs.get(st, ai.P(argobj(0), 8)))
            d = 'not a digest' if tr is None else diff(tr, (('algo', 'SHA_512_256'),) + A + B)
            c.ob('the hash of a pair is the digest of the first and then the second hash', d is None, d or '', F)
            kb = vlib.mem_value(st, argobj(0), 0, 4).const()
            c.ob('the hash of a pair is fully known', kb == 256 and not st.aux.get('overflow'), repr(kb), F)
    f = c.fn(m, '^h_uuid$')
    it = ai.walk(f, m, partition=True, loadhook=strs.hook, model=sha.makemodel(None))
    for (ctx, b), (rv, st) in it.rets.items():
        with c.trying():
            tr = digest_of(strs.get(st, ai.P(argobj(0), 8)))
            u = [ai.V(64, vlib.bits_of(st, argobj(1), o, 8)) for o in (8, 0)]
            d = 'not a digest' if tr is None else diff(tr, (('algo', 'SHA_512_256'),) + sha.be(u[0]) + sha.be(u[1]))
            c.ob('the hash of a UUID is the digest of its 16 big-endian bytes', d is None, d or '', F)
            kb = vlib.mem_value(st, argobj(0), 0, 4).const()
            c.ob('the hash of a UUID is fully known', kb == 256 and not st.aux.get('overflow'), repr(kb), F)
    f = c.fn(m, '^h_zero$')
    it = ai.walk(f, m, partition=True, loadhook=strs.hook, model=sha.makemodel(None))
    for (ctx, b), (rv, st) in it.rets.items():
        with c.trying():
            s = strs.get(st, ai.P(argobj(0), 8))
            c.ob('the unknown hash is 32 zero bytes', s is not None and [v.const() for v in s] == [0] * 32, repr(s), F)
            c.ob('the unknown hash has no known bits', vlib.mem_value(st, argobj(0), 0, 4).const() == 0, '', F)


def check(c):
    m = c.ir([H], ['^h_'], inline=INLINE, keep=KEEP)
    c.part(stream_only, c, m)
    c.part(ophash, c, m, 'h_opmerkle', 1, argobj(0), True, 2, 3)
    c.part(ophash, c, m, 'h_hash_op', 0, argobj(1), False, 2, 3)
    c.part(pair, c, m)
    c.rule('the bytes fed to the hash, for every op shape, are exactly id, previous hash, reference, reference hash and '
           'the values with their text, whatever piece sizes are used; the digest is treated as one opaque function')
    c.assumptions.append('value lists of 0..3 values in every type combination and one of 6; SHA-512/256 itself is '
                         'taken as specified (Botan); reading the text of a value is taken as one operation')
