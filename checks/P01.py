"""Character tables: the writer's alphabets and the reader's decoding tables
are mutually inverse and match the RON coding."""
import absint as ai
import vlib

MINOBS = 400
BASE = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~"


def tables(c, m):
    f = c.fn(m, '^h_tabs$')
    out = {}
    for i in range(11):
        it = ai.walk(f, m, argvals={0: ai.const(32, i)})
        for kk, (rv, st) in it.rets.items():
            c.need(isinstance(rv, ai.P) and rv.o[0] == 'g', 'table %d' % i)
            g = m['globals'][rv.o[1]]
            c.need(g['const'] and g.get('init'), 'table %s is a constant' % g['d'])
            out[i] = (g['d'], g['init']['bytes'])
    c.need(len(out) == 11, 'the eleven tables')
    return out


def check(c):
    c.level = 'proof'
    c.rule('constant tables read from the IR are compared entry by entry with the RON alphabets; '
           'every writer symbol decodes back to its own index, every other byte is rejected')
    m = c.ir(['ron/uuid.cc', vlib.VERIF + '/harness/P01.cc'], ['^h_'], inline=['^ron::'])
    t = tables(c, m)
    U = 'ron/uuid.cc'
    C = 'ron/const.hpp'
    ABC, ABC64, ABC16, ISB, BP, HP, SP, UP, AP, TP, FP = (t[i][1] for i in range(11))
    # alphabets
    for i, ch in enumerate(BASE):
        with c.trying():
            c.ob('base64 digit %d is %r' % (i, ch), i < len(BP) and BP[i] == ord(ch), 'got %r' % chr(BP[i]), C)
    c.ob('base64 alphabet order equals byte order',
         all(BP[i] < BP[i + 1] for i in range(63)), '', C)
    for nm, tab, want in (('hex', HP, '0123456789abcdef'), ('spec', SP, '*#@:'), ('uuid', UP, '$%+-'),
                          ('atom', AP, ">='^"), ('term', TP, ';,!?'), ('frame', FP, '.')):
        with c.trying():
            c.ob('%s punctuation is %s' % (nm, want), bytes(tab[:len(want)]) == want.encode(),
                 repr(bytes(tab)), C)
    # decoders
    for b in range(256):
        with c.trying():
            ch = chr(b)
            w64 = BASE.index(ch) if ch in BASE else 255
            c.ob('strict base64 decoder at byte %d' % b, ABC64[b] == w64, 'entry %d want %d' % (ABC64[b], w64), U)
            if ch in '0123456789':
                w16 = b - 48
            elif ch in 'abcdef':
                w16 = b - 87
            elif ch in 'ABCDEF':
                w16 = b - 55
            else:
                w16 = 255
            c.ob('hex decoder at byte %d' % b, ABC16[b] == w16, 'entry %d want %d' % (ABC16[b], w16), U)
    for i, ch in enumerate(BASE):
        with c.trying():
            c.ob('trusting base64 decoder at %r' % ch, ABC[ord(ch)] == i, 'entry %d' % ABC[ord(ch)], U)
    for tab in ('*#@:', '$%+-', ">='^", ';,!?', '.'):
        with c.trying():
            for i, ch in enumerate(tab):
                c.ob('punctuation %r decodes to its enum value' % ch, ABC[ord(ch)] == i,
                     'entry %d' % ABC[ord(ch)], U)
    mask = 0
    for ch in BASE:
        with c.trying():
            mask |= 1 << ord(ch)
    got = sum(x << (8 * i) for i, x in enumerate(ISB))
    c.ob('base64 membership mask', got == mask, hex(got), U)
    # term reader
    f = c.fn(m, '^h_term$')
    for i, ch in enumerate(';,!?'):
        with c.trying():
            it = ai.walk(f, m, argvals={0: ai.const(8, ord(ch))})
            for kk, (rv, st) in it.rets.items():
                c.ob('term reader of %r' % ch, rv.const() == i, repr(rv), C)
    # enumerations fixed by the wire format
    f = c.fn(m, '^h_enum$')
    want = [0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 0, 1 << 62, 2 << 62, 3 << 62, 0, 1]
    for i, w in enumerate(want):
        with c.trying():
            it = ai.walk(f, m, argvals={0: ai.const(32, i)})
            for kk, (rv, st) in it.rets.items():
                c.ob('wire enumeration %d' % i, rv.const() == w, repr(rv), C)
