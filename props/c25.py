from harness import *
from stream import *
from c24 import Big, pats, pat
import consts
TEXT = ('Every number writer and reader is analysed for symbolic values and symbolic buffer bytes in all four combinations of read and write byte order, at the start, in the middle, '
        'across and at the end of buffers; every bit of every stored byte and of every value read is traced to the input bit it must be.')
TY = (('Uint8', 1), ('Int8', 1), ('Uint16', 2), ('Int16', 2), ('Uint32', 4), ('Int32', 4), ('Uint64', 8), ('Int64', 8), ('Float', 4), ('Double', 8))


def check(cx):
    m = cx.module('stream.cpp')
    v = [byte('v', i) for i in range(8)]
    val = cat(v)
    En = ('little', 'big')
    for nm, w in TY:
        for re in (0, 1):
            for we in (0, 1):
                lay = v[:w] if we == 0 else v[:w][::-1]
                for n, c in [(0, 0), (w, 0), (w + 3, 1), (w + 3, 3), (w, w), (3, 1), (5, 5), (w + 1, w)] + ([(a, b) for a in range(0, w + 4) for b in range(0, a + 1)] if cx.deep else []):
                    o = Op(cx, m, 'c_put' + nm, n, n, c, re, we, val, title='put%s, size %d, cursor %d, write order %s, read order %s' % (nm, n, c, En[we], En[re]))
                    if o.ok: o.state(o.before[:c] + lay + o.before[c + w:], c + w); o.done()
                for n, c in [(w, 0), (w + 3, 1), (w + 3, 3), (2 * w, w)]:
                    o = Op(cx, m, 'c_get' + nm, n, n, c, re, we, title='get%s, size %d, cursor %d, read order %s, write order %s' % (nm, n, c, En[re], En[we]))
                    if o.ok:
                        b = o.before[c:c + w]
                        o.ret(cat((b if re == 0 else b[::-1]) + [0] * (8 - w)), what='value'); o.state(o.before, c + w); o.done()
    for nm, w in (('Uint16', 2), ('Uint32', 4), ('Uint64', 8)):
        t = 'default byte order is little endian in both directions (%s)' % nm
        R = cx.call(m, 'c_new' + nm, ('out', BIGN, 'u8'), ('out', 4, 'i64'), val, title=t)
        if not R: continue
        x = T(cx, t); x.locs = funclocs(cx.last)
        x.same('size', R[1][0], w, 64)
        for i in range(w): x.same('byte %d' % i, R[0][i], v[i], 8)
        x.same('value read back', R[1][2], cat(v[:w] + [0] * (8 - w)), 64)
        x.done()
    for nm, w in (('Uint16', 2), ('Uint32', 4), ('Uint64', 8)):
        for n in (w, w + 1):
            t = 'byte order of a stream opened on %d bytes is little endian in both directions (%s)' % (n, nm)
            R = cx.call(m, 'c_dat' + nm, ('in', 'd', n, 'u8'), n, ('out', BIGN, 'u8'), ('out', 4, 'i64'), val, title=t)
            if not R: continue
            x = T(cx, t); x.locs = funclocs(cx.last)
            x.same('size', R[1][0], n, 64)
            for i in range(w): x.same('byte %d' % i, R[0][i], v[i], 8)
            x.same('value read', R[1][2], cat([byte('d', i) for i in range(w)] + [0] * (8 - w)), 64)
            x.done()
    ms = cx.module('seq.cpp')
    num = [(k + s,) for k in ('put', 'get') for s in ('Uint16', 'Uint32', 'Uint64', 'Int16', 'Int32')]
    pool = num + [('setReadEndian', 0), ('setReadEndian', 1), ('setWriteEndian', 0), ('setWriteEndian', 1), ('seek', 0), ('seek', 1), ('putUint8',), ('getUint8',), ('copy',), ('init',)]
    for n, k in ((0, 1), (9, 2)): histories(cx, ms, n, mixes(pool, n + 1, None, 200 * k, 300 * k), 25.0)
    # large cursors, on both sides of the constants and narrowings in the stream's own code
    ks, widths, fns = consts.constants(m, [f for f in m.funcs if f.startswith('c_')])
    ex = [k for k in ks if 64 < k and k not in (255, 256, 65535, 65536)]
    for n in sorted({255, 256, 257, 32768, 65535, 65536, 65537} | set(consts.near(ex, 1 << 21, 2))):
        if time.time() - cx.t0 > 400: break
        for nm, w in TY:
            for e in (0, 1):
                x = [(17 * i + 0x81) & 255 for i in range(w)]
                for c in (n - w, n):
                    o = Big(cx, m, 'c_put' + nm, n, c, sum(b << (8 * i) for i, b in enumerate(x)), order=(1 - e, e), title='put%s, size %d, cursor %d, %s endian' % (nm, n, c, En[e]))
                    if o.ok: o.state(c + w, c + w, {c + i: b for i, b in enumerate(x if e == 0 else x[::-1])}); o.t.done()
                o = Big(cx, m, 'c_get' + nm, n, n - w, order=(e, 1 - e), title='get%s, size %d, cursor %d, %s endian' % (nm, n, n - w, En[e]))
                if o.ok:
                    b = [pat(n - w + i) for i in range(w)]
                    o.ret(sum(q << (8 * i) for i, q in enumerate(b if e == 0 else b[::-1])), what='value'); o.state(n, n); o.t.done()
    cx.assumptions = ['the byte order of the two orders composes to the identity bit by bit, so reading what was written is the identity for every value']
