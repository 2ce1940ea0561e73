from harness import *
from stream import *
from c24 import Big, pats, pat
import consts
TEXT = ('String and pointer-slot operations are analysed for symbolic characters and buffer bytes over string lengths 0..20 (both sides of the small-string limit), field widths 0..24, cursors and both '
        'byte orders; pointer adjustment also for a symbolic 64-bit buffer size. Every stored and returned bit is traced to its required source.')


def check(cx):
    m = cx.module('stream.cpp')
    En = ('little', 'big')
    le = lambda v, w, e: [(v >> (8 * i)) & 255 for i in range(w)][::1 if e == 0 else -1]
    tx = [byte('t', i) for i in range(64)]
    lens = [0, 1, 2, 3, 7, 14, 15, 16, 17, 20] + ([5, 30, 31, 33, 47] if cx.deep else [])
    for l in lens:
        for n, c in ((0, 0), (5, 5), (6, 2), (40, 1)):
            for e in (0, 1):
                ti = 'string of %d characters, size %d, cursor %d, %s endian' % (l, n, c, En[e])
                o = Op(cx, m, 'c_putString', n, n, c, 1 - e, e, ('in', 't', max(l, 1), 'u8'), l, title='putString ' + ti)
                lay = le(l + 1, 4, e) + tx[:l] + [0]
                if o.ok: o.state(o.before[:c] + lay + o.before[c + len(lay):], c + len(lay)); o.done()
                o = Op(cx, m, 'c_string2', n, n, c, e, e, ('out', 64, 'u8'), ('in', 't', max(l, 1), 'u8'), l, title='putString/get_string ' + ti)
                if o.ok:
                    o.ret(l, what='length read back')
                    for i in range(l): o.t.same('character %d read back' % i, o.outs[0][i], tx[i], 8)
                    o.t.same('cursor after reading', o.r[3], c + 5 + l, 64)
                    o.done()
    # an explicit length field: 0 gives the empty string, larger ones read length-1 characters and the terminator
    for L in (0, 1, 2, 5, 9):
        for e in (0, 1):
            f = le(L, 4, e)
            data = f + [byte('q', i) for i in range(6)]
            ti = 'get_string with stored length %d and 6 bytes following, %s endian' % (L, En[e])
            o = OpB(cx, m, 'c_get_string', data, 0, e, 1 - e, ('out', 64, 'u8'), title=ti)
            if o.ok:
                o.ret(max(L - 1, 0), what='string length')
                for i in range(max(L - 1, 0)): o.t.same('character %d' % i, o.outs[0][i], byte('q', i) if i < 6 else 0, 8)
                o.t.same('cursor', o.r[1], min(4 + max(L, 0), 10), 64)
                o.done()
    # fixed-length fields
    for l in (0, 1, 3, 7, 16, 20):
        for f in (0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 24):
            for n, c in ((0, 0), (30, 4), (6, 3)):
                ti = 'putSubstr of %d characters into %d bytes, size %d, cursor %d' % (l, f, n, c)
                o = Op(cx, m, 'c_putSubstr', n, n, c, 0, 1, ('in', 't', max(l, 1), 'u8'), l, f, title=ti)
                lay = (tx[:min(l, max(f - 1, 0))] + [0] * f)[:f]
                if o.ok: o.state(o.before[:c] + lay + o.before[c + f:], c + f); o.done()
    for f in (0, 1, 2, 3, 5, 8, 15, 16, 17, 24):
        for n, c in ((30, 0), (30, 4), (6, 3), (0, 0)):
            ti = 'getSubstr of %d bytes, size %d, cursor %d' % (f, n, c)
            o = Op(cx, m, 'c_getSubstr', n, n, c, 0, 1, ('out', 64, 'u8'), f, title=ti)
            if o.ok:
                o.ret(max(f - 1, 0), what='string length')
                for i in range(max(f - 1, 0)): o.t.same('character %d' % i, o.outs[0][i], o.before[c + i] if c + i < n else 0, 8)
                o.state(o.before, min(c + f, n)); o.done()
    # pointer slots
    for w in (4, 8):
        b = 8 * w
        for e in (0, 1):
            for n, c in ((0, 0), (5, 5), (12, 2), (3, 1)):
                o = Op(cx, m, 'c_slot%d' % b, n, n, c, 1 - e, e, title='putPointer%d, size %d, cursor %d, %s endian' % (b, n, c, En[e]))
                if o.ok:
                    o.ret(c, what='slot position'); o.state(o.before[:c] + [0] * w + o.before[c + w:], c + w); o.done()
                if n - c >= w or n >= w + 2:
                    pass
            for n, p, c in ((w, 0, 0), (w + 4, 2, 1), (w + 4, 4, w + 4), (20, 7, 20)):
                o = Op(cx, m, 'c_adjust%d' % b, n, n, c, 1 - e, e, p, title='adjustPointer%d at %d, size %d, cursor %d, %s endian' % (b, p, n, c, En[e]))
                if o.ok: o.state(o.before[:p] + le(n, w, e) + o.before[p + w:], c); o.done()
            for n in (300, 70000):
                o = Op(cx, m, 'c_adjust%d' % b, 8, n, 0, 1 - e, e, 0, title='adjustPointer%d in a buffer of %d bytes, %s endian' % (b, n, En[e]), room=n)
                if o.ok:
                    for i, x in enumerate(le(n, w, e)): o.t.same('byte %d of the slot' % i, o.buf[i], x, 8)
                    o.done()
            # every size at once: the size is a symbolic 64-bit number while the slot is adjusted
            on = [False]; used = [0]
            sz = ivar('size', 64)

            def size(I, a, loc):
                if on[0]: used[0] += 1; return sz
                return NotImplemented
            cuts = {f: size for f in m.funcs if f == '_ZNKSt6vectorIhSaIhEE4sizeEv'}
            cuts['marker_begin'] = lambda I, a, loc: on.__setitem__(0, True)
            cuts['marker_end'] = lambda I, a, loc: on.__setitem__(0, False)
            n, p, c = 20, 7, 3
            ti = 'adjustPointer%d, symbolic size, %s endian' % (b, En[e])
            o = Op(cx, m, 'c_adj%d' % b, n, n, c, 1 - e, e, p, title=ti, cuts=cuts)
            if o.ok:
                if used[0]:
                    sb = [mkbits(tuple((sz, 8 * i + j) for j in range(8))) for i in range(w)]
                    o.state(o.before[:p] + (sb if e == 0 else sb[::-1]) + o.before[p + w:], c); o.done()
                else: cx.undecided(ti, 'the buffer size is not obtained through size()')
            for n, c in ((w, 0), (w + 3, 2)):
                o = Op(cx, m, 'c_getp%d' % b, n, n, c, e, 1 - e, title='getPointer%d, size %d, cursor %d, %s endian' % (b, n, c, En[e]))
                if o.ok:
                    s = o.before[c:c + w]
                    o.ret(cat((s if e == 0 else s[::-1]) + [0] * (8 - w)), what='pointer'); o.state(o.before, c + w); o.done()
            for n, c, l in ((0, 0, 0), (0, 0, 6), (5, 5, 3), (12, 2, 4)):
                ti = 'reserve, write %d bytes, adjust and read a %d-bit pointer, size %d, cursor %d, %s endian' % (l, b, n, c, En[e])
                o = Op(cx, m, 'c_seq%d' % b, n, n, c, e, e, ('in', 't', max(l, 1), 'u8'), l, title=ti)
                if o.ok:
                    a = o.before[:c] + [0] * w + o.before[c + w:]
                    a = a[:c + w] + tx[:l] + a[c + w + l:]
                    a = a[:c] + le(len(a), w, e) + a[c + w:]
                    o.ret(len(a), what='pointer read back'); o.ret(c, 3, 'slot position'); o.state(a, c + w + l); o.done()
    big(cx, m)
    cx.assumptions = ['adjustPointer is given a slot returned by putPointer (inside the buffer)']


class OpB(Op):
    """stream over explicit bytes"""
    def __init__(self, cx, m, fn, data, c, re, we, *args, title=None):
        self.cx = cx; self.title = title
        R = cx.call(m, fn, bytesarg(data), len(data), len(data), c, re, we, ('out', BIGN, 'u8'), ('out', 4, 'i64'), *args, title=title)
        self.R = R; self.ok = isinstance(R, list)
        if self.ok:
            self.buf, self.r, self.outs = R[0], R[1], R[2:-1]
            self.t = T(cx, title); self.t.locs = funclocs(cx.last)


class bytesarg(list): pass


def big(cx, m):
    """long strings and fields, on both sides of the constants and narrowings in the stream's own code"""
    ks, widths, fns = consts.constants(m, [f for f in m.funcs if f.startswith('c_')])
    lens = [126, 127, 128, 254, 255, 256, 65536]
    ex = [k for k in ks if 64 < k and k not in (65535, 65536) and not any(abs(k - s) <= 1 for s in lens)]
    lens = sorted(set(lens) | set(consts.near(ex, 1 << 17, 3 if not cx.deep else 12)))
    le = lambda v, w, e: [(v >> (8 * i)) & 255 for i in range(w)][::1 if e == 0 else -1]
    cx.extra['long_strings'] = lens
    for l in lens:
        if time.time() - cx.t0 > 400:
            cx.undecided('strings of %d characters' % l, 'time limit'); continue
        for e in ((0, 1) if l < 1000 else (0,)):
            n = c = 2
            ti = 'putString of %d characters, %s endian' % (l, ('little', 'big')[e])
            R = cx.call(m, 'c_putString', pats(n), n, n, c, e, e, ('out', l + 64, 'u8', 'lazy'), ('out', 4, 'i64'), pats(l, 0x55), l, title=ti)
            if R:
                x = T(cx, ti); x.locs = funclocs(cx.last)
                x.same('buffer size', R[1][0], c + 5 + l, 64); x.same('cursor', R[1][1], c + 5 + l, 64)
                for i, b in enumerate(le(l + 1, 4, e)): x.same('length byte %d' % i, R[0][c + i], b, 8)
                for i in sorted({0, 1, l // 2, l - 1} | {k for k in (127, 128, 254, 255, 256, 32767, 32768, 65535) if k < l}): x.same('character %d' % i, R[0][c + 4 + i], pat(i) ^ 0x55, 8)
                x.same('terminator', R[0][c + 4 + l], 0, 8)
                x.done()
            ti = 'get_string of %d characters, %s endian' % (l, ('little', 'big')[e])
            data = bytesarg(le(l + 1, 4, e) + pats(l) + [0, 9, 9])
            R = cx.call(m, 'c_get_string', data, len(data), len(data), 0, e, e, ('out', l + 64, 'u8', 'lazy'), ('out', 4, 'i64'), ('out', l + 64, 'u8', 'lazy'), title=ti)
            if R:
                x = T(cx, ti); x.locs = funclocs(cx.last)
                x.same('length', R[1][2], l, 64); x.same('cursor', R[1][1], l + 5, 64)
                for i in sorted({0, 1, l // 2, l - 1} | {k for k in (127, 128, 254, 255, 256, 32767, 32768, 65535) if k < l}): x.same('character %d' % i, R[2][i], pat(i), 8)
                x.done()
        if l > 1000: continue
        for a in (0, 3, l - 1, l, l + 1):
            ti = 'putSubstr of %d characters into %d bytes' % (a, l)
            R = cx.call(m, 'c_putSubstr', pats(2), 2, 2, 2, 0, 0, ('out', l + 64, 'u8', 'lazy'), ('out', 4, 'i64'), pats(max(a, 1), 0x55), a, l, title=ti)
            if R:
                x = T(cx, ti); x.locs = funclocs(cx.last)
                x.same('buffer size', R[1][0], 2 + l, 64); x.same('cursor', R[1][1], 2 + l, 64)
                for i in range(l): x.same('byte %d of the field' % i, R[0][2 + i], pat(i) ^ 0x55 if i < min(a, l - 1) else 0, 8)
                x.done()
        ti = 'getSubstr of %d bytes' % l
        R = cx.call(m, 'c_getSubstr', pats(l + 4), l + 4, l + 4, 1, 0, 0, ('out', l + 64, 'u8', 'lazy'), ('out', 4, 'i64'), ('out', l + 64, 'u8', 'lazy'), l, title=ti)
        if R:
            x = T(cx, ti); x.locs = funclocs(cx.last)
            x.same('length', R[1][2], l - 1, 64); x.same('cursor', R[1][1], l + 1, 64)
            for i in range(l - 1): x.same('character %d' % i, R[2][i], pat(1 + i), 8)
            x.done()
    for w in (4, 8):
        for e in (0, 1):
            for n in sorted({256, 32768, 65535, 65536} | set(consts.near(ex, 1 << 21, 2))):
                if time.time() - cx.t0 > 500: continue
                for p in (0, n - w):
                    ti = 'adjustPointer%d at %d, size %d, %s endian' % (8 * w, p, n, ('little', 'big')[e])
                    o = Big(cx, m, 'c_adjust%d' % (8 * w), n, 5, p, title=ti, order=(e, e))
                    if o.ok: o.state(n, 5, {p + i: b for i, b in enumerate(le(n, w, e))}); o.t.done()
    # histories
    ms = cx.module('seq.cpp')
    pool = [('putString', 0), ('putString', 3), ('putString', 8), ('get_string',), ('putSubstr', 4, 2), ('putSubstr', 3, 6), ('getSubstr', 3), ('putPointer32',), ('adjustPointer32',), ('putPointer64',),
            ('adjustPointer64',), ('getPointer32',), ('getPointer64',), ('seek', 0), ('seek', 4), ('seek end-', -1), ('write', 3), ('setReadEndian', 1), ('setWriteEndian', 1), ('setWriteEndian', 0), ('putUint8',),
            ('write_at', 9, 3), ('copy',)]
    core = [('putString', 2), ('seek', 0), ('get_string',), ('putPointer32',), ('adjustPointer32',), ('putUint8',), ('setWriteEndian', 1), ('setReadEndian', 1), ('seek end-', -1)]
    for n, k in ((0, 2), (6, 1)):
        histories(cx, ms, n, mixes(pool, n + 2, None, 200 * k, 300 * k), 25.0)
        for two in ([('putString', 2), ('putString', 2)], [('putString', 3), ('putString', 1)], [('putPointer32',), ('putString', 2)], [('putPointer64',), ('write', 3)], [('putSubstr', 3, 2), ('putString', 2)]):
            for mid in ([('seek', 0)], [('seek', 0), ('setReadEndian', 1)], [('adjustPointer32',), ('seek', 0)], [('adjustPointer64',), ('seek', 0)]):
                for g in itertools.product([('get_string',), ('getSubstr', 3), ('getPointer32',), ('getPointer64',)], repeat=2): histories(cx, ms, n, [tuple(two + mid + list(g))])
        histories(cx, ms, n, mixes(core, n + 3, 0, 0, 300, (4, 5, 6, 7, 8)), 20.0)
