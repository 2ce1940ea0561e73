from harness import *
from stream import *
import consts
TEXT = ('Every MemoryStream operation is analysed on a stream of symbolic bytes for every combination of small sizes (0..6), cursors (including past the end), offsets and lengths, plus '
        'extreme offsets and lengths; each memory access is checked against its object, and the final size, cursor, buffer bytes, output bytes and result are compared bit by bit with the required ones.')
H = (1 << 64) - 1


class bytesarg(list): pass      # concrete bytes


_pats = {}


def pats(n, x=0):
    if (n, x) not in _pats: _pats[n, x] = bytesarg(pat(i) ^ x for i in range(n))
    return _pats[n, x]


def pat(i): return (i * 7 + (i >> 8) * 13 + (i >> 16)) & 255


class Big:
    """one operation on a stream of n bytes of a fixed pattern; sampled bytes of the result are compared"""
    def __init__(self, cx, m, fn, n, c, *args, room=0, title=None, order=(0, 0)):
        self.n = n
        self.title = title or '%s(size %d, cursor %d%s)' % (fn[2:], n, c, ''.join(', %d' % a for a in args if a.__class__ is int))
        R = cx.call(m, fn, pats(n), n, n, c, order[0], order[1], ('out', n + room + 16, 'u8', 'lazy'), ('out', 4, 'i64'), *args, title=self.title)
        self.ok = isinstance(R, list)
        if not self.ok: return
        self.buf, self.r, self.outs = R[0], R[1], R[2:-1]
        self.t = T(cx, self.title); self.t.locs = funclocs(cx.last)

    def state(self, size, cursor, at=(), wr=(0, 0)):
        self.t.same('buffer size', self.r[0], size, 64); self.t.same('cursor', self.r[1], cursor, 64)
        for i in sorted({0, 1, self.n // 2, self.n - 1, 254, 255, 256, 4095, 4096, 32767, 32768, 65535, 65536} | set(at)):
            if not 0 <= i < size: continue
            w = at[i] if i in at else pat(i - wr[0]) ^ 0x55 if wr[0] <= i < wr[0] + wr[1] else pat(i) if i < self.n else 0
            self.t.same('byte %d of the buffer' % i, self.buf[i], w, 8)

    def ret(self, v, i=2, what='result'): self.t.same(what, self.r[i], v, 64)


def big(cx, m):
    """sizes on both sides of every constant, mask and narrowing in the stream's own code"""
    ks, widths, fns = consts.constants(m, [f for f in m.funcs if f.startswith('c_')])
    sizes = [255, 256, 257, 32768, 65536, 65537]
    ex = [k for k in ks if 64 < k and not any(abs(k - s) <= 1 for s in sizes + [65535])]
    sizes = sorted(set(sizes) | {1 << (w - 1) for w in widths} | set(consts.near(ex, 1 << 21, 3 if not cx.deep else 12)))
    cx.extra['large_sizes'] = sizes; cx.extra['size_constants_in_code'] = sorted(ks)
    for n in sizes:
        if time.time() - cx.t0 > (400 if not cx.deep else 2000):
            cx.undecided('streams of %d bytes' % n, 'time limit'); continue
        o = Big(cx, m, 'c_open', n, n // 2)
        if o.ok: o.state(n, n // 2); o.ret(0, what='end-of-file flag'); o.ret(n // 2, 3, 'mark'); o.t.done()
        o = Big(cx, m, 'c_open', n, n - 1)
        if o.ok: o.state(n, n - 1); o.ret(0, what='end-of-file flag'); o.t.done()
        o = Big(cx, m, 'c_open', n, n)
        if o.ok: o.state(n, n); o.ret(1, what='end-of-file flag'); o.t.done()
        for c, l in ((0, n), (1, n), (n - 2, 1), (n - 1, 4)):
            o = Big(cx, m, 'c_read', n, c, ('out', n + 16, 'u8', 'lazy'), l)
            if not o.ok: continue
            e = min(l, n - c)
            o.ret(e); o.state(n, c + e)
            for i in sorted({0, 1, e // 2, e - 2, e - 1}):
                if 0 <= i < e: o.t.same('byte %d read' % i, o.outs[0][i], pat(c + i), 8)
            if o.outs[0][e] is not UNDEF: o.t.bad = o.t.bad or 'output byte %d written though only %d bytes are available' % (e, e)
            o.t.done()
        for p, l in ((0, n), (n - 1, n)):
            o = Big(cx, m, 'c_read_at', n, 0, ('out', n + 16, 'u8', 'lazy'), l, p)
            if not o.ok: continue
            e = min(l, n - p)
            o.ret(e); o.state(n, 0)
            for i in sorted({0, 1, e // 2, e - 2, e - 1}):
                if 0 <= i < e: o.t.same('byte %d read' % i, o.outs[0][i], pat(p + i), 8)
            o.t.done()
        src = pats(n, 0x55)
        for fn, c, a in (('c_write', n, (src, n)), ('c_write', n - 1, (src, 3)), ('c_write_at', 0, (src, n, n)), ('c_write_at', 3, (src, 2, n - 1)), ('c_write', 0, (src, n))):
            p, l = (a[2], a[1]) if len(a) == 3 else (c, a[1])
            o = Big(cx, m, fn, n, c, *a, room=n)
            if not o.ok: continue
            at = {p + i: pat(i) ^ 0x55 for i in (0, 1, l // 2, l - 1) if i < l}
            o.ret(l); o.state(max(n, p + l), c + l if fn == 'c_write' else c, at, (p, l)); o.t.done()
        for w in (0, 1, 2):
            c = n // 3
            for want in (0, n // 2, n - 1, n):
                off = {0: want, 1: want - c, 2: n - want - 1}[w]
                o = Big(cx, m, 'c_seek', n, c, off & 0xffffffff, w, title='fseek %d %s, size %d, cursor %d' % (off, ('TOP', 'CURRENT', 'END')[w], n, c))
                if o.ok: o.state(n, want); o.ret(want); o.t.done()
        o = Big(cx, m, 'c_seekTo', n, 0, n - 1)
        if o.ok: o.state(n, n - 1); o.t.done()
        o = Big(cx, m, 'c_getUint8', n, n - 1)
        if o.ok: o.ret(pat(n - 1)); o.state(n, n); o.t.done()
        o = Big(cx, m, 'c_get_at', n, 0, n - 1)
        if o.ok: o.ret(pat(n - 1)); o.state(n, 0); o.t.done()
        for c in (n - 1, n):
            o = Big(cx, m, 'c_putUint8', n, c, 0xA6)
            if o.ok: o.state(max(n, c + 1), c + 1, {c: 0xA6}); o.t.done()
        o = Big(cx, m, 'c_put_at', n, 1, n + 5, 0xA6, room=16)
        if o.ok: o.state(n + 6, 1, {n + 5: 0xA6}); o.t.done()
        for c in (1, n // 2 + 1):
            for a in (64, 128, 512, 1024, 4096, 65536):
                e = (c + a - 1) // a * a
                if e > n: continue
                o = Big(cx, m, 'c_align', n, c, a)
                if o.ok: o.state(n, e); o.t.done()


def check(cx):
    m = cx.module('stream.cpp')
    N_ = 6 if not cx.deep else 12
    d = lambda i: byte('d', i)
    # opening
    for n in list(range(0, N_ + 1)) + [70]:
        for fn, src in (('c_open2', True), ('c_openz', False)):
            t = 'open %d %s bytes' % (n, 'given' if src else 'zero')
            R = cx.call(m, fn, *(((('in', 'd', n, 'u8'),) if src else ()) + (n, ('out', BIGN, 'u8'), ('out', 4, 'i64'))), title=t)
            if not R: continue
            x = T(cx, t)
            x.same('size', R[1][0], n, 64); x.same('cursor', R[1][1], 0, 64)
            for i in range(n): x.same('byte %d' % i, R[0][i], d(i) if src else 0, 8)
            x.done()
    R = cx.call(m, 'c_open0', ('out', BIGN, 'u8'), ('out', 4, 'i64'), title='default stream')
    if R:
        x = T(cx, 'default stream'); x.same('size', R[1][0], 0, 64); x.same('cursor', R[1][1], 0, 64); x.done()
    # states: n bytes, cursor c; then shortened to k so that the cursor may lie past the end
    st = []
    for n in range(0, N_ + 1):
        for c in range(0, n + 1):
            st.append((n, n, c))
            if n == 4: st += [(n, k, c) for k in (0, 2, 3)]
            if n == 3: st += [(n, k, c) for k in (5,)]
    if not cx.deep: small = [s for s in st if s[0] in (0, 1, 4, 5)]
    else: small = st
    for n, k, c in st:
        o = Op(cx, m, 'c_open', n, k, c, 0, 0)
        if o.ok: o.state(o.before, c); o.ret(int(c >= k), what='end-of-file flag'); o.ret(c, 3, 'mark'); o.done()
        # single bytes
        o = Op(cx, m, 'c_getUint8', n, k, c, 0, 0)
        if o.ok: o.ret(o.before[c] if c < k else 0); o.state(o.before, c + 1 if c < k else c); o.done()
        if c <= k:
            o = Op(cx, m, 'c_putUint8', n, k, c, 0, 0, cat([byte('v', j) for j in range(8)]))
            if o.ok: o.state(o.before[:c] + [byte('v', 0)] + o.before[c + 1:], c + 1); o.done()
        else:
            o = Op(cx, m, 'c_putUint8', n, k, c, 0, 0, cat([byte('v', j) for j in range(8)]), soft=True)
            # writing past the end must not touch memory: growing or refusing (assertion) are both fine
            if o.ok or (isinstance(o.R, tuple) and o.R[0] == 'dead'): cx.holds(o.title, 'every access inside its object')
            elif isinstance(o.R, tuple): cx.violation(o.title, str(o.R[1]), [o.R[1].loc])
    # absolute access
    for n, k, c in [s for s in small if s[2] in (0, 1, s[1])]:
        for p in list(range(0, k + 3)) + [70, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, H]:
            o = Op(cx, m, 'c_get_at', n, k, c, 0, 0, p)
            if o.ok: o.ret(o.before[p] if p < k else 0); o.state(o.before, c); o.done()
        for p in list(range(0, k + 3)) + [70]:
            v = byte('v', 0)
            o = Op(cx, m, 'c_put_at', n, k, c, 0, 0, p, v)
            if o.ok:
                a = o.before + [0] * (p + 1 - k)
                a[p] = v
                o.state(a, c); o.done()
    # direct pointers into the buffer, and copies
    for n, k, c in [s for s in small if s[1] and s[2] < s[1]]:
        for p in range(k):
            o = Op(cx, m, 'c_ptr', n, k, c, 0, 0, p)
            if o.ok: o.ret(o.before[c], what='byte at ptr()'); o.ret(o.before[p], 3, 'byte at ptr(p)'); o.state(o.before, c); o.done()
            o = Op(cx, m, 'c_ptrw', n, k, c, 0, 0, p, byte('v', 0))
            if o.ok: o.ret(byte('v', 0)); o.state(o.before[:p] + [byte('v', 0)] + o.before[p + 1:], c); o.done()
        o = Op(cx, m, 'c_copy', n, k, c, 0, 0, byte('v', 0))
        if o.ok: o.ret(k + 1, what='size of the copy'); o.ret(c, 3, 'cursor of the copy'); o.state(o.before, c); o.done()
    # block access at an absolute position and at the cursor
    for n, k, c in [s for s in small if s[2] in (0, 1, 2, s[1], s[0])]:
        L = list(range(0, k + 3))
        for p in [q for q in list(range(0, k + 3)) + [1 << 32, 1 << 63, H] if c in (0, 1)]:
            for l in L + ([1 << 33, H] if p <= k else []):
                o = Op(cx, m, 'c_read_at', n, k, c, 0, 0, ('out', 16, 'u8'), l, p)
                if not o.ok: continue
                e = min(l, max(0, k - p))
                o.ret(e); o.state(o.before, c)
                for i in range(e): o.t.same('byte %d read' % i, o.outs[0][i], o.before[p + i], 8)
                for i in range(e, 16):
                    if o.outs[0][i] is not UNDEF: o.t.bad = o.t.bad or 'output byte %d written though only %d bytes are available' % (i, e)
                o.done()
            if p > 100: continue
            for l in L:
                o = Op(cx, m, 'c_write_at', n, k, c, 0, 0, ('in', 't', 16, 'u8'), l, p)
                if not o.ok: continue
                a = list(o.before)
                if l: a += [0] * (p + l - k)
                elif len(a) < p:
                    # an empty write past the end may or may not grow the buffer
                    sz = o.r[0]
                    a += [0] * ((sz if sz.__class__ is int and k <= sz <= p else k) - k)
                for i in range(l): a[p + i] = byte('t', i)
                o.ret(l); o.state(a, c); o.done()
        for l in L + [1 << 33, H]:
            o = Op(cx, m, 'c_read', n, k, c, 0, 0, ('out', 16, 'u8'), l)
            if not o.ok: continue
            e = min(l, max(0, k - c))
            o.ret(e); o.state(o.before, c + e)
            for i in range(e): o.t.same('byte %d read' % i, o.outs[0][i], o.before[c + i], 8)
            for i in range(e, 16):
                if o.outs[0][i] is not UNDEF: o.t.bad = o.t.bad or 'output byte %d written though only %d bytes are available' % (i, e)
            o.done()
        for l in L:
            o = Op(cx, m, 'c_write', n, k, c, 0, 0, ('in', 't', 16, 'u8'), l)
            if not o.ok: continue
            a = list(o.before)
            if l: a += [0] * (c + l - k)
            elif len(a) < c:
                sz = o.r[0]
                a += [0] * ((sz if sz.__class__ is int and k <= sz <= c else k) - k)
            for i in range(l): a[c + i] = byte('t', i)
            o.ret(l); o.state(a, c + l); o.done()
    # offsets whose end wraps around: the write must be refused, never performed elsewhere
    for n, k, c in ((0, 0, 0), (3, 3, 1), (6, 6, 6)):
        for fn, args, ti in ([('c_put_at', (p, byte('v', 0)), 'put_at offset 2^64-%d' % (H + 1 - p)) for p in (H, H - 1)] +
                             [('c_write_at', (('in', 't', 16, 'u8'), l, p), 'write_at %d bytes at offset 2^64-%d' % (l, H + 1 - p)) for l in (1, 2, 16) for p in (H, H - 1, H - 2) if p + l > H]):
            ti = '%s, size %d' % (ti, k)
            o = Op(cx, m, fn, n, k, c, 0, 0, *args, title=ti, soft=True)
            if isinstance(o.R, tuple) and o.R[0] == 'dead': cx.holds(ti, 'the path ends in length_error before any access')
            elif isinstance(o.R, tuple): cx.violation(ti, str(o.R[1]), [o.R[1].loc])
            elif o.ok: o.state(o.before, c); o.done()
    # seeking
    for n, k, c in [s for s in small if s[0] == s[1]]:
        for w in (0, 1, 2):
            for off in range(-(k + 2), k + 3):
                want = {0: off, 1: c + off, 2: k - off - 1}[w]
                if cx.tag and not 0 <= want <= k: continue       # refused by assertion only: without assertions the caller's business
                ti = 'fseek %d %s, size %d, cursor %d' % (off, ('TOP', 'CURRENT', 'END')[w], k, c)
                o = Op(cx, m, 'c_seek', n, k, c, 0, 0, off & 0xffffffff, w, title=ti, soft=True)
                if isinstance(o.R, tuple):
                    if o.R[0] == 'fault': cx.violation(ti, str(o.R[1]), [o.R[1].loc])
                    elif 0 <= want <= k: cx.violation(ti, 'a valid position is refused: %s' % o.R[1], [o.R[1].loc])
                    else: cx.holds(ti, 'refused by assertion')
                elif o.ok:
                    cur = o.r[1]
                    if not (0 <= want <= k):
                        # an implementation that does not refuse must leave the cursor valid
                        o.t.bad = None if cur.__class__ is int and 0 <= cur <= k else 'cursor %r outside 0..%d' % (cur, k)
                        o.done(); continue
                    o.state(o.before, want); o.ret(want & H); o.done()
        for p in range(0, k + 1):
            o = Op(cx, m, 'c_seekTo', n, k, c, 0, 0, p)
            if o.ok: o.state(o.before, p); o.done()
    for k in ((16,) if not cx.deep else (16, 17, 40)):
        for c in range(0, k + 1):
            for a in (1, 2, 3, 4, 8, 16):
                e = (c + a - 1) // a * a
                if e > k: continue
                o = Op(cx, m, 'c_align', k, k, c, 0, 0, a)
                if o.ok: o.state(o.before, e); o.done()
    # multi-byte numbers near and past the end of the buffer: inside the buffer, missing bytes read as zero
    for fn, w in (('Uint8', 1), ('Int8', 1), ('Uint16', 2), ('Int16', 2), ('Uint32', 4), ('Int32', 4), ('Uint64', 8), ('Int64', 8), ('Float', 4), ('Double', 8)):
        for k in range(0, w + 1):
            for e in (0, 1):
                o = Op(cx, m, 'c_get' + fn, k, k, 0, e, 1 - e, title='get%s with %d bytes left, %s endian' % (fn, k, ('little', 'big')[e]))
                if o.ok:
                    b = o.before + [0] * (w - k)
                    o.ret(cat((b if e == 0 else b[::-1]) + [0] * (8 - w))); o.state(o.before, k); o.done()
    # a profile given as memory of any size is only read inside it
    for n in range(0, 9):
        o = Op(cx, m, 'c_icc', n, n, 0, 0, 0)
        if o.ok: o.state(o.before, 0); o.done()
    # histories: operations one after the other on the same stream
    ms = cx.module('seq.cpp')
    pool = [('putUint8',), ('getUint8',), ('write', 2), ('write', 5), ('read', 3), ('seek', 0), ('seek', 3), ('seek +', 1), ('seek +', -2), ('seek end-', 0), ('seek end-', -1), ('align', 4), ('put_at', 1),
            ('put_at', 7), ('get_at', 2), ('get_at', 9), ('write_at', 1, 2), ('write_at', 6, 3), ('write_at', 4, 1), ('read_at', 1, 3), ('read_at', 8, 2), ('feof',), ('mark',), ('seekTo', 2), ('resize', 4),
            ('resize', 9), ('init',), ('copy',)]
    for n, k in ((0, 1), (4, 4)): histories(cx, ms, n, mixes(pool, n, None, 300 * k, 300 * k), 30.0)
    for core in ([('feof',), ('seek', 0), ('seek', 4), ('put_at', 7), ('getUint8',), ('resize', 2)], [('write', 3), ('read', 2), ('seek', 1), ('write_at', 5, 2), ('feof',), ('init',)],
                 [('putUint8',), ('getUint8',), ('seek end-', -1), ('read_at', 2, 3), ('resize', 6), ('copy',)]):
        histories(cx, ms, 4, itertools.product(core, repeat=4), 40.0)
    big(cx, m)
    cx.assumptions = ['buffers of at most 2^31-1 bytes (the cursor is an int)', 'the caller\'s own buffers are as long as the length it passes']
