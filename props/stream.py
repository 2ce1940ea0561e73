"""Shared by C24-C26: MemoryStream operations on symbolic bytes for concrete sizes, cursors and lengths.
The value graph of an operation is a vector of bit provenances (which input bit or constant each result bit is)."""
from harness import *
import numpy as np, itertools

BIGN = 160      # room for dumps


def bits(v, w):
    """list of w bits (int or (node, index)), or None if not representable"""
    if v is UNDEF: return None
    if v.__class__ is int: return [(v >> i) & 1 for i in range(w)]
    if v.__class__ is N and v.t == 'i':
        n = width_of(v)
        b = list(bits_of(v, n or w))[:w]
        return b + [0] * (w - len(b))
    if v.__class__ is SInt and isc(v.n): return bits(int(cv(v.n)) & ((1 << w) - 1), w)
    return None


BV = {'add': lambda a, b, w: a + b, 'sub': lambda a, b, w: a - b, 'mul': lambda a, b, w: a * b, 'and': lambda a, b, w: a & b, 'or': lambda a, b, w: a | b, 'xor': lambda a, b, w: a ^ b,
      'shl': lambda a, b, w: a << b if b < w else None, 'lshr': lambda a, b, w: a >> b if b < w else None,
      'ashr': lambda a, b, w: (a - (a >> (w - 1) << w)) >> b if b < w else None,
      'udiv': lambda a, b, w: a // b if b else None, 'urem': lambda a, b, w: a % b if b else None}


def ivalue(n, env, memo):
    """value of an integer or boolean node under an assignment of the input integers, None when unknown"""
    if n.__class__ is int: return n
    if n.id in memo: return memo[n.id]
    r = None
    try:
        if n.op == 'ivar': r = env(n.args[0], n.args[1])
        elif n.op == 'ic': r = n.args[0] & ((1 << n.args[1]) - 1)
        elif n.op == 'bits':
            r = 0
            for i, b in enumerate(n.args):
                x = b if b.__class__ is int else (ivalue(b[0], env, memo) >> b[1]) & 1
                r |= x << i
        elif n.op.startswith('bv') and n.op[2:] in BV:
            w = n.args[2]
            r = BV[n.op[2:]](ivalue(n.args[0], env, memo), ivalue(n.args[1], env, memo), w)
            if r is not None: r &= (1 << w) - 1
        elif n.op == 'isel': r = ivalue(n.args[1] if ivalue(n.args[0], env, memo) + 0 else n.args[2], env, memo)
        elif n.op == 'ibool': r = int(ivalue(n.args[0], env, memo) != 0)
        elif n.op == 'bit': r = (ivalue(n.args[0], env, memo) >> n.args[1]) & 1
        elif n.op == 'b': r = int(bool(n.args[0]))
        elif n.op == 'not': r = 1 - ivalue(n.args[0], env, memo)
        elif n.op == 'and': r = ivalue(n.args[0], env, memo) & ivalue(n.args[1], env, memo)
        elif n.op == 'or': r = ivalue(n.args[0], env, memo) | ivalue(n.args[1], env, memo)
        elif n.op == 'icmp':
            a, b = ivalue(n.args[1], env, memo), ivalue(n.args[2], env, memo)
            w = width_of(n.args[1]) or width_of(n.args[2])
            if n.args[0] in ('slt', 'sle', 'sgt', 'sge'):
                if not w: raise TypeError
                a, b = a - (a >> (w - 1) << w), b - (b >> (w - 1) << w)
            p = n.args[0]
            r = int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]])
        elif n.op == 'fbits': r = fvalue(n.args[0], n.args[1], env, memo)
        elif n.op == 'fcmpx':
            pred, k, x, y = n.args
            w = 32 if k == 'float' else 64
            a = fnum(fvalue(x, w, env, memo), w)
            if pred == 'class': r = int(bool(IP.fpclass(float(a)) & int(cv(y))))
            else:
                b = fnum(fvalue(y, w, env, memo), w)
                nan = a != a or b != b
                r = {'ord': not nan, 'uno': nan, 'true': True, 'false': False}.get(pred)
                if r is None: r = (pred[0] == 'u') if nan else {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
                r = int(bool(r))
    except TypeError: r = None
    memo[n.id] = r
    return r


def fnum(v, w): return np.array([v], np.uint32 if w == 32 else np.uint64).view(np.float32 if w == 32 else np.float64)[0]
def fbit(x, w): return int(np.array([x], np.float32 if w == 32 else np.float64).view(np.uint32 if w == 32 else np.uint64)[0])


def fvalue(n, w, env, memo):
    """IEEE bits of a float node computed from given bits"""
    k = ('f', n.id)
    if k in memo: return memo[k]
    if n.op == 'c': r = fbit(cv(n), w)
    elif n.op == 'frombits': r = ivalue(n.args[0], env, memo)
    elif n.op == 'sel': r = fvalue(n.args[1] if ivalue(n.args[0], env, memo) + 0 else n.args[2], w, env, memo)
    elif n.op == 'fx':
        op = n.args[0]; w2 = 32 if n.args[1] == 'float' else 64
        if op in ('fptrunc', 'fpext'):
            ws = 96 - w2
            r = fbit(fnum(fvalue(n.args[2], ws, env, memo), ws), w2)
        else:
            a = [fnum(fvalue(x, w2, env, memo), w2) for x in n.args[2:]]
            f = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'div': np.divide, 'neg': np.negative, 'fabs': np.abs, 'sqrt': np.sqrt, 'copysign': np.copysign}.get(op)
            r = None if f is None else fbit(f(*a), w2)
    else: r = None
    if r is None: raise TypeError
    memo[k] = r
    return r


def assignments(k=40, seed=3):
    """environments: all zero, all one, and pseudo-random values per input"""
    yield lambda nm, w: 0
    yield lambda nm, w: (1 << w) - 1
    # floating-point classes: signed zeros, NaNs with payload, infinities, denormals; any byte position and order
    for w, ps in ((4, (0x80000000, 0x7fc01234, 0xffc00000, 0x7f801234, 0x7f800000, 0xff800000, 1, 0x80000001, 0x7f7fffff)),
                  (8, (1 << 63, 0x7ff8000000001234, 0xfff8000000000000, 0x7ff0000000001234, 0x7ff0 << 48, 0xfff0 << 48, 1, 1 << 63 | 1, 0x7fefffffffffffff))):
        for p in ps:
            for o in ('little', 'big'):
                b = p.to_bytes(w, o)
                for sh in range(w):
                    yield lambda nm, ww, b=b, sh=sh, w=w: b[(int(re.sub(r'\D', '', nm) or 0) + sh) % w] if ww == 8 else int.from_bytes(b, 'little') & ((1 << ww) - 1)
    for i in range(k): yield lambda nm, w, i=i: random.Random('%s/%d/%d' % (nm, i, seed)).getrandbits(w)


def differ(x, y):
    """a value of the inputs on which bits x and y certainly differ (None: not found, or not expressible)"""
    for env in assignments():
        memo = {}
        a = x if x.__class__ is int else ivalue(x[0], env, memo)
        b = y if y.__class__ is int else ivalue(y[0], env, memo)
        if a is None or b is None: return None
        if x.__class__ is tuple: a = a >> x[1] & 1
        if y.__class__ is tuple: b = b >> y[1] & 1
        if a != b: return True
    return None


def pure(b): return b.__class__ is int or b[0].op == 'ivar'


def name(bs):
    """readable form of a bit vector"""
    if all(b.__class__ is int for b in bs): return '0x%x' % sum(b << i for i, b in enumerate(bs))
    out = []
    for i in range(0, len(bs), 8):
        c = bs[i:i + 8]
        if all(b.__class__ is int for b in c): out.append('0x%02x' % sum(b << j for j, b in enumerate(c)))
        elif all(b.__class__ is tuple and b[0] is c[0][0] for b in c) and c[0].__class__ is tuple and [b[1] for b in c] == list(range(c[0][1], c[0][1] + len(c))):
            out.append('%s[%d..%d]' % (X.show(c[0][0])[:40], c[0][1], c[-1][1]))
        else: out.append('mixed bits')
    return ' '.join(out)


class T:
    """collects comparisons of one operation instance; one obligation per instance"""
    def __init__(self, cx, title):
        self.cx = cx; self.title = title; self.bad = None; self.und = None; self.n = 0

    def same(self, what, got, want, w, locs=()):
        g, t = bits(got, w), bits(want, w)
        self.n += 1
        if got is UNDEF:
            self.bad = self.bad or '%s is never written' % what; return
        if g is None or t is None:
            self.und = self.und or '%s is not a plain bit vector (%r)' % (what, got); return
        for i, (x, y) in enumerate(zip(g, t)):
            if x.__class__ is y.__class__ is int and x == y: continue
            if x.__class__ is tuple and y.__class__ is tuple and x[0] is y[0] and x[1] == y[1]: continue
            if pure(x) and pure(y):
                self.bad = self.bad or '%s is %s, should be %s' % (what, name(g), name(t)); return
            if differ(x, y): self.bad = self.bad or '%s: bit %d differs from %s for some values of the bytes' % (what, i, name(t)); return
            self.und = self.und or '%s not comparable' % what

    def done(self):
        if self.bad: self.cx.violation(self.title, self.bad, getattr(self, 'locs', ()))
        elif self.und: self.cx.undecided(self.title, self.und)
        else: self.cx.holds(self.title, 'bit provenance', comparisons=self.n)


def funclocs(I):
    """source position of the MemoryStream functions analysed"""
    out = []
    for f in I.calls:
        if 'MemoryStream' not in f: continue
        for b in I.m.funcs[f].decode().order:
            l = next((I.m.loc(i.dbg) for i in I.m.funcs[f].blocks[b] if i.dbg is not None), None)
            if l:
                if l[0].endswith('colorsystem.hpp') and not any(x in l[2] for x in ('init', 'fseek', 'buffer')): out.append(l)
                break
    return out


def byte(nm, i): return ivar('%s%d' % (nm, i), 8)


def cat(bs):
    """little-endian integer from a list of bytes"""
    out = []
    for b in bs: out += bits(b, 8)
    return mkbits(tuple(out))


class Op:
    """one operation on a stream of n symbolic bytes d0..; k = size when the operation starts, c = cursor"""
    def __init__(self, cx, m, fn, n, k, c, re, we, *args, out=(), title=None, cuts=None, room=BIGN, soft=False):
        self.cx = cx
        self.title = title or '%s(size %d, cursor %d%s)' % (fn[2:], k, c, ''.join(', %s' % (a if a.__class__ is int else a[1]) for a in args if a.__class__ in (int,)))
        self.before = [byte('d', i) for i in range(min(n, k))] + [0] * (k - min(n, k))
        R = cx.call(m, fn, ('in', 'd', n, 'u8'), n, k, c, re, we, ('out', room, 'u8'), ('out', 4, 'i64'), *args, title=self.title, soft=soft, cuts=cuts, ends=2_000_000 if max(n, k) <= 400 and all(a.__class__ is not int or -400 <= a <= 400 for a in args) else None)
        self.R = R
        self.ok = isinstance(R, list)
        if not self.ok: return
        self.buf, self.r = R[0], R[1]
        self.outs = R[2:-1]
        self.t = T(cx, self.title)
        self.t.locs = funclocs(cx.last)

    def state(self, after, cursor):
        """final buffer and cursor"""
        t = self.t
        t.same('buffer size', self.r[0], len(after), 64)
        t.same('cursor', self.r[1], cursor, 64)
        for i, b in enumerate(after): t.same('byte %d of the buffer' % i, self.buf[i], b, 8)

    def ret(self, v, i=2, what='result'): self.t.same(what, self.r[i], v, 64)
    def done(self): self.t.done()


# ------------------------------------------------------------ histories
OPN = ('putUint8', 'getUint8', 'write', 'read', 'seek', 'seek +', 'seek end-', 'align', 'put_at', 'get_at', 'write_at', 'read_at', 'setReadEndian', 'setWriteEndian', 'putUint16', 'getUint16', 'putUint32',
       'getUint32', 'putUint64', 'getUint64', 'putInt16', 'getInt16', 'putInt32', 'getInt32', 'putString', 'get_string', 'putSubstr', 'getSubstr', 'putPointer32', 'adjustPointer32', 'putPointer64',
       'adjustPointer64', 'getPointer32', 'getPointer64', 'feof', 'resize', 'init', 'mark', 'seekTo', 'copy')
OPC = {n: i for i, n in enumerate(OPN)}


class Illegal(Exception): pass


class Model:
    """what the documented operations do"""
    def __init__(self, n): self.d = [byte('d', i) for i in range(n)]; self.init()
    def init(self): self.b = list(self.d); self.c = 0; self.re = self.we = 0; self.slot = None

    def put(self, bs):
        if self.c > len(self.b): raise Illegal
        self.b[self.c:self.c + len(bs)] = bs
        self.c += len(bs)

    def get(self, k):
        out = []
        for _ in range(k):
            if self.c < len(self.b): out.append(self.b[self.c]); self.c += 1
            else: out.append(0)
        return out

    def seek(self, p):
        if not 0 <= p <= len(self.b): raise Illegal
        self.c = p

    def step(self, op, a, b, t):
        """(returned value or None, bytes delivered)"""
        E_ = lambda bs, e: bs if e == 0 else bs[::-1]
        n = OPN[op]
        if n == 'putUint8': self.put(t[:1])
        elif n == 'getUint8': return cat(self.get(1) + [0] * 7), []
        elif n == 'write':
            if a and self.c > len(self.b): raise Illegal
            self.put(t[:a]); return a, []
        elif n == 'read':
            k = min(a, max(0, len(self.b) - self.c)); return k, self.get(k)
        elif n in ('seek', 'seekTo'): self.seek(a); return (a if n == 'seek' else None), []
        elif n == 'seek +': self.seek(self.c + a); return self.c, []
        elif n == 'seek end-': self.seek(len(self.b) - a - 1); return self.c, []
        elif n == 'align': self.seek(-(-self.c // a) * a)
        elif n == 'put_at':
            self.b += [0] * (a + 1 - len(self.b)); self.b[a] = t[0]
        elif n == 'get_at': return cat([self.b[a] if a < len(self.b) else 0] + [0] * 7), []
        elif n == 'write_at':
            if not b: raise Illegal
            self.b += [0] * (a + b - len(self.b)); self.b[a:a + b] = t[:b]; return b, []
        elif n == 'read_at':
            k = min(b, max(0, len(self.b) - a)); return k, self.b[a:a + k]
        elif n == 'setReadEndian': self.re = a
        elif n == 'setWriteEndian': self.we = a
        elif n in ('putUint16', 'putInt16'): self.put(E_(t[:2], self.we))
        elif n in ('putUint32', 'putInt32'): self.put(E_(t[:4], self.we))
        elif n == 'putUint64': self.put(E_(t[:8], self.we))
        elif n in ('getUint16', 'getInt16', 'getUint32', 'getInt32', 'getUint64', 'getPointer32', 'getPointer64'):
            k = {'16': 2, '32': 4, '64': 8}[n[-2:]]
            return cat(E_(self.get(k), self.re) + [0] * (8 - k)), []
        elif n == 'putString': self.put(E_([a + 1, 0, 0, 0], self.we) + t[:a] + [0])
        elif n == 'get_string':
            if self.c + 4 > len(self.b): raise Illegal
            f = E_(self.get(4), self.re)
            if any(x.__class__ is not int for x in f): raise Illegal
            L = f[0] | f[1] << 8 | f[2] << 16 | f[3] << 24
            if L > 12: raise Illegal
            s = self.get(L)
            return max(L - 1, 0), s[:max(L - 1, 0)]
        elif n == 'putSubstr': self.put((t[:min(b, max(a - 1, 0))] + [0] * a)[:a])
        elif n == 'getSubstr': return max(a - 1, 0), self.get(a)[:max(a - 1, 0)]
        elif n in ('putPointer32', 'putPointer64'):
            self.slot = self.c; self.put([0] * (int(n[-2:]) // 8)); return self.slot, []
        elif n in ('adjustPointer32', 'adjustPointer64'):
            k = int(n[-2:]) // 8
            if self.slot is None or self.slot + k > len(self.b): raise Illegal
            z = len(self.b)
            self.b[self.slot:self.slot + k] = E_([(z >> (8 * i)) & 255 for i in range(k)], self.we)
        elif n == 'feof': return int(self.c >= len(self.b)), []
        elif n == 'resize':
            self.b = self.b[:a] + [0] * (a - len(self.b))
        elif n == 'init': sl = self.slot; self.init(); self.slot = sl
        elif n == 'mark': return self.c, []
        elif n == 'copy': pass
        else: raise Illegal
        return None, []


def mixes(pool, seed, n2, n3, nlong, lengths=(4, 5, 6, 7)):
    """all (or n2) ordered pairs, then random triples and longer sequences of the pool, always the same ones"""
    rnd = random.Random(seed)
    two = [(a, b) for a in pool for b in pool]
    if n2 is not None and len(two) > n2: two = rnd.sample(two, n2)
    for s in two: yield s
    for _ in range(n3): yield tuple(rnd.choice(pool) for _ in range(3))
    for _ in range(nlong): yield tuple(rnd.choice(pool) for _ in range(rnd.choice(lengths)))


def histories(cx, m, n, seqs, limit=60.0):
    """sequences of operations on a stream opened on n bytes, against the model"""
    t0 = time.time()
    done = 0
    for seq in seqs:
        if time.time() - t0 > limit * (10 if cx.deep else 1): break
        M_ = Model(n)
        exp = []
        try:
            for i, (nm, *ab) in enumerate(seq):
                a, b = (tuple(ab) + (0, 0))[:2]
                exp.append(M_.step(OPC[nm], a, b, [byte('t', 8 * i + j) for j in range(8)]) + (M_.c,))
            if len(M_.b) > BIGN: raise Illegal
        except Illegal: continue
        done += 1
        pk = lambda xs: sum((x & 255) << (8 * i) for i, x in enumerate(xs))
        ti = 'history on %d bytes: %s' % (n, '; '.join(' '.join(map(str, s)) for s in seq))
        k = len(seq)
        R = cx.call(m, 'c_seq', ('in', 'd', n, 'u8'), n, pk([OPC[s[0]] for s in seq]), pk([s[1] if len(s) > 1 else 0 for s in seq]), pk([s[2] if len(s) > 2 else 0 for s in seq]), k,
                    ('in', 't', 8 * k, 'u8'), ('out', k, 'i64'), ('out', 16 * k, 'u8'), ('out', BIGN, 'u8'), ('out', 2 + k, 'i64'), title=ti, ends=2_000_000)
        if not isinstance(R, list): continue
        q, z, o, r = R[:4]
        t = T(cx, ti); t.locs = funclocs(cx.last)
        for i, (ret, bs, cur) in enumerate(exp):
            w = 'step %d (%s): ' % (i + 1, seq[i][0])
            if ret is not None: t.same(w + 'result', q[i], ret, 64)
            for j, x in enumerate(bs): t.same(w + 'byte %d' % j, z[16 * i + j], x, 8)
            t.same(w + 'cursor', r[2 + i], cur, 64)
        t.same('buffer size', r[0], len(M_.b), 64)
        t.same('cursor', r[1], M_.c, 64)
        if not t.bad:
            for i, x in enumerate(M_.b): t.same('byte %d of the buffer' % i, o[i], x, 8)
        t.done()
    return done
