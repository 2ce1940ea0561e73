"""Builds the value graph of a function from its LLVM IR (abstract interpretation
over gated SSA).

* integers, pointers and control flow that do not depend on symbolic data are
  folded; symbolic reals/bits become graph nodes;
* at a branch whose condition is symbolic both sides are analysed up to the
  immediate post-dominator and all values and memory cells are merged there with
  a gate (select) -- paths are never enumerated to the end or handed to a solver;
* memory is a set of objects with byte-granular cells; every access is checked
  against the object's bounds.  Accesses with a symbolic index become
  obligations.
"""
import math, struct
from expr import *
import expr as X
import ir
from ir import size as tsize

M64 = (1 << 64) - 1


class Abstain(Exception):
    """the analysis cannot represent this construct precisely"""
    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.loc = loc


class Fault(Exception):
    """a definite violation (out-of-bounds access etc.) on the analysed states"""
    def __init__(self, kind, msg, loc):
        super().__init__(msg)
        self.kind = kind; self.loc = loc


class Dead(Exception):
    """path ends without returning (failed assertion, throw, abort)"""
    def __init__(self, why='', loc=None):
        super().__init__(why)
        self.loc = loc


class SInt:
    """integer with a symbolic (real-valued) node"""
    __slots__ = ('n', 'w')

    def __init__(self, n, w): self.n = n; self.w = w
    def __repr__(self): return 'SInt(%r)' % self.n


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off): self.o = o; self.off = off
    def __repr__(self): return 'Ptr(%s,%r)' % (self.o, self.off)
    def __eq__(self, q): return q.__class__ is Ptr and self.o == q.o and (self.off is q.off or (self.off.__class__ is int and self.off == q.off))
    def __hash__(self): return hash((self.o, self.off if self.off.__class__ is int else id(self.off)))


NULL = Ptr(0, 0)


class PSel:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b


class FPtr:
    __slots__ = ('name',)

    def __init__(self, n): self.name = n


class Obj:
    __slots__ = ('size', 'cells', 'init', 'name', 'kind', 'epoch', 'freed', 'ro', 'zero_from')

    def __init__(self, size, name, kind, init=None, ro=False):
        self.size = size; self.cells = {}; self.init = init; self.name = name; self.kind = kind
        self.epoch = 0; self.freed = False; self.ro = ro

    def copy(self, epoch):
        o = Obj(self.size, self.name, self.kind, self.init, self.ro)
        o.cells = dict(self.cells); o.epoch = epoch; o.freed = self.freed
        return o


class State:
    __slots__ = ('mem', 'assume', 'epoch', 'facts')

    def __init__(self):
        self.mem = {}; self.assume = {}; self.epoch = 0; self.facts = ()


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


FLOATFN = {}
for _n in ('sqrt', 'cbrt', 'exp', 'exp2', 'exp10', 'expm1', 'log', 'log10', 'log2', 'log1p', 'sin', 'cos', 'tan', 'atan', 'fabs', 'floor', 'ceil',
           'trunc', 'round', 'pow', 'atan2', 'fmod', 'hypot', 'fmin', 'fmax', 'copysign'):
    FLOATFN[_n] = (_n, 'double'); FLOATFN[_n + 'f'] = (_n, 'float'); FLOATFN[_n + 'l'] = (_n, 'double')
FLOATFN['exp10'] = ('exp10', 'double')
INTRFN = {'sqrt': 'sqrt', 'fabs': 'fabs', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round', 'pow': 'pow', 'exp': 'exp',
          'log': 'log', 'log10': 'log10', 'log2': 'log2', 'sin': 'sin', 'cos': 'cos', 'minnum': 'fmin', 'maxnum': 'fmax', 'exp2': 'exp2',
          'copysign': 'copysign'}

DEADFN = {'__assert_fail', 'abort', 'exit', '_exit', 'quick_exit', '_ZSt9terminatev', '__cxa_throw', '__cxa_rethrow', '__clang_call_terminate',
          '_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt17__throw_bad_allocv',
          '_ZSt28__throw_bad_array_new_lengthv', '_ZSt19__throw_logic_errorPKc', '_ZSt25__throw_bad_function_callv',
          '_ZSt20__throw_domain_errorPKc', '_ZSt24__throw_invalid_argumentPKc', '_Unwind_Resume', '__cxa_call_terminate', '_ZSt21__glibcxx_assert_failPKciS0_S0_'}


class Interp:
    def __init__(self, mod, max_steps=60_000_000):
        self.m = mod
        self.st = State()
        self.nobj = 1
        self.gobj = {}
        self.steps = 0
        self.max_steps = max_steps
        self.oblig = []       # (facts, index node, lo, hi, what, loc)
        self.faults = []
        self.calls = {}       # defined functions analysed
        self.callees = set()
        self.extern = {}
        self.gwrites = []     # stores to global objects (name, loc)
        self.accesses = 0
        self.symbr = 0
        self.stack = []
        self.symdepth = {}
        self.assumed_dead = []
        self.ctor_done = False
        self.max_sym = 48
        self.cuts = {}        # function name -> callback(interp, args, loc) for deliberate summaries
        self.soft_faults = False
        self.newton_cache = {}
        self.oracle = None    # callback(interp, condition, dbg) -> truth value or None: trace partitioning
        self.cur_loc = None
        self.ipd = {}

    # ------------------------------------------------------------ memory
    def new(self, size, name, kind, init=None, ro=False):
        i = self.nobj
        self.nobj += 1
        o = Obj(size, name, kind, init, ro)
        o.epoch = self.st.epoch
        self.st.mem[i] = o
        return i

    def obj(self, oid, loc=None):
        o = self.st.mem.get(oid)
        if o is None:
            raise Fault('deref', 'access through %s' % ('a null pointer' if oid == 0 else 'a dangling pointer'), self.where(loc))
        return o

    def wobj(self, oid, loc=None):
        o = self.obj(oid, loc)
        if o.epoch != self.st.epoch:
            o = o.copy(self.st.epoch)
            self.st.mem[oid] = o
        return o

    def where(self, dbg):
        """source location, preferring the innermost frame inside the library header"""
        f, l, fn = self.m.loc(dbg)
        if f.endswith('colorsystem.hpp'): return (f, l, fn)
        for d in reversed(self.stack):
            f2, l2, fn2 = self.m.loc(d)
            if f2.endswith('colorsystem.hpp'): return (f2, l2, fn2)
        return (f, l, fn)

    def check(self, o, off, n, what, loc):
        self.accesses += 1
        if o.freed: raise Fault('use-after-free', '%s of freed object %s' % (what, o.name), self.where(loc))
        if off < 0 or off + n > o.size:
            raise Fault('bounds', '%s of %d byte(s) at offset %d of %s (%d bytes)' % (what, n, off, o.name, o.size), self.where(loc))

    def _cell_at(self, o, off):
        """cell (start,size,val) covering byte off, or None"""
        c = o.cells.get(off)
        if c is not None: return off, c[0], c[1]
        for b in range(1, 17):
            c = o.cells.get(off - b)
            if c is not None:
                return (off - b, c[0], c[1]) if c[0] > b else None
        return None

    def load_raw(self, o, off, n, kind, loc):
        """kind: 'i','f','p'"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            return self.conv(v, n, kind, loc)
        if c is None and o.init is not None and self._cell_at(o, off) is None:
            # lazily materialise an input cell if nothing overlaps
            if not any((off + k) in o.cells for k in range(1, n)):
                v = o.init(off, n, kind)
                if v is not None:
                    o.cells[off] = (n, v)   # benign: same for every state
                    return v
        # assemble bytes
        bs = [self.load_byte(o, off + k, loc) for k in range(n)]
        if all(b is UNDEF for b in bs): return UNDEF
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(b.__class__ is int for b in bs):
            v = sum(b << (8 * k) for k, b in enumerate(bs))
            return self.conv(v, n, kind, loc)
        if any(b.__class__ in (Ptr, tuple) for b in bs):
            p0 = bs[0]
            if p0.__class__ is tuple and all(b.__class__ is tuple and b[0] is p0[0] and b[1] == k for k, b in enumerate(bs)):
                return self.conv(p0[0], n, kind, loc)
            raise Abstain('partial pointer load', self.where(loc))
        bits = []
        for b in bs:
            if b.__class__ is int: bits += [(b >> i) & 1 for i in range(8)]
            elif b.__class__ is SInt:
                raise Abstain('bytes of symbolic integer', self.where(loc))
            else: bits += list(bits_of(b, 8))
        return self.conv(mkbits(tuple(bits)), n, kind, loc)

    def load_byte(self, o, off, loc):
        c = self._cell_at(o, off)
        if c is None:
            if o.init is not None:
                v = o.init(off, 1, 'i')
                if v is not None: return v
                # word containing it
                base = off & ~3
                v = o.init(base, 4, 'f')
                if v is not None:
                    b = self.fbits(v, 4)
                    if b.__class__ is int: return (b >> (8 * (off - base))) & 255
                    return mkbits(tuple(bits_of(b, 32)[8 * (off - base):8 * (off - base) + 8]))
            return UNDEF
        s, n, v = c
        k = off - s
        if v is UNDEF: return UNDEF
        if v.__class__ is int: return (v >> (8 * k)) & 255
        if v.__class__ in (Ptr, PSel, FPtr): return (v, k)
        if v.__class__ is SInt:
            if n == 1: return v
            raise Abstain('bytes of symbolic integer', self.where(loc))
        if v.t == 'f': v = self.fbits(v, n)
        if v.__class__ is int: return (v >> (8 * k)) & 255
        if v.t == 'b': raise Abstain('bytes of bool')
        return mkbits(tuple(bits_of(v, 8 * n)[8 * k:8 * k + 8]))

    def fbits(self, v, n):
        if isc(v):
            return struct.unpack('<I', struct.pack('<f', cv(v)))[0] if n == 4 else struct.unpack('<Q', struct.pack('<d', cv(v)))[0]
        if v.op == 'frombits': return v.args[0] if v.args[0].op != 'ic' else v.args[0].args[0]
        return mk('fbits', (v, 8 * n), 'i')

    def conv(self, v, n, kind, loc):
        if v is UNDEF: return v
        if kind == 'i':
            if v.__class__ is N and v.t == 'f': return self.fbits(v, n)
            return v
        if kind == 'f':
            if v.__class__ is int:
                x = struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0] if n == 4 else struct.unpack('<d', struct.pack('<Q', v & M64))[0]
                if x != x or (x == 0 and v): return mk('frombits', (mk('ic', (v & ((1 << 8 * n) - 1), 8 * n), 'i'),), 'f')
                return C(x)
            if v.__class__ is N and v.t == 'f': return v
            if v.__class__ is N and v.t == 'i':
                if v.op == 'fbits': return v.args[0]
                if v.op == 'bits':
                    b0 = v.args[0]
                    if b0.__class__ is tuple and b0[0].op == 'fbits' and b0[0].args[1] == len(v.args) and \
                            all(b.__class__ is tuple and b[0] is b0[0] and b[1] == i for i, b in enumerate(v.args)):
                        return b0[0].args[0]
                return mk('frombits', (v,), 'f')
            raise Abstain('float load of %r' % (v,), self.where(loc))
        if kind == 'p':
            if v.__class__ in (Ptr, PSel, FPtr): return v
            if v.__class__ is int:
                return Ptr(0, v)
            raise Abstain('pointer load of %r' % (v,), self.where(loc))
        return v

    def load(self, p, ty, loc):
        k = ty.k
        if p.__class__ is PSel:
            a = self.load(p.a, ty, loc); b = self.load(p.b, ty, loc)
            return self.vsel(p.c, a, b, loc)
        if p.__class__ is not Ptr: raise Abstain('load through %r' % (p,), self.where(loc))
        if k in ('vec', 'arr'):
            es = tsize(ty.el)
            return tuple(self.load(Ptr(p.o, self.padd(p.off, i * es)), ty.el, loc) for i in range(ty.n))
        if k == 'struct':
            return tuple(self.load(Ptr(p.o, self.padd(p.off, ir.field_offset(ty, i))), e, loc) for i, e in enumerate(ty.els))
        n = tsize(ty)
        kind = 'f' if k in ('float', 'double', 'fp80') else ('p' if k == 'ptr' else 'i')
        o = self.obj(p.o, loc)
        off = p.off
        if off.__class__ is not int:
            return self.load_sym(p, o, off, n, kind, loc)
        self.check(o, off, n, 'read', loc)
        v = self.load_raw(o, off, n, kind, loc)
        if k == 'int' and ty.n < 8 * n:
            if v.__class__ is int: v &= (1 << ty.n) - 1
            elif v.__class__ is SInt and ty.n == 1: v = self.tob(v)
        return v

    def load_sym(self, p, o, off, n, kind, loc):
        idx, stride, base = self.split_index(off)
        if stride % n: raise Abstain('symbolic offset stride', self.where(loc))
        # the innermost array containing the access: the whole object
        b0 = base % stride
        cnt = (o.size - b0 - n) // stride + 1
        lo = -((base - b0) // stride)
        hi = lo + cnt - 1
        self.oblig.append(dict(facts=self.st.facts, idx=idx, lo=lo, hi=hi, what='read of %s' % o.name, loc=self.where(loc)))
        if cnt > 4096: raise Abstain('symbolic index into large object', self.where(loc))
        els = []
        for k in range(cnt):
            v = self.load_raw(o, b0 + k * stride, n, kind, loc)
            if v is UNDEF: v = mk('undeff', (), 'f')
            if v.__class__ is not N:
                raise Abstain('symbolic index into non-float memory', self.where(loc))
            els.append(v)
        return mk('tab', (idx,) + tuple(els) + (lo,), 'f', self.where(loc))

    def split_index(self, off):
        """off node = base + stride*idx  (kept structurally as ('poff', idx, stride, base))"""
        assert off.op == 'poff'
        return off.args[0], off.args[1], off.args[2]

    def padd(self, off, k):
        if off.__class__ is int: return off + k
        return mk('poff', (off.args[0], off.args[1], off.args[2] + k), 'i')

    def paddsym(self, off, n, stride):
        if off.__class__ is int: return mk('poff', (n, stride, off), 'i')
        i0, s0, b0 = off.args
        if s0 == stride: return mk('poff', (fbin('add', i0, n, 'double'), stride, b0), 'i')
        raise Abstain('two symbolic strides')

    def store(self, p, v, ty, loc):
        k = ty.k
        if p.__class__ is PSel:
            old = self.load(p.a, ty, loc)
            self.store(p.a, self.vsel(p.c, v, old, loc), ty, loc)
            old = self.load(p.b, ty, loc)
            self.store(p.b, self.vsel(p.c, old, v, loc), ty, loc)
            return
        if p.__class__ is not Ptr: raise Abstain('store through %r' % (p,), self.where(loc))
        if k in ('vec', 'arr'):
            es = tsize(ty.el)
            vs = v if v.__class__ is tuple else (v,) * ty.n
            for i in range(ty.n): self.store(Ptr(p.o, self.padd(p.off, i * es)), vs[i], ty.el, loc)
            return
        if k == 'struct':
            vs = v if v.__class__ is tuple else (v,) * len(ty.els)
            for i, e in enumerate(ty.els): self.store(Ptr(p.o, self.padd(p.off, ir.field_offset(ty, i))), vs[i], e, loc)
            return
        n = tsize(ty)
        o = self.wobj(p.o, loc)
        off = p.off
        if off.__class__ is not int:
            return self.store_sym(p, o, off, v, n, ty, loc)
        self.check(o, off, n, 'write', loc)
        if o.kind == 'global' and self.ctor_done:
            self.gwrites.append((o.name, self.where(loc)))
        if k == 'int' and ty.n == 1 and v.__class__ is N and v.t == 'b':
            v = SInt(select(v, C(1.0), C(0.0)), 8)
        self.put(o, off, n, v, loc)

    def store_sym(self, p, o, off, v, n, ty, loc):
        idx, stride, base = self.split_index(off)
        if stride % n: raise Abstain('symbolic offset stride', self.where(loc))
        b0 = base % stride
        cnt = (o.size - b0 - n) // stride + 1
        lo = -((base - b0) // stride)
        self.oblig.append(dict(facts=self.st.facts, idx=idx, lo=lo, hi=lo + cnt - 1, what='write of %s' % o.name, loc=self.where(loc)))
        if cnt > 1024 or v.__class__ is not N or v.t != 'f': raise Abstain('symbolic store', self.where(loc))
        for k in range(cnt):
            old = self.load_raw(o, b0 + k * stride, n, 'f', loc)
            if old is UNDEF: old = mk('undeff', (), 'f')
            self.put(o, b0 + k * stride, n, select(eq(idx, C(float(lo + k))), v, old), loc)

    def put(self, o, off, n, v, loc):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # remove overlaps (split into bytes)
        for b in range(off - 16, off + n):
            c = cells.get(b)
            if c is not None and b + c[0] > off:
                if b < off or b + c[0] > off + n:
                    keep = []
                    for q in range(b, b + c[0]):
                        if q < off or q >= off + n:
                            keep.append((q, self.load_byte(o, q, loc)))
                    del cells[b]
                    for q, bv in keep: cells[q] = (1, bv) if bv.__class__ is not tuple else (1, UNDEF)
                else:
                    del cells[b]
        cells[off] = (n, v)

    def memcpy(self, d, s, n, loc):
        if n == 0: return
        if d.__class__ is not Ptr or s.__class__ is not Ptr or d.off.__class__ is not int or s.off.__class__ is not int:
            raise Abstain('memcpy with symbolic pointers', self.where(loc))
        so = self.obj(s.o, loc)
        self.check(so, s.off, n, 'read', loc)
        do = self.wobj(d.o, loc)
        self.check(do, d.off, n, 'write', loc)
        if do.kind == 'global' and self.ctor_done:
            self.gwrites.append((do.name, self.where(loc)))
        so = self.obj(s.o, loc)
        out = []
        q = s.off
        end = s.off + n
        if n >= 64:
            cells = so.cells
            try: got = [cells[x] for x in range(q, end)]
            except KeyError: got = None
            if got is not None and all([c[0] == 1 for c in got]) and self.bytewise(do, d.off, n):
                do.cells.update(zip(range(d.off, d.off + n), got))
                return
        while q < end:
            c = so.cells.get(q)
            if c is not None and q + c[0] <= end:
                out.append((q - s.off, c[0], c[1])); q += c[0]
                continue
            cc = self._cell_at(so, q)
            if cc is None and so.init is not None:
                done = False
                for w, kd in ((4, 'f'), (8, 'f'), (1, 'i')):
                    if q + w <= end and not any((q + k) in so.cells for k in range(1, w)):
                        v = so.init(q, w, kd)
                        if v is not None:
                            out.append((q - s.off, w, v)); q += w
                            done = True
                            break
                if done: continue
            if cc is None:
                out.append((q - s.off, 1, UNDEF)); q += 1
                continue
            b = self.load_byte(so, q, loc)
            if b.__class__ is tuple: raise Abstain('partial pointer copy', self.where(loc))
            out.append((q - s.off, 1, b)); q += 1
        for k, w, v in out:
            if v is UNDEF and w == 1:
                cc = self._cell_at(do, d.off + k)
                if cc is None and do.init is None: continue
            self.put(do, d.off + k, w, v, loc)

    def memset(self, d, val, n, loc):
        if n == 0: return
        do = self.wobj(d.o, loc)
        self.check(do, d.off, n, 'write', loc)
        if do.kind == 'global' and self.ctor_done:
            self.gwrites.append((do.name, self.where(loc)))
        if n >= 64 and self.bytewise(do, d.off, n):
            c = (1, val)
            do.cells.update(dict.fromkeys(range(d.off, d.off + n), c))
            return
        for k in range(n): self.put(do, d.off + k, 1, val, loc)

    @staticmethod
    def bytewise(o, off, n):
        """do all cells of o that meet [off, off+n) have width one"""
        cells = o.cells
        if not cells: return True
        for b in range(off - 16, off):
            c = cells.get(b)
            if c is not None and b + c[0] > off: return False
        if len(cells) < n: return all(c[0] == 1 for b, c in cells.items() if off <= b < off + n)
        for b in range(off, off + n):
            c = cells.get(b)
            if c is not None and c[0] != 1: return False
        return True

    # ------------------------------------------------------------ values
    def vsel(self, c, a, b, loc=None):
        if a is b: return a
        if c.op == 'b': return a if c.args[0] else b
        if a is UNDEF: return b      # value undefined on that side: any choice is allowed
        if b is UNDEF: return a
        ca, cb = a.__class__, b.__class__
        if ca is tuple or cb is tuple:
            if ca is not tuple: a = (a,) * len(b)
            if cb is not tuple: b = (b,) * len(a)
            return tuple(self.vsel(c, x, y, loc) for x, y in zip(a, b))
        if ca in (Ptr, PSel) or cb in (Ptr, PSel):
            if ca is Ptr and cb is Ptr and a == b: return a
            return PSel(c, a, b)
        if ca is int and cb is int:
            if a == b: return a
            w = 64
            return ('isel', c, a, b) if False else SInt(select(c, C(float(self._guess(a))), C(float(self._guess(b)))), 0)
        if ca is SInt or cb is SInt:
            na = a.n if ca is SInt else (C(float(self._guess(a))) if ca is int else None)
            nb = b.n if cb is SInt else (C(float(self._guess(b))) if cb is int else None)
            if na is None or nb is None: raise Abstain('merge of integer kinds', self.where(loc))
            return SInt(select(c, na, nb), (a.w if ca is SInt else b.w))
        if ca is N and cb is N:
            if a.t == 'f' and b.t == 'f': return select(c, a, b, self.where(loc) if loc else None)
            if a.t == 'b' and b.t == 'b': return select(c, a, b)
            if a.t == 'i' and b.t == 'i': return mk('isel', (c, a, b), 'i')
        if {ca, cb} == {int, N}:
            if (a.t if ca is N else b.t) == 'b':
                A = a if ca is N else bconst(a & 1)
                B = b if cb is N else bconst(b & 1)
                return select(c, A, B)
            w = width_of(a if ca is N else b) or 64
            A = a if ca is N else iconst(a, w)
            B = b if cb is N else iconst(b, w)
            return mk('isel', (c, A, B), 'i')
        raise Abstain('merge of %r and %r' % (a, b), self.where(loc))

    @staticmethod
    def _guess(v):
        # concrete ints are stored unsigned; interpret large ones as negative
        if v >= 1 << 63: return v - (1 << 64)
        if (1 << 31) <= v < (1 << 32): return v - (1 << 32)
        return v

    def tob(self, v):
        """truth value node of an i1 value"""
        if v.__class__ is int: return bconst(v & 1)
        if v.__class__ is N and v.t == 'b': return v
        if v.__class__ is SInt:
            n = v.n
            if n.op == 'sel' and isc(n.args[1]) and isc(n.args[2]) and cv(n.args[1]) == 1 and cv(n.args[2]) == 0: return n.args[0]
            return not_(eq(n, C(0.0)))
        if v.__class__ is N and v.t == 'i': return mk('ibool', (v,), 'b')
        if v is UNDEF: raise Abstain('branch on undefined value')
        raise Abstain('truth value of %r' % (v,))

    # ------------------------------------------------------------ operands
    def val(self, fr, op, ty):
        k = op[0]
        if k == 'loc':
            return fr[op[1]]
        if k == 'int': return op[1]
        if k == 'f': return C(op[1])
        if k == 'glob': return self.gaddr(op[1])
        if k == 'null': return NULL
        if k == 'undef': return self.undef(ty)
        if k == 'zero': return self.zero(ty)
        if k == 'agg': return tuple(self.val(fr, o, t) for t, o in op[1])
        if k == 'cstr': return tuple(op[1])
        if k == 'ce': return self.cexpr(fr, op)
        if k == 'meta': return None
        raise Abstain('operand %r' % (op,))

    def undef(self, ty):
        if ty.k in ('vec', 'arr'): return (self.undef(ty.el),) * ty.n
        if ty.k == 'struct': return tuple(self.undef(e) for e in ty.els)
        return UNDEF

    def zero(self, ty):
        k = ty.k
        if k == 'int': return 0
        if k in ('float', 'double', 'fp80'): return C(0.0)
        if k == 'ptr': return NULL
        if k in ('arr', 'vec'): return (self.zero(ty.el),) * ty.n
        if k == 'struct': return tuple(self.zero(e) for e in ty.els)
        raise Abstain('zero')

    def cexpr(self, fr, op):
        if op[1] == 'gep':
            return self.gep(fr, op[2], op[3], None)
        if op[1] in ('bitcast', 'addrspacecast'): return self.val(fr, op[3], op[2])
        if op[1] == 'ptrtoint': return self.val(fr, op[3], op[2])
        if op[1] == 'inttoptr':
            v = self.val(fr, op[3], op[2])
            return Ptr(0, v) if v.__class__ is int else v
        if op[1] in ('sub', 'add'):
            a = self.val(fr, op[3], op[2]); b = self.val(fr, op[4], op[2])
            return self.ibin(op[1], a, b, op[2].n, None)
        raise Abstain('constant expression %s' % op[1])

    def gaddr(self, name):
        if name in self.m.funcs or name in self.m.decls: return FPtr(name)
        oid = self.gobj.get(name)
        if oid is None:
            g = self.m.gdef(name)
            if g is None: raise Abstain('unknown global %s' % name)
            if g[0] == 'alias': return self.val({}, g[1], ir.PTR)
            t, init, const, pre = g
            i = self.nobj
            self.nobj += 1
            o = Obj(tsize(t), name, 'global', None, const)
            o.epoch = -1
            self.gobj[name] = i
            self.gstates(i, o)
            if init is not None:
                self.ginit(o, 0, t, init)
            else:
                o.kind = 'extern'
            oid = i
        if oid not in self.st.mem:
            self.st.mem[oid] = self._g0[oid]
        return Ptr(oid, 0)

    _g0 = None

    def gstates(self, i, o):
        if self._g0 is None: self._g0 = {}
        self._g0[i] = o
        self.st.mem[i] = o

    def ginit(self, o, off, t, op):
        k = op[0]
        if k == 'zero':
            self.gzero(o, off, t)
        elif k == 'agg':
            if t.k in ('arr', 'vec'):
                es = tsize(t.el)
                for i, (et, e) in enumerate(op[1]): self.ginit(o, off + i * es, et, e)
            else:
                # struct: element types may differ from declared (packed initialisers): use own types
                st = t
                for i, (et, e) in enumerate(op[1]): self.ginit(o, off + ir.field_offset(st, i), et, e)
        elif k == 'cstr':
            for i, b in enumerate(op[1]): o.cells[off + i] = (1, b)
        elif k == 'undef':
            pass
        else:
            o.cells[off] = (tsize(t), self.val({}, op, t))

    def gzero(self, o, off, t):
        k = t.k
        if k in ('arr', 'vec'):
            es = tsize(t.el)
            for i in range(t.n): self.gzero(o, off + i * es, t.el)
        elif k == 'struct':
            for i, e in enumerate(t.els): self.gzero(o, off + ir.field_offset(t, i), e)
        else:
            o.cells[off] = (tsize(t), self.zero(t))

    # ------------------------------------------------------------ gep
    def gep(self, fr, t, ops, loc):
        p = self.val(fr, ops[0][1], ops[0][0])
        idx = []
        for ot, o in ops[1:]:
            v = self.val(fr, o, ot)
            if v.__class__ is int: v = sgn(v, ot.n)
            idx.append(v)
        return self.gep2(p, t, idx, loc)

    def gep2(self, p, t, idx, loc):
        if p.__class__ is PSel:
            return PSel(p.c, self.gep2(p.a, t, idx, loc), self.gep2(p.b, t, idx, loc))
        if p.__class__ is not Ptr:
            if p is UNDEF: raise Fault('uninit', 'address computed from an uninitialised pointer', self.where(loc))
            raise Abstain('gep on %r' % (p,), self.where(loc))
        off = p.off
        cur = t
        for j, v in enumerate(idx):
            if j == 0: es = tsize(cur)
            elif cur.k == 'struct':
                off = self.padd(off, ir.field_offset(cur, v)); cur = cur.els[v]
                continue
            else:
                cur = cur.el; es = tsize(cur)
            if v.__class__ is int: off = self.padd(off, v * es)
            elif v.__class__ is SInt: off = self.paddsym(off, v.n, es)
            elif v is UNDEF: raise Fault('uninit', 'index is uninitialised', self.where(loc))
            else: raise Abstain('index %r' % (v,), self.where(loc))
        return Ptr(p.o, off)

    # ------------------------------------------------------------ integer operations
    def ibin(self, op, a, b, w, loc):
        mask = (1 << w) - 1
        ca, cb = a.__class__, b.__class__
        if ca is int and cb is int:
            if op == 'add': return (a + b) & mask
            if op == 'sub': return (a - b) & mask
            if op == 'mul': return (a * b) & mask
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & mask if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & mask
            if b == 0 and op in ('udiv', 'urem', 'sdiv', 'srem'): raise Fault('divzero', 'integer division by zero', self.where(loc))
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            if op == 'sdiv': return q & mask
            if op == 'srem': return (x - q * y) & mask
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            A, B = self.tob(a), self.tob(b)
            if op in ('and', 'mul'): r = and_(A, B)
            elif op == 'or': r = or_(A, B)
            elif op in ('xor', 'add', 'sub'): r = xor_(A, B)
            else: raise Abstain('i1 %s' % op)
            return r.args[0] if r.op == 'b' else r
        # pointer arithmetic through integers
        if ca is Ptr or cb is Ptr:
            if op == 'sub' and ca is Ptr and cb is Ptr and a.o == b.o and a.off.__class__ is int and b.off.__class__ is int:
                return (a.off - b.off) & mask
            if op == 'add' and ca is Ptr and cb is int: return Ptr(a.o, self.padd(a.off, sgn(b, w)))
            if op == 'add' and cb is Ptr and ca is int: return Ptr(b.o, self.padd(b.off, sgn(a, w)))
            if op == 'sub' and ca is Ptr and cb is int: return Ptr(a.o, self.padd(a.off, -sgn(b, w)))
            raise Abstain('pointer integer arithmetic', self.where(loc))
        # bit vectors
        bitlike = lambda v: v.__class__ is int or (v.__class__ is N and v.t == 'i')
        if bitlike(a) and bitlike(b):
            if op in ('and', 'or', 'xor', 'add', 'mul') or (op in ('shl', 'lshr', 'ashr') and cb is int):
                A = tuple((a >> i) & 1 for i in range(w)) if ca is int else bits_of(a, w)
                if op in ('shl', 'lshr', 'ashr'):
                    s = b
                    if op == 'shl': R = (0,) * s + A[:w - s]
                    elif op == 'lshr': R = A[s:] + (0,) * s
                    else: R = A[s:] + (A[-1],) * s
                    return mkbits(R)
                B = tuple((b >> i) & 1 for i in range(w)) if cb is int else bits_of(b, w)
                R = []
                ok = True
                for x, y in zip(A, B):
                    if op == 'and':
                        if x == 0 or y == 0: R.append(0)
                        elif x == 1: R.append(y)
                        elif y == 1: R.append(x)
                        elif x == y: R.append(x)
                        else: ok = False; break
                    elif op in ('or', 'add'):
                        if x.__class__ is int and x == 0: R.append(y)
                        elif y.__class__ is int and y == 0: R.append(x)
                        elif op == 'or' and (x == 1 or y == 1) and (x.__class__ is int or y.__class__ is int): R.append(1)
                        elif op == 'or' and x == y: R.append(x)
                        else: ok = False; break
                    elif op == 'xor':
                        if x.__class__ is int and x == 0: R.append(y)
                        elif y.__class__ is int and y == 0: R.append(x)
                        elif x == y: R.append(0)
                        else: ok = False; break
                    else: ok = False; break
                if ok: return mkbits(tuple(R))
                if op == 'mul' and (ca is int or cb is int):
                    k = a if ca is int else b
                    o = b if ca is int else a
                    if k and k & (k - 1) == 0: return self.ibin('shl', o, k.bit_length() - 1, w, loc)
            if op in ('udiv', 'urem') and cb is int and b and b & (b - 1) == 0:
                if op == 'udiv': return self.ibin('lshr', a, b.bit_length() - 1, w, loc)
                return self.ibin('and', a, b - 1, w, loc)
            A = a if ca is N else iconst(a, w)
            B = b if cb is N else iconst(b, w)
            return mk('bv' + op, (A, B, w), 'i', self.where(loc))
        # arithmetic on symbolic integers
        na = a.n if ca is SInt else (C(float(sgn(a, w))) if ca is int else None)
        nb = b.n if cb is SInt else (C(float(sgn(b, w))) if cb is int else None)
        if na is None or nb is None: raise Abstain('mixed integer operation %s' % op, self.where(loc))
        if op in ('add', 'sub', 'mul'): return self.mkint(fbin(op, na, nb, 'double', self.where(loc)), w)
        if op == 'shl' and cb is int: return self.mkint(fbin('mul', na, C(float(1 << b)), 'double', self.where(loc)), w)
        if op in ('sdiv', 'udiv'): return self.mkint(rebuild(mk('idiv', (na, nb), 'f', self.where(loc)), [na, nb]), w)
        if op in ('srem', 'urem'): return self.mkint(rebuild(mk('irem', (na, nb), 'f', self.where(loc)), [na, nb]), w)
        if op in ('and', 'or') and na.op == 'sel' and nb.op == 'sel':
            ta, tb = self.tob(SInt(na, w)), self.tob(SInt(nb, w))
            return SInt(select(and_(ta, tb) if op == 'and' else or_(ta, tb), C(1.0), C(0.0)), w)
        raise Abstain('symbolic integer %s' % op, self.where(loc))

    def mkint(self, n, w):
        if isc(n) and w:
            v = cv(n)
            return int(v) & ((1 << w) - 1)
        return SInt(n, w)

    def icmp(self, pred, a, b, ty, loc):
        if a.__class__ is PSel: return self.bsel(a.c, self.icmp(pred, a.a, b, ty, loc), self.icmp(pred, a.b, b, ty, loc))
        if b.__class__ is PSel: return self.bsel(b.c, self.icmp(pred, a, b.a, ty, loc), self.icmp(pred, a, b.b, ty, loc))
        ca, cb = a.__class__, b.__class__
        if ca is FPtr or cb is FPtr:
            same = ca is cb and a.name == b.name
            if pred == 'eq': return int(same)
            if pred == 'ne': return int(not same)
        if ca is Ptr or cb is Ptr:
            if ca is int: a = Ptr(0, a)
            if cb is int: b = Ptr(0, b)
            if a.off.__class__ is int and b.off.__class__ is int:
                if a.o != b.o:
                    if pred == 'eq': return 0
                    if pred == 'ne': return 1
                    x, y = (a.o << 40) + a.off, (b.o << 40) + b.off
                else: x, y = a.off, b.off
                return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                            'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred])
            if a.o != b.o:
                if pred == 'eq': return 0
                if pred == 'ne': return 1
            raise Abstain('symbolic pointer compare', self.where(loc))
        w = ty.n if ty.k == 'int' else 64
        if ca is int and cb is int:
            if pred[0] == 's': x, y = sgn(a, w), sgn(b, w)
            else: x, y = a, b
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]])
        if a is UNDEF or b is UNDEF: raise Fault('uninit', 'comparison of an uninitialised value', self.where(loc))
        if (ca is N and a.t == 'b') or (cb is N and b.t == 'b'):
            A, B = self.tob(a), self.tob(b)
            if pred == 'eq': return self.unb(not_(xor_(A, B)))
            if pred == 'ne': return self.unb(xor_(A, B))
            raise Abstain('i1 compare')
        if (ca is N and a.t == 'i') or (cb is N and b.t == 'i'):
            if a is b:
                return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
            if ca is SInt or cb is SInt: raise Abstain('mixed integer compare', self.where(loc))
            A = a if ca is N else iconst(a, w)
            B = b if cb is N else iconst(b, w)
            neg = pred in ('ne',)
            if pred == 'eq' or pred == 'ne':
                # bitwise: a known differing bit decides
                for x, y in zip(bits_of(A, w), bits_of(B, w)):
                    if x.__class__ is int and y.__class__ is int and x != y: return int(neg)
            c = mk('icmp', ('eq' if neg else pred, A, B), 'b', self.where(loc))
            return not_(c) if neg else c
        na = a.n if ca is SInt else C(float(sgn(a, w)))
        nb = b.n if cb is SInt else C(float(sgn(b, w)))
        p = pred if pred in ('eq', 'ne') else pred[1:]
        lc = self.where(loc)
        r = {'eq': lambda: eq(na, nb, lc), 'ne': lambda: not_(eq(na, nb, lc)), 'lt': lambda: lt(na, nb, lc), 'le': lambda: le(na, nb, lc),
             'gt': lambda: lt(nb, na, lc), 'ge': lambda: le(nb, na, lc)}[p]()
        return self.unb(r)

    @staticmethod
    def unb(r): return r.args[0] if r.op == 'b' else r

    def bsel(self, c, a, b):
        return self.unb(select(c, self.tob(a), self.tob(b)))

    # ------------------------------------------------------------ casts
    def cast(self, op, v, st, dt, loc):
        if dt.k == 'vec':
            if v is UNDEF: return v
            if op == 'bitcast':
                if v.__class__ is not tuple:
                    raise Abstain('vector bitcast', self.where(loc))
                if st.k == 'vec' and st.n == dt.n: return v
                raise Abstain('vector bitcast', self.where(loc))
            return tuple(self.cast(op, x, st.el, dt.el, loc) for x in v)
        if st.k == 'vec':
            if op == 'bitcast' and dt.k in ('double', 'int') and v.__class__ is tuple:
                raise Abstain('vector to scalar bitcast', self.where(loc))
        if v is UNDEF: return v
        cl = v.__class__
        if op in ('fptrunc', 'fpext'):
            if isc(v): return C(f32(cv(v)) if dt.k == 'float' else cv(v))
            if raw(v): return mk('fx', (op, dt.k, v), 'f', self.where(loc))
            return v
        if op in ('sitofp', 'uitofp'):
            if cl is int:
                x = sgn(v, st.n) if op == 'sitofp' else v
                r = float(x)
                return C(f32(r) if dt.k == 'float' else r)
            if cl is SInt: return v.n
            if cl is N and v.t == 'b': return select(v, C(1.0), C(0.0))
            return mk('i2f', (v,), 'f', self.where(loc))
        if op in ('fptosi', 'fptoui'):
            if isc(v):
                x = cv(v)
                if x != x or math.isinf(x) or abs(x) >= 2.0 ** (dt.n - (1 if op == 'fptosi' else 0)):
                    self.oblig.append(dict(facts=self.st.facts, idx=None, lo=0, hi=0, what='conversion of %r to i%d' % (x, dt.n), loc=self.where(loc),
                                           conv=(v, dt.n)))
                    return UNDEF
                return int(math.trunc(x)) & ((1 << dt.n) - 1)
            self.oblig.append(dict(facts=self.st.facts, idx=None, lo=0, hi=0, what='conversion to i%d' % dt.n, loc=self.where(loc), conv=(v, dt.n)))
            return SInt(mk('fptosi', (v,), 'f', self.where(loc)), dt.n)
        if op == 'trunc':
            if cl is int: return v & ((1 << dt.n) - 1)
            if cl is SInt:
                if dt.n == 1: return self.unb(self.tob(v))
                return SInt(v.n, dt.n)
            if cl is N and v.t == 'i':
                b = bits_of(v, st.n)[:dt.n]
                if dt.n == 1:
                    return b[0] if b[0].__class__ is int else mk('bit', (b[0][0], b[0][1]), 'b')
                return mkbits(b)
            if cl is Ptr: raise Abstain('pointer truncation')
        if op in ('zext', 'sext'):
            if cl is int: return v if op == 'zext' else sgn(v, st.n) & ((1 << dt.n) - 1)
            if cl is SInt: return SInt(v.n, dt.n)
            if v.t == 'b': return SInt(select(v, C(1.0 if op == 'zext' else -1.0), C(0.0)), dt.n)
            b = bits_of(v, st.n)
            return mkbits(b + ((0,) if op == 'zext' else (b[-1],)) * (dt.n - st.n))
        if op == 'bitcast':
            if dt.k in ('float', 'double') and st.k == 'int': return self.conv(v, tsize(dt), 'f', loc)
            if dt.k == 'int' and st.k in ('float', 'double'): return self.fbits(v, tsize(st))
            return v
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'inttoptr' and cl is int: return Ptr(0, v)
            if op == 'ptrtoint' and cl is Ptr and v.o == 0 and v.off.__class__ is int: return v.off
            return v
        raise Abstain('cast %s' % op, self.where(loc))

    # ------------------------------------------------------------ control
    def ipdom(self, f):
        r = self.ipd.get(f.name)
        if r is None:
            r = self.ipd[f.name] = postdoms(f)
        return r

    def call(self, name, args, loc=None):
        """run function by name with argument values; returns the value"""
        if name not in self.m.funcs: raise Abstain('no function %s' % name, None)
        f = self.m.funcs[name].decode()
        self.calls[name] = self.calls.get(name, 0) + 1
        if len(self.stack) > 1200: raise Abstain('recursion too deep in %s' % name, self.where(loc))
        fr = {}
        for (t, nm), v in zip(f.params, args): fr[nm] = v
        self.stack.append(loc)
        allocas = []
        fr['$allocas'] = allocas
        try:
            r = self.run(f, fr, f.order[0], None, None)
        finally:
            self.stack.pop()
        for i in allocas:
            self.st.mem.pop(i, None)
        if r[0] == 'ret': return r[1]
        raise Abstain('function did not return')

    def phis(self, f, fr, blk, prev):
        ins = f.blocks[blk]
        if not ins or ins[0].op != 'phi': return None
        vals = []
        for i in ins:
            if i.op != 'phi': break
            for v, b in i.a:
                if b == prev:
                    vals.append((i.dst, self.val(fr, v, i.ty)))
                    break
            else:
                raise Abstain('phi without predecessor')
        return vals

    def run(self, f, fr, blk, prev, stop):
        """analyse from blk until stop (exclusive) or return"""
        while True:
            if blk == stop:
                return ('stop', self.phis(f, fr, blk, prev))
            pv = self.phis(f, fr, blk, prev)
            if pv:
                for d, v in pv: fr[d] = v
            nxt = None
            for ins in f.blocks[blk]:
                op = ins.op
                if op == 'phi': continue
                self.steps += 1
                if self.steps > self.max_steps: raise Abstain('analysis budget exhausted')
                h = DISPATCH.get(op)
                if h is not None:
                    v = h(self, fr, ins)
                    if ins.dst is not None: fr[ins.dst] = v
                    continue
                if op == 'br':
                    if len(ins.a) == 1:
                        nxt = ins.a[0]
                        break
                    c = self.val(fr, ins.a[0], ir.I1)
                    c = self.decide(c, ins.dbg)
                    if c.__class__ is int:
                        nxt = ins.a[1] if c else ins.a[2]
                        break
                    r = self.fork(f, fr, blk, [(c, ins.a[1]), (not_(c), ins.a[2])], stop, ins)
                    if r[0] == 'cont':
                        blk, pvs = r[1], r[2]
                        nxt = ('phi', blk, pvs)
                        break
                    return r
                if op == 'switch':
                    c = self.val(fr, ins.a[0], ins.ty)
                    if c.__class__ is int:
                        nxt = ins.a[1]
                        for v, b in ins.a[2]:
                            if v == c:
                                nxt = b
                                break
                        break
                    r = self.forkswitch(f, fr, blk, c, ins, stop)
                    if r[0] == 'cont':
                        nxt = ('phi', r[1], r[2])
                        break
                    return r
                if op == 'ret':
                    v = self.val(fr, ins.a[0], ins.ty) if ins.a else None
                    return ('ret', v)
                if op == 'unreachable':
                    raise Dead('unreachable', self.where(ins.dbg))
                if op == 'invoke':
                    v = do_call(self, fr, ins)
                    if ins.dst is not None: fr[ins.dst] = v
                    nxt = ins.a[2]
                    break
                if op in ('resume',):
                    raise Dead('exception', self.where(ins.dbg))
                raise Abstain('instruction %s' % op, self.where(ins.dbg))
            if nxt.__class__ is tuple:
                blk, pvs = nxt[1], nxt[2]
                if blk == stop:
                    return ('stop', pvs)
                if pvs:
                    for d, v in pvs: fr[d] = v
                # execute block without re-evaluating its phis
                r = self.run_nophi(f, fr, blk, stop)
                if r[0] == 'goto':
                    prev, blk = r[1], r[2]
                    continue
                return r
            prev, blk = blk, nxt

    def run_nophi(self, f, fr, blk, stop):
        # a copy of one block step of run() for a block whose phis are already set
        saved = f.blocks[blk]
        for ins in saved:
            op = ins.op
            if op == 'phi': continue
            self.steps += 1
            if self.steps > self.max_steps: raise Abstain('analysis budget exhausted')
            h = DISPATCH.get(op)
            if h is not None:
                v = h(self, fr, ins)
                if ins.dst is not None: fr[ins.dst] = v
                continue
            if op == 'br':
                if len(ins.a) == 1: return ('goto', blk, ins.a[0])
                c = self.decide(self.val(fr, ins.a[0], ir.I1), ins.dbg)
                if c.__class__ is int: return ('goto', blk, ins.a[1] if c else ins.a[2])
                r = self.fork(f, fr, blk, [(c, ins.a[1]), (not_(c), ins.a[2])], stop, ins)
                if r[0] != 'cont': return r
                if r[1] == stop: return ('stop', r[2])
                if r[2]:
                    for d, v in r[2]: fr[d] = v
                return self.run_nophi(f, fr, r[1], stop)
            if op == 'switch':
                c = self.val(fr, ins.a[0], ins.ty)
                if c.__class__ is int:
                    t = ins.a[1]
                    for v, b in ins.a[2]:
                        if v == c:
                            t = b
                            break
                    return ('goto', blk, t)
                r = self.forkswitch(f, fr, blk, c, ins, stop)
                if r[0] != 'cont': return r
                if r[1] == stop: return ('stop', r[2])
                if r[2]:
                    for d, v in r[2]: fr[d] = v
                return self.run_nophi(f, fr, r[1], stop)
            if op == 'ret':
                return ('ret', self.val(fr, ins.a[0], ins.ty) if ins.a else None)
            if op == 'unreachable': raise Dead('unreachable', self.where(ins.dbg))
            if op == 'invoke':
                v = do_call(self, fr, ins)
                if ins.dst is not None: fr[ins.dst] = v
                return ('goto', blk, ins.a[2])
            if op == 'resume': raise Dead('exception')
            raise Abstain('instruction %s' % op, self.where(ins.dbg))

    def decide(self, c, dbg):
        if c.__class__ is int: return c & 1
        if c is UNDEF: raise Fault('uninit', 'branch on an uninitialised value', self.where(dbg))
        n = self.tob(c)
        if n.op == 'b': return n.args[0]
        a = self.st.assume.get(n.id)
        if a is not None: return int(a)
        if self.oracle is not None:
            r = self.oracle(self, n, dbg)
            if r is not None: return int(r)
        return n

    def assume(self, c):
        """extend the current facts with truth value node c"""
        st = self.st
        st.assume = dict(st.assume)
        st.facts = st.facts + (c,)

        def add(n, v):
            st.assume[n.id] = v
            if n.op == 'not': add(n.args[0], not v)
            elif n.op == 'and' and v: add(n.args[0], True); add(n.args[1], True)
            elif n.op == 'or' and not v: add(n.args[0], False); add(n.args[1], False)
            elif n.op == 'lt':
                nn = mk('le', (n.args[1], n.args[0]), 'b')
                st.assume[nn.id] = not v
                if v:
                    st.assume[eq(n.args[0], n.args[1]).id] = False
                    st.assume[mk('lt', (n.args[1], n.args[0]), 'b').id] = False
                    st.assume[mk('le', (n.args[0], n.args[1]), 'b').id] = True
            elif n.op == 'le':
                nn = mk('lt', (n.args[1], n.args[0]), 'b')
                st.assume[nn.id] = not v
                if not v:
                    st.assume[eq(n.args[0], n.args[1]).id] = False
            elif n.op == 'eq' and v:
                for k in ('lt',):
                    st.assume[mk('lt', n.args, 'b').id] = False
                    st.assume[mk('lt', (n.args[1], n.args[0]), 'b').id] = False
                    st.assume[mk('le', n.args, 'b').id] = True
                    st.assume[mk('le', (n.args[1], n.args[0]), 'b').id] = True
        add(c, True)

    def fork(self, f, fr, blk, sides, stop, ins):
        self.symbr += 1
        key = (f.name, blk)
        d = self.symdepth.get(key, 0)
        if d > self.max_sym: raise Abstain('loop or recursion with a data-dependent exit', self.where(ins.dbg))
        self.symdepth[key] = d + 1
        try:
            join = self.ipdom(f).get(blk)
            st0 = self.st
            res = []
            for c, target in sides:
                s = State()
                s.mem = dict(st0.mem); s.assume = st0.assume; s.facts = st0.facts
                self._ep = getattr(self, '_ep', 0) + 1
                s.epoch = self._ep
                self.st = s
                self.assume(c)
                fr2 = dict(fr)
                try:
                    r = self.run(f, fr2, target, blk, join)
                    res.append((c, r, self.st, fr2))
                except Dead as e:
                    self.assumed_dead.append((e.loc, str(e)))
                    continue
                finally:
                    self.st = st0
            if not res: raise Dead('all successors end')
            return self.merge(f, fr, res, join, st0, ins)
        finally:
            self.symdepth[key] = d

    def forkswitch(self, f, fr, blk, c, ins, stop):
        sides = []
        rest = TRUE
        w = ins.ty.n
        for v, b in ins.a[2]:
            e = self.tob(self.icmp('eq', c, v, ins.ty, ins.dbg))
            e = self.decide(e, ins.dbg) if e.op != 'b' else e.args[0]
            e = bconst(e) if e.__class__ is int else e
            cc = and_(rest, e)
            if not (cc.op == 'b' and not cc.args[0]): sides.append((cc, b))
            rest = and_(rest, not_(e))
        if not (rest.op == 'b' and not rest.args[0]): sides.append((rest, ins.a[1]))
        return self.fork(f, fr, blk, sides, stop, ins)

    def merge(self, f, fr, res, join, st0, ins):
        kinds = {r[0] for _, r, _, _ in res}
        if len(res) == 1:
            c, r, s, fr2 = res[0]
            s2 = s
            st0.mem = s.mem; st0.epoch = s.epoch
            # keep the assumption: the other side never continues
            st0.assume = s.assume; st0.facts = s.facts
            self.st = st0
            fr.update(fr2)
            if r[0] == 'stop': return ('cont', join, r[1])
            return r
        if len(kinds) > 1: raise Abstain('irreducible merge', self.where(ins.dbg))
        # fold from the last side
        c, r, s, _ = res[-1]
        mem = s.mem
        val = r[1]
        for c2, r2, s2, _ in reversed(res[:-1]):
            mem = self.mergemem(c2, s2.mem, mem, ins.dbg)
            if r[0] == 'stop':
                if r2[1] is not None:
                    val = [(d, self.vsel(c2, v1, v2, ins.dbg)) for (d, v1), (_, v2) in zip(r2[1], val)]
            else:
                val = self.vsel(c2, r2[1], val, ins.dbg) if val is not None or r2[1] is not None else None
        self._ep = getattr(self, '_ep', 0) + 1
        st0.mem = mem; st0.epoch = self._ep
        self.st = st0
        if r[0] == 'stop': return ('cont', join, val)
        return ('ret', val)

    def mergemem(self, c, ma, mb, loc):
        out = dict(mb)
        for i, oa in ma.items():
            ob = mb.get(i)
            if ob is oa: continue
            if ob is None:
                out[i] = oa
                continue
            o = ob.copy(-2)
            if oa.size != ob.size: raise Abstain('merge of resized object')
            ca, cb = oa.cells, ob.cells
            for off in set(ca) | set(cb):
                x, y = ca.get(off), cb.get(off)
                if x == y: continue
                if x is not None and y is not None and x[0] == y[0]:
                    if x[1] is y[1]: continue
                    o.cells[off] = (x[0], self.vsel(c, x[1], y[1], loc))
                    continue
                if x is None:
                    # only written on side b
                    n = y[0]
                    if self._cell_at(oa, off) is None and not any((off + k) in ca for k in range(n)):
                        if oa.init is not None:
                            v = oa.init(off, n, 'f' if (y[1].__class__ is N and y[1].t == 'f') else 'i')
                            if v is not None:
                                o.cells[off] = (n, self.vsel(c, v, y[1], loc))
                        continue
                if y is None:
                    n = x[0]
                    if self._cell_at(ob, off) is None and not any((off + k) in cb for k in range(n)):
                        if ob.init is not None:
                            v = ob.init(off, n, 'f' if (x[1].__class__ is N and x[1].t == 'f') else 'i')
                            if v is not None:
                                o.cells[off] = (n, self.vsel(c, x[1], v, loc))
                                continue
                        o.cells[off] = x
                        continue
                # different granularity: merge bytewise
                span = max((x or (1,))[0], (y or (1,))[0])
                tmp = []
                for k in range(span):
                    a = self.load_byte(oa, off + k, loc); b = self.load_byte(ob, off + k, loc)
                    if a.__class__ is tuple or b.__class__ is tuple: raise Abstain('bytewise pointer merge')
                    tmp.append((off + k, self.vsel(c, a, b, loc)))
                for q, v in tmp: self.put(o, q, 1, v, loc)
            out[i] = o
        return out

    # ------------------------------------------------------------ driver
    def ctors(self):
        if self.ctor_done: return
        g = self.m.gtext.get('llvm.global_ctors')
        if g:
            import re
            for nm in re.findall(r'ptr (@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))', g):
                nm = ir.unq(nm)
                if nm in self.m.funcs:
                    self.call(nm, [])
        self.ctor_done = True

    def input(self, name, n, ty='float'):
        """object of n symbolic values; returns pointer"""
        es = {'float': 4, 'double': 8, 'u8': 1}[ty]

        def init(off, w, kind):
            if es in (4, 8):
                if w == es and off % es == 0 and kind in ('f',): return var('%s%d' % (name, off // es))
                return None
            if w == 1: return ivar('%s%d' % (name, off), 8)
            return None
        return Ptr(self.new(n * es, name, 'input', init), 0)

    def vals(self, ptr, n, es=4, kind='f'):
        o = self.obj(ptr.o)
        return [self.load_raw(o, ptr.off + i * es, es, kind, None) for i in range(n)]


def postdoms(f):
    """immediate post-dominator per block (None = function exit); blocks that cannot return are ignored"""
    succ = {}
    for b in f.order:
        ins = f.blocks[b][-1] if f.blocks[b] else None
        s = []
        if ins is None: s = []
        elif ins.op == 'br': s = [ins.a[0]] if len(ins.a) == 1 else [ins.a[1], ins.a[2]]
        elif ins.op == 'switch': s = [ins.a[1]] + [x for _, x in ins.a[2]]
        elif ins.op == 'invoke': s = [ins.a[2]]
        elif ins.op == 'ret': s = ['$exit']
        succ[b] = s
    succ['$exit'] = []
    pred = {b: [] for b in succ}
    for b, s in succ.items():
        for t in s: pred[t].append(b)
    # blocks reaching exit
    reach = {'$exit'}
    st = ['$exit']
    while st:
        x = st.pop()
        for p in pred[x]:
            if p not in reach:
                reach.add(p); st.append(p)
    # reverse postorder on reversed graph
    order = []
    seen = set()
    stack = [('$exit', iter(pred['$exit']))]
    seen.add('$exit')
    while stack:
        n, it = stack[-1]
        for p in it:
            if p in reach and p not in seen:
                seen.add(p)
                stack.append((p, iter(pred[p])))
                break
        else:
            order.append(n); stack.pop()
    num = {n: i for i, n in enumerate(order)}
    idom = {'$exit': '$exit'}
    changed = True
    while changed:
        changed = False
        for n in reversed(order):
            if n == '$exit': continue
            new = None
            for s in succ[n]:
                if s in idom:
                    if new is None: new = s
                    else:
                        a, b = s, new
                        while a != b:
                            while num[a] < num[b]: a = idom[a]
                            while num[b] < num[a]: b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new:
                idom[n] = new
                changed = True
    return {n: (None if d == '$exit' else d) for n, d in idom.items() if n != '$exit'}


# ---------------------------------------------------------------- instruction handlers
def h_fbin(op):
    def h(self, fr, ins):
        t = ins.ty
        a = self.val(fr, ins.a[0], t); b = self.val(fr, ins.a[1], t)
        loc = self.where(ins.dbg)
        if t.k == 'vec':
            return tuple(self_f(self, op, x, y, t.el.k, loc) for x, y in zip(a, b))
        return self_f(self, op, a, b, t.k, loc)
    return h


def raw(v):
    """a float given by its bits (any bit pattern, NaN and signed zeros included), or computed from one"""
    if v.__class__ is not N: return False
    if v.op in ('frombits', 'fx'): return True
    return v.op == 'sel' and (raw(v.args[1]) or raw(v.args[2]))


def self_f(self, op, a, b, k, loc):
    if a is UNDEF or b is UNDEF:
        raise Fault('uninit', 'arithmetic on an uninitialised value', loc)
    if raw(a) or raw(b): return mk('fx', (op, k, a, b), 'f', loc)
    if op == 'rem': return fn('fmod', a, b, ty=k, loc=loc)
    return fbin(op, a, b, k, loc)


def h_ibin(op):
    def h(self, fr, ins):
        a = self.val(fr, ins.a[0], ins.ty); b = self.val(fr, ins.a[1], ins.ty)
        if ins.ty.k == 'vec':
            return tuple(self.ibin(op, x, y, ins.ty.el.n, ins.dbg) for x, y in zip(a, b))
        return self.ibin(op, a, b, ins.ty.n, ins.dbg)
    return h


def h_cast(op):
    def h(self, fr, ins):
        return self.cast(op, self.val(fr, ins.a[1], ins.a[0]), ins.a[0], ins.ty, ins.dbg)
    return h


def h_icmp(self, fr, ins):
    pred, a, b = ins.a
    return self.icmp(pred, self.val(fr, a, ins.ty), self.val(fr, b, ins.ty), ins.ty, ins.dbg)


def h_fcmp(self, fr, ins):
    pred, a, b = ins.a
    x = self.val(fr, a, ins.ty); y = self.val(fr, b, ins.ty)
    if x is UNDEF or y is UNDEF: raise Fault('uninit', 'comparison of an uninitialised value', self.where(ins.dbg))
    if ins.ty.k == 'vec': raise Abstain('vector compare')
    if raw(x) or raw(y): return mk('fcmpx', (pred, ins.ty.k, x, y), 'b', self.where(ins.dbg))
    r = fcmp(pred, x, y, self.where(ins.dbg))
    return self.unb(r)


def h_fneg(self, fr, ins):
    v = self.val(fr, ins.a[0], ins.ty)
    if v.__class__ is tuple: return tuple(fneg(x) for x in v)
    if v is UNDEF: raise Fault('uninit', 'arithmetic on an uninitialised value', self.where(ins.dbg))
    if raw(v): return mk('fx', ('neg', ins.ty.k, v), 'f', self.where(ins.dbg))
    return fneg(v, self.where(ins.dbg))


def h_alloca(self, fr, ins):
    n = self.val(fr, ins.a[0], ir.I64)
    if n.__class__ is not int: raise Abstain('variable-length array', self.where(ins.dbg))
    i = self.new(tsize(ins.ty) * n, 'local ' + str(ins.dst), 'alloca')
    fr['$allocas'].append(i)
    return Ptr(i, 0)


def h_load(self, fr, ins):
    return self.load(self.val(fr, ins.a[0], ir.PTR), ins.ty, ins.dbg)


def h_store(self, fr, ins):
    self.store(self.val(fr, ins.a[1], ir.PTR), self.val(fr, ins.a[0], ins.ty), ins.ty, ins.dbg)


def h_gep(self, fr, ins):
    return self.gep(fr, ins.ty, ins.a, ins.dbg)


def h_select(self, fr, ins):
    c = self.val(fr, ins.a[0], ir.I1)
    a = self.val(fr, ins.a[1], ins.ty); b = self.val(fr, ins.a[2], ins.ty)
    c = self.decide(c, ins.dbg)
    if c.__class__ is int: return a if c else b
    return self.vsel(c, a, b, ins.dbg)


def h_extractvalue(self, fr, ins):
    v = self.val(fr, ins.a[0], ins.ty)
    for i in ins.a[1]:
        if v is UNDEF: return UNDEF
        v = v[i]
    return v


def h_insertvalue(self, fr, ins):
    v = self.val(fr, ins.a[0], ins.ty)
    if v is UNDEF: v = self.undef(ins.ty)
    e = self.val(fr, ins.a[2], ins.a[1])

    def put(v, idx):
        if not idx: return e
        l = list(v)
        l[idx[0]] = put(l[idx[0]], idx[1:])
        return tuple(l)
    return put(v, ins.a[3])


def h_extractelement(self, fr, ins):
    v = self.val(fr, ins.a[0], ins.ty); i = self.val(fr, ins.a[1], ir.I64)
    if i.__class__ is not int: raise Abstain('symbolic vector index')
    return UNDEF if v is UNDEF else v[i]


def h_insertelement(self, fr, ins):
    v = self.val(fr, ins.a[0], ins.ty); e = self.val(fr, ins.a[1], ins.ty.el); i = self.val(fr, ins.a[2], ir.I64)
    l = list(v) if v is not UNDEF else [UNDEF] * ins.ty.n
    l[i] = e
    return tuple(l)


def h_shuffle(self, fr, ins):
    a = self.val(fr, ins.a[0], ins.ty); b = self.val(fr, ins.a[1], ins.ty)
    mk_ = self.val(fr, ins.a[3], ins.a[2])
    a = a if a is not UNDEF else (UNDEF,) * ins.ty.n
    b = b if b is not UNDEF else (UNDEF,) * ins.ty.n
    al = tuple(a) + tuple(b)
    return tuple(UNDEF if m is UNDEF else al[m] for m in mk_)


def h_freeze(self, fr, ins):
    return self.val(fr, ins.a[0], ins.ty)


def h_landingpad(self, fr, ins):
    raise Dead('exception')


def do_call(self, fr, ins):
    callee, args = ins.a[0], ins.a[1]
    if callee[0] == 'glob': name = callee[1]
    else:
        fp = self.val(fr, callee, ir.PTR)
        if fp.__class__ is not FPtr: raise Abstain('indirect call', self.where(ins.dbg))
        name = fp.name
    if name.startswith('llvm.'):
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.stack', 'llvm.invariant')):
            return NULL if 'stacksave' in name or 'invariant.start' in name else None
    vals = [self.val(fr, o, t) if t.k != 'metadata' else None for t, o in args]
    return call_named(self, name, vals, [t for t, _ in args], ins)


def call_named(self, name, vals, tys, ins):
    loc = ins.dbg
    self.callees.add(name)
    if name in self.cuts:
        r = self.cuts[name](self, vals, loc)
        if r is not NotImplemented: return r
    f = self.m.funcs.get(name)
    if f is not None:
        if name in DEADFN: raise Dead(name, self.where(loc))
        nw = self.newton_cache.get(name)
        if nw is not None and nw is not False:
            return nw(self, vals, loc)
        key = ('rec', name)
        return self.call(name, vals, loc)
    return external(self, name, vals, tys, ins)


def fpclass(x):
    """LLVM class mask of a Python float (quiet NaN, normals as seen in double)"""
    if x != x: return 2
    neg = math.copysign(1.0, x) < 0
    if math.isinf(x): return 4 if neg else 0x200
    if x == 0: return 0x20 if neg else 0x40
    if abs(x) < 2.0 ** -1022: return 0x10 if neg else 0x80
    return 8 if neg else 0x100


def need_int(self, v, what, loc):
    if v.__class__ is int: return v
    raise Abstain('symbolic %s' % what, self.where(loc))


def external(self, name, vals, tys, ins):
    loc = ins.dbg
    w = self.where(loc)
    self.extern[name] = self.extern.get(name, 0) + 1
    if name in DEADFN or name.startswith('_ZSt') and '__throw' in name:
        raise Dead(name, w)
    ff = FLOATFN.get(name)
    if ff:
        if any(v is UNDEF for v in vals): raise Fault('uninit', 'argument of %s is uninitialised' % name, w)
        if any(raw(v) for v in vals): return mk('fx', (ff[0], ff[1]) + tuple(vals), 'f', w)
        return fn(ff[0], *vals, ty=ff[1], loc=w)
    if name.startswith('llvm.'):
        parts = name.split('.')
        b = parts[1]
        ty = 'float' if parts[-1] == 'f32' else 'double'
        if b in INTRFN and any(raw(v) for v in vals): return mk('fx', (INTRFN[b], ty) + tuple(vals), 'f', w)
        if b in INTRFN: return fn(INTRFN[b], *vals, ty=ty, loc=w)
        if b in ('fmuladd', 'fma'): return fbin('add', fbin('mul', vals[0], vals[1], ty, w), vals[2], ty, w)
        if b in ('memcpy', 'memmove'):
            self.memcpy(vals[0], vals[1], need_int(self, vals[2], 'length', loc), loc)
            return None
        if b == 'memset':
            self.memset(vals[0], vals[1], need_int(self, vals[2], 'length', loc), loc)
            return None
        if b in ('assume', 'prefetch', 'va_start', 'va_end'): return None
        if b == 'trap': raise Dead('trap', w)
        if b == 'expect': return vals[0]
        if b == 'is' and 'fpclass' in name:
            v, mask = vals
            if v is UNDEF: raise Fault('uninit', 'classification of an uninitialised value', w)
            if raw(v): return mk('fcmpx', ('class', 'float' if '.f32' in name else 'double', v, C(float(mask))), 'b', w)
            if isc(v): return int(bool(fpclass(cv(v)) & mask))
            if not mask & 0x1F8: return 0          # real values are finite
            if mask & 0x1F8 == 0x1F8: return 1
            raise Abstain('classification of a symbolic value', w)
        if b == 'is': return 0   # is.constant
        if b == 'objectsize': return M64
        if b in ('umax', 'umin', 'smax', 'smin') and all(v.__class__ is int for v in vals):
            wd = tys[0].n
            k = (lambda x: sgn(x, wd)) if b[0] == 's' else (lambda x: x)
            return (max if b.endswith('max') else min)(vals, key=k)
        if b in ('umax', 'umin', 'smax', 'smin'):
            A = self.icmp('slt', vals[0], vals[1], tys[0], loc)
            c = self.tob(A)
            return self.vsel(c, vals[1], vals[0]) if b.endswith('max') else self.vsel(c, vals[0], vals[1])
        if b in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and all(v.__class__ is int for v in vals):
            wd = tys[0].n
            x, y = (sgn(vals[0], wd), sgn(vals[1], wd)) if b[0] == 's' else vals
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[b[1:]]
            rm = r & ((1 << wd) - 1)
            return (rm, int((sgn(rm, wd) if b[0] == 's' else rm) != r))
        if b == 'abs' and vals[0].__class__ is int:
            wd = tys[0].n
            return abs(sgn(vals[0], wd)) & ((1 << wd) - 1)
        if b == 'bswap':
            v = vals[0]
            n = tys[0].n // 8
            if v.__class__ is int: return int.from_bytes(v.to_bytes(n, 'little'), 'big')
            bb = bits_of(v, n * 8)
            return mkbits(tuple(sum((list(bb[8 * k:8 * k + 8]) for k in reversed(range(n))), [])))
        if b == 'threadlocal': return vals[0]
        raise Abstain('intrinsic %s' % name, w)
    if name in ('memcpy', 'memmove'):
        self.memcpy(vals[0], vals[1], need_int(self, vals[2], 'length', loc), loc)
        return vals[0]
    if name == 'memset':
        self.memset(vals[0], self.cast('trunc', vals[1], ir.I32, ir.I8, loc), need_int(self, vals[2], 'length', loc), loc)
        return vals[0]
    if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t'):
        n = need_int(self, vals[0], 'allocation size', loc)
        if n > 1 << 34: raise Dead('bad_alloc', w)
        return Ptr(self.new(n, 'heap block of %d bytes' % n, 'heap'), 0)
    if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t'):
        p = vals[0]
        if p.__class__ is Ptr and p.o:
            if p.o in self.st.mem:
                self.st.mem.pop(p.o)
            else: raise Fault('free', 'double free', w)
        return None
    if name == 'strlen':
        p = vals[0]
        o = self.obj(p.o, loc)
        k = 0
        while True:
            b = self.load(Ptr(p.o, p.off + k), ir.I8, loc)
            if b.__class__ is not int: raise Abstain('strlen of symbolic data', w)
            if b == 0: return k
            k += 1
    if name == '__cxa_guard_acquire':
        o = self.wobj(vals[0].o)
        b = self.load_raw(o, vals[0].off, 1, 'i', loc)
        return 0 if b == 1 else 1
    if name == '__cxa_guard_release':
        o = self.wobj(vals[0].o)
        self.put(o, vals[0].off, 1, 1, loc)
        return None
    if name in ('__cxa_atexit', '__cxa_guard_abort', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_thread_atexit'): return 0
    if name in ('memcmp', 'bcmp', 'strcmp'):
        raise Abstain('%s' % name, w)
    # unknown external: no effect on the values tracked here is assumed to be an error of the analysis
    raise Abstain('external function %s' % name, w)


DISPATCH = {
    'fadd': h_fbin('add'), 'fsub': h_fbin('sub'), 'fmul': h_fbin('mul'), 'fdiv': h_fbin('div'), 'frem': h_fbin('rem'),
    'fneg': h_fneg, 'icmp': h_icmp, 'fcmp': h_fcmp, 'alloca': h_alloca, 'load': h_load, 'store': h_store, 'getelementptr': h_gep,
    'select': h_select, 'extractvalue': h_extractvalue, 'insertvalue': h_insertvalue, 'extractelement': h_extractelement,
    'insertelement': h_insertelement, 'shufflevector': h_shuffle, 'freeze': h_freeze, 'call': do_call, 'landingpad': h_landingpad,
}
for _o in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'): DISPATCH[_o] = h_ibin(_o)
for _o in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
    DISPATCH[_o] = h_cast(_o)
