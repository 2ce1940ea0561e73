"""Vectorised interval abstract domain (with forward derivative intervals) over value graphs.

eval_(roots, lo, hi, grads) returns per node id an Iv: arrays lo, hi, bad
(0 = certainly defined, 1 = possibly undefined, 2 = certainly undefined) and, if asked,
enclosures of the partial derivatives.  All bounds are rounded outwards.
"""
import numpy as np
np.seterr(all='ignore')
from expr import *

INF = np.inf
EPS = 2.3e-16
EXACT = ('neg', 'sel', 'floor', 'ceil', 'trunc', 'fptosi', 'round', 'irem', 'idiv', 'tab', 'copysign', 'i2f')
np.seterr(all='ignore')


def _out(lo, hi, k=1.0):
    lo = np.where(np.isnan(lo), -INF, lo)
    hi = np.where(np.isnan(hi), INF, hi)
    lo = lo - np.abs(np.where(np.isinf(lo), 0, lo)) * (EPS * k)
    hi = hi + np.abs(np.where(np.isinf(hi), 0, hi)) * (EPS * k)
    return lo, hi


def imul(al, ah, bl, bh):
    p = np.stack([al * bl, al * bh, ah * bl, ah * bh])
    p = np.where(np.isnan(p), 0.0, p)     # 0*inf
    return _out(p.min(0), p.max(0))


def iadd(al, ah, bl, bh): return _out(al + bl, ah + bh)
def isub(al, ah, bl, bh): return _out(al - bh, ah - bl)


def idiv(al, ah, bl, bh):
    """(lo, hi, zero-in-divisor)"""
    z = (bl <= 0) & (bh >= 0)
    p = np.stack([al / bl, al / bh, ah / bl, ah / bh])
    p = np.where(np.isnan(p), 0.0, p)
    lo, hi = _out(p.min(0), p.max(0))
    # divisor [0,h] or [-h,0]
    pos = z & (bl == 0) & (bh > 0)
    neg = z & (bh == 0) & (bl < 0)
    lo = np.where(z, -INF, lo); hi = np.where(z, INF, hi)
    lo = np.where(pos & (al >= 0), np.where(np.isinf(bh), 0, al / np.where(bh == 0, 1, bh)), lo)
    hi = np.where(pos & (ah <= 0), np.where(np.isinf(bh), 0, ah / np.where(bh == 0, 1, bh)), hi)
    lo = np.where(neg & (ah <= 0), ah / np.where(bl == 0, -1, bl), lo)
    hi = np.where(neg & (al >= 0), al / np.where(bl == 0, -1, bl), hi)
    lo, hi = _out(lo, hi)
    return lo, hi, z


def ipowi(al, ah, k):
    if k == 0: return np.ones_like(al), np.ones_like(al)
    if k < 0:
        l, h = ipowi(al, ah, -k)
        lo, hi, z = idiv(np.ones_like(al), np.ones_like(al), l, h)
        return lo, hi
    x, y = al ** k, ah ** k
    if k % 2:
        return _out(x, y, k)
    lo = np.minimum(x, y); hi = np.maximum(x, y)
    lo = np.where((al <= 0) & (ah >= 0), 0.0, lo)
    return _out(lo, hi, k)


class Iv:
    __slots__ = ('lo', 'hi', 'bad', 'g')

    def __init__(self, lo, hi, bad, g=None):
        self.lo = lo; self.hi = hi; self.bad = bad; self.g = g


def _mono(f, a, k=4.0):
    return _out(f(a.lo), f(a.hi), k)


def _trig(a, shift):
    # sin(x+shift*pi/2): shift 0 sin, 1 cos
    lo, hi = a.lo, a.hi
    off = 0.0 if shift == 0 else np.pi / 2
    x, y = lo + off, hi + off
    s1, s2 = np.sin(x), np.sin(y)
    l = np.minimum(s1, s2) - 4e-16 - 2.3e-16 * np.abs(np.where(np.isinf(x), 0, x)); h = np.maximum(s1, s2) + 4e-16 + 2.3e-16 * np.abs(np.where(np.isinf(y), 0, y))
    # does [x,y] contain pi/2+2k pi / -pi/2+2k pi
    kmax = np.ceil((x - np.pi / 2 - 1e-9) / (2 * np.pi))
    hasmax = kmax * 2 * np.pi + np.pi / 2 <= y + 1e-9
    kmin = np.ceil((x + np.pi / 2 - 1e-9) / (2 * np.pi))
    hasmin = kmin * 2 * np.pi - np.pi / 2 <= y + 1e-9
    h = np.where(hasmax, 1.0, h); l = np.where(hasmin, -1.0, l)
    inf = np.isinf(x) | np.isinf(y)
    l = np.where(inf, -1.0, l); h = np.where(inf, 1.0, h)
    return np.maximum(l, -1.0 - 1e-15), np.minimum(h, 1.0 + 1e-15)


def _rep(v): return v.astype(np.float32).astype(float) == v


def _exact(op, a, b):
    """value of a basic operation on point operands, and where it is exact in float arithmetic (no rounding at all)"""
    pt = (a.lo == a.hi) & (a.bad == 0)
    if b is not None: pt = pt & (b.lo == b.hi) & (b.bad == 0)
    x = a.lo; y = b.lo if b is not None else None
    if op == 'sqrt':
        v = np.sqrt(np.maximum(x, 0)); ok = (v * v == x)
    elif op == 'mul': v = x * y; ok = _rep(x) & _rep(y)
    elif op == 'div':
        v = x / np.where(y == 0, 1, y); ok = (y != 0) & (v * y == x) & _rep(y) & _rep(v)
    else:
        if op == 'sub': y = -y
        v = x + y; t = v - x
        ok = ((x - (v - t)) + (y - t)) == 0
    m = np.abs(v)
    return v, pt & ok & _rep(v) & ((v == 0) | ((m > 1e-25) & (m < 1e25)))


def evalg(roots, lo, hi, gv=None, size=None, u=0.0, exact=False):
    """lo/hi: dict var name -> array.  gv: list of variables to differentiate by.
    u: every constant and every operation may be off by that relative amount (rounding of the program's own arithmetic).
    exact: float constants stand for themselves and operations without any rounding error are not widened."""
    order = topo(roots)
    if size is None:
        size = len(next(iter(lo.values()))) if lo else 1
    z = np.zeros(size)
    zb = np.zeros(size, dtype=np.int8)
    R = {}
    B = {}
    ng = len(gv) if gv else 0
    full = (np.full(size, -INF), np.full(size, INF))
    zero = (z, z)

    def gz(a): return a.g if a.g is not None else None

    def gscale(a, dlo, dhi):
        if a.g is None: return None
        return [None if g is None else imul(g[0], g[1], dlo, dhi) for g in a.g]

    def gadd(p, q, sub=False):
        if p is None and q is None: return None
        out = []
        for i in range(ng):
            x = p[i] if p else None
            y = q[i] if q else None
            if y is not None and sub: y = (-y[1], -y[0])
            if x is None: out.append(y)
            elif y is None: out.append(x)
            else: out.append(iadd(x[0], x[1], y[0], y[1]))
        return out

    for n in order:
        op = n.op
        if n.t == 'b':
            if op == 'b':
                t = np.full(size, bool(n.args[0]))
                B[n.id] = (t, ~t)
            elif op in ('lt', 'le', 'eq'):
                a, b = R[n.args[0].id], R[n.args[1].id]
                bad = (a.bad > 0) | (b.bad > 0)
                if op == 'lt': ct, cf = a.lo < b.hi, a.hi >= b.lo
                elif op == 'le': ct, cf = a.lo <= b.hi, a.hi > b.lo
                else: ct, cf = (a.lo <= b.hi) & (b.lo <= a.hi), ~((a.lo == a.hi) & (b.lo == b.hi) & (a.lo == b.lo))
                B[n.id] = (ct | bad, cf | bad)
            elif op == 'not':
                t, f = B[n.args[0].id]
                B[n.id] = (f, t)
            elif op == 'and':
                (t1, f1), (t2, f2) = B[n.args[0].id], B[n.args[1].id]
                B[n.id] = (t1 & t2, f1 | f2)
            elif op == 'or':
                (t1, f1), (t2, f2) = B[n.args[0].id], B[n.args[1].id]
                B[n.id] = (t1 | t2, f1 & f2)
            else:
                t = np.ones(size, dtype=bool)
                B[n.id] = (t, t)
            continue
        if n.t == 'i' or n.t == 'u':
            R[n.id] = Iv(full[0], full[1], zb + 1)
            continue
        g = None
        if op == 'c':
            v = cv(n)
            if v != v: r = Iv(full[0], full[1], zb + 2)
            else:
                w = abs(v) * u if u and abs(v) < 1e300 and v != int(v) and not (exact and float(np.float32(v)) == v) else 0.0
                r = Iv(np.full(size, v - w), np.full(size, v + w), zb)
            R[n.id] = r
            continue
        if op == 'var':
            nm = n.args[0]
            if nm in lo:
                r = Iv(lo[nm], hi[nm], zb)
                if gv and nm in gv:
                    o = np.ones(size)
                    r.g = [(o, o) if v == nm else None for v in gv]
            else:
                r = Iv(full[0], full[1], zb)
            R[n.id] = r
            continue
        ch = [R[a.id] for a in n.args if a.__class__ is N and a.t != 'b']
        if op == 'add':
            a, b = ch
            l, h = iadd(a.lo, a.hi, b.lo, b.hi)
            bad = np.maximum(a.bad, b.bad)
            if gv: g = gadd(a.g, b.g)
        elif op == 'sub':
            a, b = ch
            if n.args[0] is n.args[1]: l, h = z, z
            else: l, h = isub(a.lo, a.hi, b.lo, b.hi)
            bad = np.maximum(a.bad, b.bad)
            if gv: g = gadd(a.g, b.g, True)
        elif op == 'neg':
            a = ch[0]
            l, h, bad = -a.hi, -a.lo, a.bad
            if gv and a.g: g = [None if q is None else (-q[1], -q[0]) for q in a.g]
        elif op == 'mul':
            a, b = ch
            if n.args[0] is n.args[1]:
                l, h = ipowi(a.lo, a.hi, 2)
                if gv: g = gscale(a, 2 * a.lo, 2 * a.hi)
            else:
                l, h = imul(a.lo, a.hi, b.lo, b.hi)
                if gv: g = gadd(gscale(a, b.lo, b.hi), gscale(b, a.lo, a.hi))
            bad = np.maximum(a.bad, b.bad)
        elif op == 'div':
            a, b = ch
            l, h, zz = idiv(a.lo, a.hi, b.lo, b.hi)
            bad = np.maximum(a.bad, b.bad)
            bad = np.maximum(bad, np.where((b.lo == 0) & (b.hi == 0), 2, np.where(zz, 1, 0)).astype(np.int8))
            if gv:
                o = np.ones(size)
                il, ih, _ = idiv(o, o, b.lo, b.hi)
                p = gscale(a, il, ih)
                if b.g:
                    ql, qh = imul(l, h, il, ih)
                    p = gadd(p, gscale(b, ql, qh), True)
                g = p
        elif op == 'sel':
            ct, cf = B[n.args[0].id]
            a, b = ch
            onlyt, onlyf = ct & ~cf, cf & ~ct
            l = np.where(onlyt, a.lo, np.where(onlyf, b.lo, np.minimum(a.lo, b.lo)))
            h = np.where(onlyt, a.hi, np.where(onlyf, b.hi, np.maximum(a.hi, b.hi)))
            und = ~(onlyt | onlyf)
            bad = np.where(onlyt, a.bad, np.where(onlyf, b.bad, np.where((a.bad == 2) & (b.bad == 2), 2, np.minimum(np.maximum(a.bad, b.bad), 1)))).astype(np.int8)
            if gv:
                g = []
                for i in range(ng):
                    x = (a.g[i] if a.g else None) or zero
                    y = (b.g[i] if b.g else None) or zero
                    gl = np.where(onlyt, x[0], np.where(onlyf, y[0], -INF)); gh = np.where(onlyt, x[1], np.where(onlyf, y[1], INF))
                    g.append((gl, gh))
        elif op in ('sqrt', 'newton'):
            a = ch[0]
            bad = np.maximum(a.bad, np.where(a.hi < 0, 2, np.where(a.lo < 0, 1, 0)).astype(np.int8))
            l, h = np.sqrt(np.maximum(a.lo, 0)), np.sqrt(np.maximum(a.hi, 0))
            if op == 'newton': l, h = l * (1 - 2e-7), h * (1 + 2e-7)
            l, h = _out(l, h)
            if gv:
                o = np.full(size, 0.5)
                dl, dh, _ = idiv(o, o, np.maximum(l, 0), h)
                dl = np.maximum(dl, 0)
                g = gscale(a, dl, dh)
        elif op == 'cbrt':
            a = ch[0]
            l, h = _mono(np.cbrt, a); bad = a.bad
            if gv:
                sl, sh = ipowi(l, h, 2)
                o = np.full(size, 1 / 3.)
                dl, dh, _ = idiv(o, o, np.maximum(sl, 0), sh)
                g = gscale(a, np.maximum(dl, 0), dh)
        elif op == 'exp':
            a = ch[0]
            l, h = _mono(np.exp, a); l = np.maximum(l, 0); bad = a.bad
            if gv: g = gscale(a, l, h)
        elif op == 'expm1':
            a = ch[0]
            l, h = _mono(np.expm1, a); bad = a.bad
            if gv: g = gscale(a, l + 1, h + 1)
        elif op in ('log', 'log10', 'log2', 'log1p'):
            a = ch[0]
            sh_ = 1.0 if op == 'log1p' else 0.0
            al, ah = a.lo + sh_, a.hi + sh_
            bad = np.maximum(a.bad, np.where(ah <= 0, 2, np.where(al <= 0, 1, 0)).astype(np.int8))
            f = {'log': np.log, 'log10': np.log10, 'log2': np.log2, 'log1p': np.log}[op]
            l, h = f(np.maximum(al, 0)), f(np.maximum(ah, 0))
            l, h = _out(l - 1e-16, h + 1e-16, 4)
            if gv:
                k = {'log': 1.0, 'log1p': 1.0, 'log10': 1 / np.log(10), 'log2': 1 / np.log(2)}[op]
                o = np.full(size, k)
                dl, dh, _ = idiv(o, o, np.maximum(al, 0), np.maximum(ah, 0))
                g = gscale(a, np.maximum(dl, 0), dh)
        elif op == 'pow':
            a, b = ch
            e = cv(n.args[1]) if isc(n.args[1]) else None
            bad = np.maximum(a.bad, b.bad)
            if e is not None and e == int(e) and abs(e) <= 64:
                k = int(e)
                l, h = ipowi(a.lo, a.hi, k)
                if k < 0: bad = np.maximum(bad, np.where((a.lo <= 0) & (a.hi >= 0), 1, 0).astype(np.int8))
                if gv:
                    dl, dh = ipowi(a.lo, a.hi, k - 1)
                    dl, dh = imul(dl, dh, np.full(size, float(k)), np.full(size, float(k)))
                    g = gscale(a, dl, dh)
            else:
                xl, xh = np.maximum(a.lo, 0), np.maximum(a.hi, 0)
                bad = np.maximum(bad, np.where(a.hi < 0, 2, np.where(a.lo < 0, 1, 0)).astype(np.int8))
                p = np.stack([xl ** b.lo, xl ** b.hi, xh ** b.lo, xh ** b.hi])
                l, h = _out(p.min(0), p.max(0), 8 + 4 * np.max(np.abs(np.where(np.isinf(b.hi), 0, b.hi))))
                l = np.maximum(l, 0)
                if gv:
                    if a.g is not None:
                        e1l, e1h = b.lo - 1, b.hi - 1
                        p = np.stack([xl ** e1l, xl ** e1h, xh ** e1l, xh ** e1h])
                        dl, dh = _out(p.min(0), p.max(0), 64)
                        dl, dh = imul(dl, dh, b.lo, b.hi)
                        g = gscale(a, dl, dh)
                    if b.g is not None:
                        ll, lh = np.log(xl), np.log(xh)
                        dl, dh = imul(l, h, ll, lh)
                        g = gadd(g, gscale(b, dl, dh))
        elif op == 'sin' or op == 'cos':
            a = ch[0]
            l, h = _trig(a, 0 if op == 'sin' else 1); bad = a.bad
            if gv and a.g:
                dl, dh = _trig(a, 1 if op == 'sin' else 0)
                if op == 'cos': dl, dh = -dh, -dl
                g = gscale(a, dl, dh)
        elif op == 'atan':
            a = ch[0]
            l, h = _mono(np.arctan, a); bad = a.bad
            if gv and a.g:
                ql, qh = ipowi(a.lo, a.hi, 2)
                o = np.ones(size)
                dl, dh, _ = idiv(o, o, 1 + np.maximum(ql, 0), 1 + qh)
                g = gscale(a, dl, dh)
        elif op == 'atan2':
            y, x = ch
            bad = np.maximum(x.bad, y.bad)
            p = np.stack([np.arctan2(y.lo, x.lo), np.arctan2(y.lo, x.hi), np.arctan2(y.hi, x.lo), np.arctan2(y.hi, x.hi)])
            # y == 0 treated as +0
            l, h = _out(p.min(0), p.max(0), 4)
            cut = (y.lo < 0) & (y.hi >= 0) & (x.lo < 0)
            orig = (y.lo <= 0) & (y.hi >= 0) & (x.lo <= 0) & (x.hi >= 0)
            w = cut | orig
            l = np.where(w, -np.pi - 1e-15, l); h = np.where(w, np.pi + 1e-15, h)
            if gv:
                xl, xh = ipowi(x.lo, x.hi, 2); yl, yh = ipowi(y.lo, y.hi, 2)
                dl, dh = iadd(np.maximum(xl, 0), xh, np.maximum(yl, 0), yh)
                dl = np.maximum(dl, 0)
                p1 = idiv(x.lo, x.hi, dl, dh); p2 = idiv(-y.hi, -y.lo, dl, dh)
                g = gadd(gscale(y, p1[0], p1[1]), gscale(x, p2[0], p2[1]))
                if g:
                    g = [None if q is None else (np.where(w, -INF, q[0]), np.where(w, INF, q[1])) for q in g]
        elif op in ('floor', 'ceil', 'trunc', 'fptosi', 'round'):
            a = ch[0]
            f = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'fptosi': np.trunc, 'round': lambda v: np.sign(v) * np.floor(np.abs(v) + 0.5)}[op]
            l, h = f(a.lo), f(a.hi); bad = a.bad
            if gv and a.g: g = [None if q is None else (np.where(l == h, 0.0, -INF), np.where(l == h, 0.0, INF)) for q in a.g]
        elif op in ('fmod', 'irem'):
            a, b = ch
            bad = np.maximum(a.bad, b.bad)
            m = np.maximum(np.abs(b.lo), np.abs(b.hi))
            bad = np.maximum(bad, np.where((b.lo <= 0) & (b.hi >= 0), 1, 0).astype(np.int8))
            q1, q2 = np.trunc(a.lo / b.lo), np.trunc(a.hi / b.lo)
            same = (b.lo == b.hi) & (q1 == q2)
            hh = m if op == 'fmod' else m - 1
            l = np.where(same, a.lo - q1 * b.lo, np.where(a.lo >= 0, 0.0, -hh)); h = np.where(same, a.hi - q1 * b.lo, np.where(a.hi <= 0, 0.0, np.minimum(hh, np.where(a.hi >= 0, np.maximum(a.hi, 0), hh))))
            l, h = _out(l, h)
            if gv and a.g: g = [None if q is None else (np.where(same, q[0], -INF), np.where(same, q[1], INF)) for q in a.g]
            if gv and b.g: g = [full] * ng
        elif op == 'idiv':
            a, b = ch
            l, h, zz = idiv(a.lo, a.hi, b.lo, b.hi)
            l, h = np.trunc(l + 1e-12 * np.sign(l)), np.trunc(h + 1e-12 * np.sign(h))
            bad = np.maximum(np.maximum(a.bad, b.bad), zz.astype(np.int8))
            if gv: g = [full] * ng
        elif op == 'tab':
            i = ch[0]
            els = ch[1:]
            base = n.args[-1]
            k = len(els)
            a0 = np.clip(np.nan_to_num(i.lo) - base, 0, k - 1); a1 = np.clip(np.nan_to_num(i.hi) - base, 0, k - 1)
            l = np.full(size, INF); h = np.full(size, -INF); bad = zb
            for j in range(int(a0.min()), int(a1.max()) + 1):
                inn = (a0 <= j) & (j <= a1)
                l = np.where(inn, np.minimum(l, els[j].lo), l); h = np.where(inn, np.maximum(h, els[j].hi), h)
                bad = np.where(inn, np.maximum(bad, els[j].bad), bad)
            out = (i.lo < base) | (i.hi > base + k - 1)
            l = np.where(out, -INF, l); h = np.where(out, INF, h); bad = np.where(out, np.maximum(bad, 1), bad).astype(np.int8)
            if gv: g = [full] * ng
        elif op == 'copysign':
            a, b = ch
            m = np.maximum(np.abs(a.lo), np.abs(a.hi))
            l, h, bad = -m, m, np.maximum(a.bad, b.bad)
            if gv: g = [full] * ng
        elif op == 'oob' or op == 'undeff':
            l, h, bad = full[0], full[1], zb + 2
        elif op == 'tan':
            a = ch[0]
            l, h, bad = full[0], full[1], np.maximum(a.bad, 0)
            if gv: g = [full] * ng
        elif op == 'i2f':
            l, h, bad = full[0], full[1], zb
        else:
            l, h, bad = full[0], full[1], zb + 1
            if gv: g = [full] * ng
        if u and op not in EXACT:
            l = l - u * np.abs(np.where(np.isinf(l), 0, l)); h = h + u * np.abs(np.where(np.isinf(h), 0, h))
            if exact and op in ('add', 'sub', 'mul', 'div', 'sqrt'):
                ev, ok = _exact(op, ch[0], ch[1] if len(ch) > 1 else None)
                l = np.where(ok, ev, l); h = np.where(ok, ev, h)
            if op in ('pow', 'sqrt', 'newton'): l = np.maximum(l, 0) if op != 'pow' or not isc(n.args[1]) or cv(n.args[1]) != int(cv(n.args[1])) else l
        R[n.id] = Iv(np.where(np.isnan(l), -INF, l), np.where(np.isnan(h), INF, h), bad, g)
    return R, B
