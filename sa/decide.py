"""Decides claims about value graphs over boxes of inputs.

claim:  |impl - spec| <= atol + rtol*|spec|   for all inputs in the box (+ side conditions)

1. partition the box by the gates (comparisons) and integer conversions occurring in either graph;
2. on each part: equal value numbers (exact identity) -> discharged; otherwise interval
   branch-and-bound: discharged when the enclosure of the difference stays within the tolerance,
   refuted when on some sub-box that certainly satisfies all gates the enclosure certainly
   exceeds it.
Only a refutation is reported as a violation; parts that stay undecided are counted.
"""
import math, re, time, random
import numpy as np
from fractions import Fraction
from expr import *
import expr as X
import nf as NF
import rint
from interval import evalg, INF

f32 = X.f32


def nxt32(v, up):
    x = np.float32(v)
    if float(x) > v and up: return float(x)
    if float(x) < v and not up: return float(x)
    return float(np.nextafter(x, np.float32(np.inf if up else -np.inf)))


class Result:
    def __init__(self):
        self.parts = 0; self.proved = 0; self.identity = 0; self.byint = 0; self.undecided = 0; self.empty = 0
        self.refuted = None; self.boxes = 0; self.notes = []

    @property
    def ok(self): return self.refuted is None

    @property
    def complete(self): return self.refuted is None and self.undecided == 0

    def add(self, o):
        for k in ('parts', 'proved', 'identity', 'byint', 'undecided', 'empty', 'boxes'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        if self.refuted is None: self.refuted = o.refuted
        self.notes += o.notes


class Part:
    __slots__ = ('box', 'roots', 'filters', 'signs', 'ints')

    def __init__(self, box, roots, filters, signs):
        self.box = box; self.roots = roots; self.filters = filters; self.signs = signs


INTOPS = ('fptosi', 'floor', 'trunc', 'ceil')


def scalar_range(n, box):
    lo = {k: np.array([v[0]]) for k, v in box.items()}
    hi = {k: np.array([v[1]]) for k, v in box.items()}
    R, _ = evalg([n], lo, hi, size=1)
    r = R[n.id]
    return float(r.lo[0]), float(r.hi[0]), int(r.bad[0])


def rng(n, box, deep=True):
    """range of n over box, best of raw and normal form"""
    if isc(n):
        return cv(n), cv(n), 0
    a = scalar_range(n, box)
    s = NF.simp(n) if deep else n
    if s is not n:
        b = scalar_range(s, box)
        lo, hi = max(a[0], b[0]), min(a[1], b[1])
        if lo <= hi: a = (lo, hi, min(a[2], b[2]))
    if deep and (a[2] or a[0] <= 0 <= a[1]):
        for s in (NF.factored(n), NF.deep(n)):
            if s is None or s is n or not (a[2] or a[0] <= 0 <= a[1]): continue
            b = scalar_range(s, box)
            lo, hi = max(a[0], b[0]), min(a[1], b[1])
            if lo <= hi: a = (lo, hi, min(a[2], b[2]))
        if a[2] or a[0] < 0 < a[1]:
            vs = vars_of([n])
            ua = unit_abs(n, box)
            if ua is not None and all(v in box for v in vs):
                b = hull(ua[0], ua[1], 1024)
                if b is not None: a = (max(a[0], b[0]), min(a[1], b[1]), 0)
            if 1 <= len(vs) <= 2 and all(v in box for v in vs):
                k = (n.id, tuple((v, box[v]) for v in sorted(vs)))
                if k not in _hull: _hull[k] = hull(n, box, 256)
                b = _hull[k]
                if b is not None:
                    lo, hi = max(a[0], b[0]), min(a[1], b[1])
                    if lo <= hi: a = (lo, hi, 0)
    return a


_hull = {}


def unit_abs(root, box):
    """replace x*a/sqrt(a*a+b*b) by x*u with a fresh u in [-1,1]; returns (node, box) or None"""
    memo = {}; bx = dict(box); hit = False
    for n in topo([root]):
        k = [a for a in n.args if a.__class__ is N] if n.op != 'bits' else []
        r = n
        if k:
            ch = [memo[a.id] for a in k]
            r = n if all(x is y for x, y in zip(ch, k)) else rebuild(n, ch)
        if n.op == 'div' and n.args[1].op in ('sqrt', 'newton') and n.args[1].args[0].op == 'add':
            sq = [t.args[0] for t in n.args[1].args[0].args if t.op == 'mul' and t.args[0] is t.args[1]]
            num = n.args[0]
            if len(sq) == 2:
                for a in sq:
                    x = None
                    if num is a: x = C(1.0)
                    elif num.op == 'mul' and num.args[1] is a: x = memo[num.args[0].id]
                    elif num.op == 'mul' and num.args[0] is a: x = memo[num.args[1].id]
                    if x is not None:
                        v = '$u%d_%d' % (a.id, n.args[1].id)
                        bx[v] = (-1.0, 1.0)
                        r = fbin('mul', x, var(v), 'double'); hit = True
                        break
        memo[n.id] = r
    return (memo[root.id], bx) if hit else None


def signkey(d):
    p = NF.nf(d)
    if p is not None and len(p) <= 24:
        if not p: return 'zero', 1
        k = max(p, key=lambda m: (len(m), repr(m)))
        c = abs(p[k]); s = 1 if p[k] > 0 else -1
        return ('nf', NF.pkey({m: x / c * s for m, x in p.items()})), s
    h1 = rint.h(d)
    if None in h1: return None, 1
    if not any(h1): return 'zero', 1
    neg = tuple(-x % rint.P for x in h1)
    return (h1, 1) if h1 <= neg else (neg, -1)


def sub_all(part_roots, env):
    memo = {}
    return [subst(r, env, memo) for r in part_roots]


class Budget:
    def __init__(self, sec): self.t = time.time() + sec

    def over(self): return time.time() > self.t


def partition(roots, box, filters=(), max_parts=4000, budget=None, ties=True):
    """yield Parts in which no gate is left; roots keep their order"""
    work = [(dict(box), list(roots), list(filters), {})]
    out = []
    n_over = 0
    while work:
        if len(out) + len(work) > max_parts or (budget and budget.over()):
            n_over += len(work)
            break
        bx, rs, fl, sg = work.pop()
        gate = None
        allr = rs + [f[0] for f in fl]
        order = topo(allr)
        bad = False
        # lowest undecided gate
        env = {}
        for n in order:
            if n.op in ('lt', 'le', 'eq'):
                gate = n
                break
            if n.op in INTOPS or n.op in ('fmod', 'irem', 'idiv'):
                gate = n
                break
            if n.t == 'b' and n.op not in ('b', 'not', 'and', 'or'):
                gate = n
                break
        if gate is None:
            out.append(Part(bx, rs, fl, sg))
            continue
        if gate.op in ('lt', 'le', 'eq'):
            d = fbin('sub', gate.args[0], gate.args[1], 'double')
            key, fl_ = signkey(d)
            allowed = {-1, 0, 1}
            if key == 'zero': allowed = {0}
            elif key is not None and key in sg:
                allowed = {s * fl_ for s in sg[key]}
            l, h, b = rng(d, bx)
            if b == 0:
                if l > 0: allowed &= {1}
                elif l == 0: allowed &= {0, 1}
                if h < 0: allowed &= {-1}
                elif h == 0: allowed &= {-1, 0}
            if not allowed: continue          # empty part
            tv = {'lt': {-1}, 'le': {-1, 0}, 'eq': {0}}[gate.op]
            sets = [(allowed & tv, TRUE), (allowed - tv, FALSE)]
            sets = [s for s in sets if s[0]]
            if len(sets) == 1 and not (sets[0][0] == {0} and key != 'zero' and isc_tie(d)):
                r2 = sub_all(allr, {gate.id: sets[0][1]})
                work.append((bx, r2[:len(rs)], list(zip(r2[len(rs):], [f[1] for f in fl])), sg))
                continue
            for ss, val in sets:
                sg2 = dict(sg)
                if key is not None and key != 'zero': sg2[key] = frozenset(s * fl_ for s in ss)
                env = {gate.id: val}
                bx2 = dict(bx)
                fl2 = list(fl)
                af = NF.affine(d)
                dead = False
                if ss == {0}:
                    if not ties: continue
                    if af and af[0]:
                        # substitute one variable
                        co, c0 = af
                        v = max(co, key=lambda k: (abs(co[k]), k))
                        expr = C(float(-c0 / co[v]))
                        for k, c in sorted(co.items()):
                            if k != v: expr = fbin('add', expr, fbin('mul', C(float(-c / co[v])), var(k), 'double'), 'double')
                        lo_, hi_ = bx2[v]
                        if isc(expr):
                            if not (lo_ <= cv(expr) <= hi_): continue
                            bx2[v] = (cv(expr), cv(expr))
                        else:
                            fl2 = fl2 + [(fbin('sub', var(v), C(lo_), 'double'), 'ge'), (fbin('sub', var(v), C(hi_), 'double'), 'le')]
                        e2 = {var(v).id: expr}
                        r1 = sub_all(rs + [f[0] for f in fl2], env)
                        r2 = sub_all(r1, e2)
                        if not isc(expr): bx2.pop(v)
                        sg2 = {}     # keys change under substitution
                        work.append((bx2, r2[:len(rs)], list(zip(r2[len(rs):], [f[1] for f in fl2])), sg2))
                        continue
                    fl2.append((d, 'eq'))
                else:
                    strict = 0 not in ss
                    if ss <= {0, 1} or ss <= {-1, 0}:
                        up = ss <= {0, 1}
                        if af and len(af[0]) == 1:
                            (v, c), = af[0].items()
                            t = float(-af[1] / c)
                            lo_, hi_ = bx2[v]
                            if (c > 0) == up:
                                nl = t if not strict else nxt32(t, True)
                                if not strict and f32(t) != t: nl = t
                                lo_ = max(lo_, nl)
                            else:
                                nh = t if not strict else nxt32(t, False)
                                hi_ = min(hi_, nh)
                            if lo_ > hi_: continue
                            bx2[v] = (lo_, hi_)
                        elif not af or af[0]:
                            fl2.append((d, ('gt' if strict else 'ge') if up else ('lt' if strict else 'le')))
                r2 = sub_all(rs + [f[0] for f in fl2], env)
                work.append((bx2, r2[:len(rs)], list(zip(r2[len(rs):], [f[1] for f in fl2])), sg2))
            continue
        if gate.op in INTOPS or gate.op in ('fmod', 'irem', 'idiv'):
            # integer value k of the conversion
            if gate.op in INTOPS: q = gate.args[0]; f = {'fptosi': math.trunc, 'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil}[gate.op]
            else:
                q = fbin('div', gate.args[0], gate.args[1], 'double'); f = math.trunc
            l, h, b = rng(q, bx)
            if b or not (abs(l) < 1e7 and abs(h) < 1e7) or f(h) - f(l) > 64:
                if abs(l) < 1e7 and abs(h) < 1e7 and f(h) - f(l) <= 4096 and not b:
                    pass
                else:
                    # too many values: abstract the result to its range (such a part can be proved, never refuted)
                    gl, gh, gb = scalar_range(gate, bx)
                    if gb or not (abs(gl) < 1e30 and abs(gh) < 1e30):
                        out.append(None)
                        continue
                    nm = '$abs%d' % gate.id
                    bx2 = dict(bx); bx2[nm] = (gl, gh)
                    r2 = sub_all(allr, {gate.id: var(nm)})
                    work.append((bx2, r2[:len(rs)], list(zip(r2[len(rs):], [f_[1] for f_ in fl])), sg))
                    continue
            af = NF.affine(q)
            for k in range(int(f(l)), int(f(h)) + 1):
                kk = float(k)
                if gate.op in INTOPS: val = C(kk)
                elif gate.op == 'idiv': val = C(kk)
                else: val = fbin('sub', gate.args[0], fbin('mul', C(kk), gate.args[1], 'double'), 'double')
                # q in [k,k+1) (trunc: toward zero)
                if f is math.trunc:
                    a_, b_ = (kk, kk + 1) if k > 0 else ((kk - 1, kk) if k < 0 else (-1.0, 1.0))
                    ca, cb = (True, False) if k > 0 else ((False, True) if k < 0 else (False, False))
                elif f is math.floor: a_, b_, ca, cb = kk, kk + 1, True, False
                else: a_, b_, ca, cb = kk - 1, kk, False, True
                bx2 = dict(bx)
                fl2 = list(fl)
                sg2 = dict(sg)
                empty = False
                for lim, cl, rel in ((a_, ca, {0, 1} if ca else {1}), (b_, cb, {0, -1} if cb else {-1})):
                    key, sn = signkey(fbin('sub', q, C(lim), 'double'))
                    if key is None or key == 'zero': continue
                    ns = frozenset(s * sn for s in rel)
                    if key in sg2: ns = ns & sg2[key]
                    if not ns: empty = True
                    sg2[key] = ns
                if empty: continue
                if af and len(af[0]) == 1:
                    (v, c), = af[0].items()
                    t1, t2 = float((Fraction(a_) - af[1]) / c), float((Fraction(b_) - af[1]) / c)
                    if c < 0: t1, t2, ca2, cb2 = t2, t1, cb, ca
                    else: ca2, cb2 = ca, cb
                    lo_, hi_ = bx2[v]
                    lo_ = max(lo_, t1 if ca2 else nxt32(t1, True)); hi_ = min(hi_, t2 if cb2 else nxt32(t2, False))
                    if lo_ > hi_: continue
                    bx2[v] = (lo_, hi_)
                else:
                    if a_ > l or (a_ == l and not ca): fl2.append((fbin('sub', q, C(a_), 'double'), 'ge' if ca else 'gt'))
                    if b_ < h or (b_ == h and not cb): fl2.append((fbin('sub', q, C(b_), 'double'), 'le' if cb else 'lt'))
                r2 = sub_all(rs + [f_[0] for f_ in fl2], {gate.id: val})
                work.append((bx2, r2[:len(rs)], list(zip(r2[len(rs):], [f_[1] for f_ in fl2])), sg2))
            continue
        out.append(None)
    return out, n_over


def isc_tie(d):
    return False


def filter_state(fl, R):
    """(possible, certain) arrays"""
    pos = None
    cer = None
    for n, rel in fl:
        r = R[n.id]
        if rel == 'ge': p, c = r.hi >= 0, r.lo >= 0
        elif rel == 'gt': p, c = r.hi > 0, r.lo > 0
        elif rel == 'le': p, c = r.lo <= 0, r.hi <= 0
        elif rel == 'lt': p, c = r.lo < 0, r.hi < 0
        else: p, c = (r.lo <= 0) & (r.hi >= 0), (r.lo == 0) & (r.hi == 0)
        c = c & (r.bad == 0)
        p = p | (r.bad == 1)
        pos = p if pos is None else pos & p
        cer = c if cer is None else cer & c
    return pos, cer


def probes(box, n, rnd):
    vs = sorted(box)
    pts = []
    for i in range(n):
        p = []
        for v in vs:
            lo, hi = box[v]
            m = i % 4
            if lo == hi: x = lo
            elif i == 0: x = 0.5 * (lo + hi)
            elif m == 1 and lo >= 0 and hi > 0:
                a, b = math.log(max(lo, hi * 1e-9, 1e-30)), math.log(hi)
                x = math.exp(rnd.uniform(a, b))
            elif m == 2 and i < 40:
                x = rnd.choice([lo, hi, 0.5 * (lo + hi)])
            else: x = rnd.uniform(lo, hi)
            x = min(max(x, lo), hi)
            xf = f32(x)
            if lo <= xf <= hi: x = xf
            p.append(x)
        pts.append(p)
    return vs, pts


def wide_probes(box, n, rnd):
    """float points spread over all magnitudes of the box: independent, with a common scale, and near equality"""
    vs = sorted(box)
    pts = []
    for i in range(n):
        p = []
        m = i % 4
        top = max([max(abs(a), abs(b)) for a, b in box.values()] + [1e-30])
        common = 10.0 ** rnd.uniform(math.log10(top) - 14, math.log10(top))
        last = None
        for v in vs:
            lo, hi = box[v]
            M = max(abs(lo), abs(hi))
            if lo == hi or M == 0: x = lo
            elif m == 0 or i == 1: x = rnd.uniform(lo, hi)
            else:
                if m == 1: x = 10.0 ** rnd.uniform(math.log10(M) - 12, math.log10(M))
                elif m == 2: x = common * rnd.uniform(0.05, 1.0)
                elif last is not None and rnd.random() < 0.6: x = abs(last) * (1 + rnd.choice([0, 0, 1e-3, -1e-3, 0.1, -0.1]))
                else: x = 10.0 ** rnd.uniform(math.log10(M) - 6, math.log10(M))
                sg = -1 if (lo < 0 and (hi <= 0 or rnd.random() < 0.5)) else 1
                if m == 3 and last is not None and last < 0 and lo < 0: sg = -1
                x *= sg
            x = f32(min(max(x, lo), hi))
            if not lo <= x <= hi: x = f32(rnd.uniform(lo, hi))
            if not lo <= x <= hi: x = lo
            last = x
            p.append(x)
        pts.append(p)
    return vs, pts


def hunt(impl, spec, box, rtol=1e-4, u=1e-6, filters=(), budget=3.0, seed=1, max_parts=600, nprobe=256, atol=0.0):
    """look for inputs in the box on which impl certainly differs from spec by more than rtol, even when every constant and operation
    of both sides is off by u.  Returns (witness or None, parts identical, parts, points)"""
    rnd = random.Random(seed + 7)
    bud = Budget(budget)
    raw = impl, spec
    impl, spec = gvn([impl, spec])
    parts, over = partition([impl, spec], box, filters, max_parts, bud, True)
    same = 0; npts = 0; tot = len(parts) + over
    for p in parts:
        if p is None: continue
        a, b = p.roots
        if a is b or rint.equal(a, b, seed):
            same += 1
            continue
        if bud.over(): continue
        if any(v.startswith('$abs') for v in p.box): continue
        fl = p.filters
        fn_ = [f[0] for f in fl]
        vs = sorted(vars_of([a, b] + fn_))
        if any(v not in p.box for v in vs): continue
        if vs: P0 = np.array(wide_probes({v: p.box[v] for v in vs}, nprobe, rnd)[1])
        else: P0 = np.zeros((1, 0))
        x = {v: P0[:, i] for i, v in enumerate(vs)}
        npts += len(P0)
        R, _ = evalg([a, b] + fn_, x, x, size=len(P0), u=u)
        ra, rb = R[a.id], R[b.id]
        pos, cer = filter_state(fl, R) if fl else (None, np.ones(len(P0), bool))
        gap = np.maximum(rb.lo - ra.hi, ra.lo - rb.hi)
        mag = np.maximum(np.abs(rb.lo), np.abs(rb.hi))
        wrong = cer & (rb.bad == 0) & (mag < HUGE) & (((gap > rtol * mag + atol) & (gap > TINY) & (ra.bad == 0)) | (ra.bad == 2))
        if wrong.any():
            i = int(np.argmax(wrong))
            return dict(box={v: [float(P0[i, k])] * 2 for k, v in enumerate(vs)},
                        impl=[float(ra.lo[i]), float(ra.hi[i])] if ra.bad[i] != 2 else 'undefined (NaN or division by zero)',
                        spec=[float(rb.lo[i]), float(rb.hi[i])], tol=[atol, rtol], impl_node=a), same, tot, npts
    if same < tot:
        w, k = directed(impl, spec, box, rtol, u, filters, max(1.0, budget * 0.8), rnd, atol)
        npts += k
        if w is None:
            w, k = coincide(*raw, box, rtol, u, filters, rnd, atol, 2 * nprobe)
            npts += k
        return w, same, tot, npts
    return None, same, tot, npts


TINY, HUGE = 1e-36, 3e38      # what a float result cannot tell from zero or infinity is no difference


OFFS = (0.0, 2e-6, 1e-5, 3e-5, 1e-4, 1e-3, 1e-2, 0.1)


def directed(impl, spec, box, rtol, u, filters, budget, rnd, atol):
    """as hunt, on the graphs with their gates, at points on either side of the surface where a comparison changes its outcome"""
    bud = Budget(budget)
    fl = list(filters)
    fn_ = [f[0] for f in fl]
    roots = [impl, spec] + fn_
    vs = sorted(vars_of(roots))
    if not vs or any(v not in box for v in vs): return None, 0
    L = np.array([box[v][0] for v in vs]); H = np.array([box[v][1] for v in vs])
    npts = 0

    def judge(P):
        P = np.clip(P, L, H).astype(np.float32).astype(float)
        P = P[((P >= L) & (P <= H)).all(1)]
        if not len(P): return None
        x = {v: P[:, i] for i, v in enumerate(vs)}
        R, _ = evalg(roots, x, x, size=len(P), u=u)
        ra, rb = R[impl.id], R[spec.id]
        cer = filter_state(fl, R)[1] if fl else np.ones(len(P), bool)
        gap = np.maximum(rb.lo - ra.hi, ra.lo - rb.hi)
        mag = np.maximum(np.abs(rb.lo), np.abs(rb.hi))
        wrong = cer & (rb.bad == 0) & (mag < HUGE) & (((gap > rtol * mag + atol) & (gap > TINY) & (ra.bad == 0)) | (ra.bad == 2))
        if not wrong.any(): return None
        i = int(np.argmax(wrong))
        return dict(box={v: [float(P[i, k])] * 2 for k, v in enumerate(vs)},
                    impl=[float(ra.lo[i]), float(ra.hi[i])] if ra.bad[i] != 2 else 'undefined (NaN or division by zero)',
                    spec=[float(rb.lo[i]), float(rb.hi[i])], tol=[atol, rtol], impl_node=impl)

    sub = {v: box[v] for v in vs}
    base = np.array(wide_probes(sub, 64, rnd)[1] + probes(sub, 64, rnd)[1])
    w = judge(base); npts += len(base)
    if w is not None: return w, npts
    seen = set(); gates = []
    for n in topo(roots):
        if n.op not in ('lt', 'le', 'eq'): continue
        d = fbin('sub', n.args[0], n.args[1], 'double')
        if isc(d) or d.id in seen: continue
        seen.add(d.id); gates.append(d)
    rnd.shuffle(gates)
    for d in gates:
        if bud.over(): break
        dv = [v for v in vars_of([d]) if v in box and box[v][0] < box[v][1]]
        if not dv: continue
        for v in (dv if len(dv) <= 2 else rnd.sample(dv, 2)):
            if bud.over(): break
            k = vs.index(v); lo, hi = box[v]
            M = max(abs(lo), abs(hi))
            g = [lo + (hi - lo) * t / 16 for t in range(17)]
            for e in np.linspace(-9, 0, 19):
                t = M * 10.0 ** e
                g += [t, -t]
            g = np.array(sorted({min(max(t, lo), hi) for t in g}))
            B = base[rnd.sample(range(len(base)), 24)]
            P = np.repeat(B, len(g), 0); P[:, k] = np.tile(g, len(B))

            def val(P):
                x = {q: P[:, i] for i, q in enumerate(vs)}
                R, _ = evalg([d], x, x, size=len(P))
                r = R[d.id]
                return np.where(r.bad == 0, 0.5 * (r.lo + r.hi), np.nan)
            V = val(P).reshape(len(B), len(g)); npts += len(P)
            sc = (V[:, :-1] * V[:, 1:] <= 0)
            bi, gi = np.nonzero(sc)
            if not len(bi): continue
            if len(bi) > 200:
                q = rnd.sample(range(len(bi)), 200); bi, gi = bi[q], gi[q]
            a, b = g[gi].copy(), g[gi + 1].copy()
            Q = B[bi].copy(); sa_ = V[bi, gi]
            for _ in range(30):
                m = 0.5 * (a + b); Q[:, k] = m
                s = val(Q)
                left = sa_ * s <= 0
                b = np.where(left, m, b); a = np.where(left, a, m)
            root = 0.5 * (a + b)
            pts = []
            for o in OFFS:
                for sg in (1, -1):
                    Z = Q.copy(); Z[:, k] = root * (1 + sg * o) if o else root
                    pts.append(Z)
                    if o:
                        Z = Q.copy(); Z[:, k] = root + sg * o * np.maximum(1.0, np.abs(Q).max(1)); pts.append(Z)
            P = np.concatenate(pts); npts += len(P)
            w = judge(P)
            if w is not None: return w, npts
    return None, npts


LAT = (0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 0.25, -0.25, 4.0, 3.0, -3.0, 0.75, 1.5)
MATS = [[1, 0, 0, 0, 1, 0, 0, 0, 1], [2, 0, 0, 0, 1, 0, 0, 0, .5], [1, 1, 0, 0, 1, 0, 0, 0, 1], [1, 0, 0, .5, 1, 0, 0, 0, 2], [0, 1, 0, 1, 0, 0, 0, 0, 1], [0, 1, 0, 0, 0, 1, 1, 0, 0],
        [2, 1, 1, 1, 1, 1, 0, 1, 2], [1, .25, 0, 0, 1, .5, 0, 0, 1], [4, 0, 0, 0, 4, 0, 0, 0, 4], [1, 0, .5, 0, 2, 0, 0, .25, 1], [-1, 0, 0, 0, 1, 0, 0, 0, 1], [1, -1, 0, 1, 1, 0, 0, 0, 1]]


def lattice(box, n, rnd):
    """points with many coincidences, on which most arithmetic is exact: few distinct small dyadic numbers, square blocks of nine also from a list of matrices"""
    vs = sorted(box)
    grp = {}
    for v in vs:
        m = re.match(r'(.*?)(\d)$', v)
        if m: grp.setdefault(m.group(1), {})[int(m.group(2))] = v
    grp = [g for g in grp.values() if sorted(g) == list(range(9))]
    pts = []
    for i in range(n):
        pool = [rnd.choice(LAT) for _ in range(rnd.choice((1, 2, 3, 5)))] + [rnd.choice((0.0, 1.0))]
        p = {}
        if i % 2:
            for g in grp:
                M_ = rnd.choice(MATS)
                for k, v in g.items(): p[v] = float(M_[k])
        for v in vs:
            lo, hi = box[v]
            if v not in p or not lo <= p[v] <= hi:
                c = [t for t in pool if lo <= t <= hi] or [t for t in LAT if lo <= t <= hi]
                p[v] = rnd.choice(c) if c else f32(0.5 * (lo + hi))
        pts.append([p[v] for v in vs])
    return vs, [p for p in pts if all(box[v][0] <= x <= box[v][1] for v, x in zip(vs, p))]


def coincide(impl, spec, box, rtol, u, filters, rnd, atol, n=512):
    """as directed, at lattice points, where equalities between computed values are met exactly"""
    fl = list(filters)
    fn_ = [f[0] for f in fl]
    vs = sorted(vars_of([impl, spec] + fn_))
    if not vs or any(v not in box for v in vs): return None, 0
    vs, P = lattice({v: box[v] for v in vs}, n, rnd)
    if not P: return None, 0
    P = np.array(P)
    x = {v: P[:, i] for i, v in enumerate(vs)}
    R, _ = evalg([impl], x, x, size=len(P), u=u, exact=True)
    Q, _ = evalg([spec] + fn_, x, x, size=len(P), u=u)
    ra, rb = R[impl.id], Q[spec.id]
    cer = filter_state(fl, Q)[1] if fl else np.ones(len(P), bool)
    gap = np.maximum(rb.lo - ra.hi, ra.lo - rb.hi)
    mag = np.maximum(np.abs(rb.lo), np.abs(rb.hi))
    wrong = cer & (rb.bad == 0) & (mag < HUGE) & (((gap > rtol * mag + atol) & (gap > TINY) & (ra.bad == 0)) | (ra.bad == 2))
    if not wrong.any(): return None, len(P)
    i = int(np.argmax(wrong))
    return dict(box={v: [float(P[i, k])] * 2 for k, v in enumerate(vs)}, impl=[float(ra.lo[i]), float(ra.hi[i])] if ra.bad[i] != 2 else 'undefined (NaN or division by zero)',
                spec=[float(rb.lo[i]), float(rb.hi[i])], tol=[atol, rtol], impl_node=impl), len(P)


def gvn(roots):
    """global value numbering: replace every real node by the oldest node with the same value number"""
    rep = {}
    memo = {}
    for n in topo(roots):
        k = [a for a in n.args if a.__class__ is N] if n.op != 'bits' else []
        if k:
            ch = [memo[a.id] for a in k]
            r = n if all(x is y for x, y in zip(ch, k)) else rebuild(n, ch)
        else: r = n
        if r.t == 'f' and r.op not in ('c', 'var'):
            h = rint.h(r)
            if None not in h:
                q = rep.get(h)
                if q is None: rep[h] = r
                else: r = q
        elif r.op == 'var':
            rep.setdefault(rint.h(r), r)
        memo[n.id] = r
    return [memo[r.id] for r in roots]


def compare(impl, spec, box, atol, rtol=0.0, filters=(), max_boxes=200000, budget=20.0, seed=1, max_parts=4000, nprobe=64, rel_floor=0.0,
            need_defined=True, ties=True):
    """decide |impl-spec| <= atol + rtol*|spec| on box"""
    res = Result()
    bud = Budget(budget)
    rnd = random.Random(seed)
    impl, spec = gvn([impl, spec])
    parts, over = partition([impl, spec], box, filters, max_parts, bud, ties)
    res.undecided += over
    if over: res.notes.append('partition limit: %d parts not refined' % over)
    res.parts = len(parts) + over
    left = sum(p is not None for p in parts)
    for p in parts:
        if p is None:
            res.undecided += 1
            continue
        if time.time() > bud.t + 2 * budget:
            res.undecided += 1
            continue
        a, b = p.roots
        if a is b or rint.equal(a, b, seed):
            if need_defined is False or True:
                res.proved += 1; res.identity += 1
            continue
        try: sh = shared(a, b, p.box, atol, rtol)
        except (OverflowError, ZeroDivisionError): sh = False
        if sh:
            res.proved += 1; res.byint += 1
            left -= 1
            continue
        st = bnb(a, b, p, atol, rtol, max_boxes, Budget(max(1.0, (bud.t - time.time()) / max(1, left))), rnd, res, nprobe)
        left -= 1
        if st == 'proved': res.proved += 1; res.byint += 1
        elif st == 'undecided': res.undecided += 1
        elif st == 'empty': res.empty += 1
        else:
            res.refuted = st
            return res
    return res


def hull(n, box, limit=1024):
    """range of n over box by subdivision"""
    n = NF.deep(n)
    vs = sorted(vars_of([n]))
    if any(v not in box for v in vs): return None
    LO = np.array([[box[v][0] for v in vs]]); HI = np.array([[box[v][1] for v in vs]])
    for _ in range(40):
        R, _ = evalg([n], {v: LO[:, i] for i, v in enumerate(vs)}, {v: HI[:, i] for i, v in enumerate(vs)}, vs, size=len(LO))
        r = R[n.id]
        if not vs or 2 * len(LO) > limit: break
        W = []
        for i in range(len(vs)):
            g = r.g[i] if r.g and r.g[i] is not None else (np.zeros(len(LO)), np.zeros(len(LO)))
            w = np.maximum(np.abs(g[0]), np.abs(g[1]))
            W.append(np.where(np.isnan(w) | np.isinf(w), 1e30, w) * (HI[:, i] - LO[:, i]))
        k = np.stack(W, 1).argmax(1); j = np.arange(len(LO))
        mid = 0.5 * (LO[j, k] + HI[j, k])
        L2, H2 = LO.copy(), HI.copy()
        H2[j, k] = mid
        LO = LO.copy(); LO[j, k] = mid
        LO = np.concatenate([LO, L2]); HI = np.concatenate([HI, H2])
    if (r.bad != 0).any(): return None
    return float(r.lo.min()), float(r.hi.max())


def shared(a, b, box, atol, rtol):
    """prove |a-b| small by replacing the non-polynomial values common to both sides by variables with their range"""
    a, b = gvn([a, b])
    ia = {n.id for n in topo([a])}; ib = {n.id for n in topo([b])}
    common = ia & ib
    env = {}
    bx = dict(box)
    seen = set()
    st = [a, b]
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.t != 'f' or n.op in ('c', 'var'): continue
        if n.id in common and n.op not in ('add', 'sub', 'mul', 'neg', 'div'):
            r = hull(n, box)
            if r is None or not (abs(r[0]) < 1e12 and abs(r[1]) < 1e12): return False
            v = '$sh%d' % n.id
            bx[v] = r
            env[n.id] = var(v)
            continue
        for x in n.args:
            if x.__class__ is N: st.append(x)
    if not env: return False
    a2, b2 = sub_all([a, b], env)
    d = NF.simp(fbin('sub', a2, b2, 'double'))
    if any(v not in bx for v in vars_of([d, b2])): return False
    l, h, bad = scalar_range(d, bx)
    bl, bh, bb = scalar_range(b2, bx)
    if bad: return False
    tol = atol + (0 if bb or bl <= 0 <= bh else rtol * min(abs(bl), abs(bh)))
    return max(abs(l), abs(h)) <= tol


def _tol(atol, rtol, lo, hi):
    mag = np.maximum(np.abs(lo), np.abs(hi))
    mig = np.where((lo <= 0) & (hi >= 0), 0.0, np.minimum(np.abs(lo), np.abs(hi)))
    return atol + rtol * mig, atol + rtol * np.where(np.isinf(mag), 1e300, mag)


def infeasible(fl, box):
    """sum pairs of filter constraints (zone-like closure); True when some pair cannot hold together"""
    cs = []
    for n, rel in fl:
        if rel in ('ge', 'gt', 'eq'): cs.append((n, rel == 'gt'))
        if rel in ('le', 'lt', 'eq'): cs.append((fneg(n), rel == 'lt'))
    if not cs or len(cs) > 14: return False
    for i in range(len(cs)):
        for j in range(i, len(cs)):
            s = cs[i][0] if i == j else NF.simp(fbin('add', cs[i][0], cs[j][0], 'double'))
            if any(v not in box for v in vars_of([s])): continue
            l, h, b = scalar_range(s, box)
            # enclosures are rounded outwards: a tiny positive bound still means zero
            if b == 0 and (h < 0 or (h <= 1e-300 and (cs[i][1] or cs[j][1]))): return True
    return False


def bnb(a, b, part, atol, rtol, max_boxes, bud, rnd, res, nprobe):
    fl = part.filters
    if fl and infeasible(fl, part.box): return 'empty'
    abstracted = any(v.startswith('$abs') for v in part.box)
    fn_ = [f[0] for f in fl]
    vs = sorted(vars_of([a, b] + fn_))
    box = part.box
    for v in vs:
        if v not in box: return 'undecided'
    if not vs:
        R, _ = evalg([a, b] + fn_, {}, {}, size=1)
        LO = np.zeros((1, 0)); HI = np.zeros((1, 0))
    d = fbin('sub', a, b, 'double')
    ds = NF.simp(NF.deep(d))
    roots = [a, b, d, ds] + fn_

    def ev(LO, HI, grad):
        lo = {v: LO[:, i] for i, v in enumerate(vs)}
        hi = {v: HI[:, i] for i, v in enumerate(vs)}
        return evalg(roots, lo, hi, vs if grad else None, size=len(LO))

    def classify(LO, HI, R, extra=None):
        ra, rb, rd, rs = R[a.id], R[b.id], R[d.id], R[ds.id]
        dl, dh = np.maximum(rd.lo, rs.lo), np.minimum(rd.hi, rs.hi)
        if extra is not None:
            dl = np.maximum(dl, extra[0]); dh = np.minimum(dh, extra[1])
        tmin, tmax = _tol(atol, rtol, rb.lo, rb.hi)
        pos, cer = filter_state(fl, R) if fl else (np.ones(len(LO), bool), np.ones(len(LO), bool))
        mig = np.where((dl <= 0) & (dh >= 0), 0.0, np.minimum(np.abs(dl), np.abs(dh)))
        mag = np.maximum(np.abs(dl), np.abs(dh))
        ok = (mag <= tmin) & (ra.bad == 0)
        if abstracted: cer = np.zeros(len(LO), bool)
        wrong = cer & (rb.bad == 0) & (((mig > tmax) & (ra.bad == 0)) | (ra.bad == 2))
        return pos, ok, wrong, dl, dh

    def witness(LO, HI, R, i, dl, dh):
        ra, rb = R[a.id], R[b.id]
        return dict(box={v: [float(LO[i, k]), float(HI[i, k])] for k, v in enumerate(vs)},
                    impl=[float(ra.lo[i]), float(ra.hi[i])] if ra.bad[i] != 2 else 'undefined (NaN or division by zero)',
                    spec=[float(rb.lo[i]), float(rb.hi[i])], diff=[float(dl[i]), float(dh[i])], tol=[atol, rtol], impl_node=a)
    # probes: thin boxes
    if vs:
        _, pts = probes({v: box[v] for v in vs}, nprobe, rnd)
        P0 = np.array(pts)
        bl = np.array([box[v][0] for v in vs]); bh = np.array([box[v][1] for v in vs])
        rad = 1e-12 * (bh - bl) + 1e-13 * np.abs(P0)
        LO = np.maximum(P0 - rad, bl); HI = np.minimum(P0 + rad, bh)
    else:
        LO = np.zeros((1, 0)); HI = LO
    R, _ = ev(LO, HI, False)
    pos, ok, wrong, dl, dh = classify(LO, HI, R)
    res.boxes += len(LO)
    if wrong.any():
        i = int(np.argmax(wrong))
        return witness(LO, HI, R, i, dl, dh)
    if not vs:
        return 'proved' if ok.all() else ('empty' if not pos.any() else 'undecided')
    LO = np.array([[box[v][0] for v in vs]]); HI = np.array([[box[v][1] for v in vs]])
    total = 0
    anypos = False
    slivers = 0
    while len(LO):
        if total > max_boxes or bud.over(): return 'undecided'
        # process in chunks
        if len(LO) > 20000:
            restL, restH = LO[20000:], HI[20000:]
            LO, HI = LO[:20000], HI[:20000]
        else: restL = restH = None
        total += len(LO)
        res.boxes += len(LO)
        R, _ = ev(LO, HI, True)
        MID = 0.5 * (LO + HI)
        Rm, _ = ev(MID, MID, False)
        g = R[d.id].g
        mdl, mdh = np.maximum(Rm[d.id].lo, Rm[ds.id].lo), np.minimum(Rm[d.id].hi, Rm[ds.id].hi)
        gs = R[ds.id].g
        W = []
        el, eh = mdl.copy(), mdh.copy()
        for i, v in enumerate(vs):
            rad = 0.5 * (HI[:, i] - LO[:, i]) * (1 + 1e-12)
            G = g[i] if g and g[i] is not None else (np.zeros(len(LO)), np.zeros(len(LO)))
            G2 = gs[i] if gs and gs[i] is not None else (np.zeros(len(LO)), np.zeros(len(LO)))
            gm = np.minimum(np.maximum(np.abs(G[0]), np.abs(G[1])), np.maximum(np.abs(G2[0]), np.abs(G2[1])))
            s = np.where(rad == 0, 0.0, gm * rad)
            el = el - s; eh = eh + s
            # splitting weight: sensitivity of either side
            ga = R[a.id].g; gb = R[b.id].g
            wa = sum(np.maximum(np.abs(q[i][0]), np.abs(q[i][1])) if q and q[i] is not None else 0.0 for q in (ga, gb))
            wa = np.where(np.isinf(wa) | np.isnan(wa), 1e30, wa) + 1e-9
            W.append(wa * (HI[:, i] - LO[:, i]))
        el = np.where(np.isnan(el), -INF, el); eh = np.where(np.isnan(eh), INF, eh)
        okm = (R[a.id].bad == 0) & (R[b.id].bad == 0)
        el = np.where(okm, el, -INF); eh = np.where(okm, eh, INF)
        pos, ok, wrong, dl, dh = classify(LO, HI, R, (el, eh))
        if wrong.any():
            i = int(np.argmax(wrong))
            return witness(LO, HI, R, i, dl, dh)
        anypos = anypos or bool(pos.any())
        keep = pos & ~ok
        W = np.stack(W, 1)[keep]
        L, H = LO[keep], HI[keep]
        if len(L):
            k = W.argmax(1)
            r = np.arange(len(L))
            l, h = L[r, k], H[r, k]
            m = 0.5 * (l + h)
            # geometric split near zero
            geo = (l >= 0) & (h > 0) & (l < h * 1e-3)
            m = np.where(geo, np.where(l > 0, np.sqrt(np.maximum(l, 1e-300) * np.maximum(h, 0)), h * 1e-3), m)
            tiny = (h - l) <= 4e-16 * np.maximum(np.abs(l), np.abs(h))
            if tiny.any():
                slivers += int(tiny.sum())
                if slivers > 50: return 'undecided'
                q = ~tiny
                L, H, k, m = L[q], H[q], k[q], m[q]
                r = np.arange(len(L))
            L2, H2 = L.copy(), H.copy()
            H2[r, k] = m
            L3, H3 = L.copy(), H.copy()
            L3[r, k] = m
            LO = np.concatenate([L2, L3]); HI = np.concatenate([H2, H3])
        else:
            LO = np.zeros((0, len(vs))); HI = LO
        if restL is not None:
            LO = np.concatenate([LO, restL]); HI = np.concatenate([HI, restH])
    if slivers: return 'undecided'
    return 'proved' if anypos else 'empty'
