from harness import *
from c01 import inv
import consts
import lzma, struct
import numpy as np
from c18 import nodes, tot
TEXT = ('Value graph of Corrector::solve with symbolic patches and targets, cut at the call of the linear solver: the matrix and right-hand side handed over are read as a set of '
        'equations (trivial 0=0 rows dropped) and compared with the required equations by value numbering; the solver result is symbolic and must come back row by row. '
        'Macbeth::reference is compared with the observer integrals for a symbolic light.')


def vec(I, p, es=4):
    """contents of a std::vector<float> object at p"""
    b = I.load(p, ir.PTR, None); e = I.load(Ptr(p.o, p.off + 8), ir.PTR, None)
    n = (e.off - b.off) // es if b.o == e.o else 0
    return b, n


def readvec(I, p):
    b, n = vec(I, p)
    return I.vals(b, n, 4, 'f') if n else []


class Solver:
    """stands for SOLVER::solve: records A and b, writes a symbolic x"""
    def __init__(self, m):
        self.calls = []
        self.names = [f for f in list(m.funcs) + list(m.decls) if 'SOLVER' in f and demangle_one(f).startswith('ColorSystem::SOLVER::solve(')]

    def cuts(self): return {n: self.run for n in self.names}

    def run(self, I, a, loc):
        rb, nr = vec(I, a[0], 24)
        A = [readvec(I, Ptr(rb.o, rb.off + 24 * i)) for i in range(nr)]
        b = readvec(I, a[1])
        self.calls.append((A, b))
        xb, n = vec(I, a[2])
        o = I.wobj(xb.o)
        for i in range(n): I.put(o, xb.off + 4 * i, 4, V('x%d' % i).n, None)
        return 0


def demangle_one(n):
    r = subprocess.run(['c++filt', n], capture_output=True, text=True)
    return r.stdout.strip()


def eqs(cx, title, A, b, want):
    """the rows of (A,b) are exactly the wanted equations; want: list of (9 coefficients, rhs)"""
    zero = lambda v: v.__class__ is N and isc(v) and cv(v) == 0
    rows = []
    for i, r in enumerate(A):
        if i >= len(b): cx.violation(title, 'row %d has no right-hand side' % i); return
        full = list(r) + [b[i]]
        if any(v is UNDEF or v.__class__ is not N for v in full): cx.violation(title, 'row %d of the system is not initialised' % i); return
        if all(zero(v) for v in full): continue
        rows.append(full)
    key = lambda r: tuple(rint.h(v) for v in r)
    got = {}
    for r in rows: got[key(r)] = got.get(key(r), 0) + 1
    need = {}
    for c, t in want:
        k = key(nodes(list(c) + [t])); need[k] = need.get(k, 0) + 1
    if got == need:
        cx.holds(title, 'value numbering', equations=len(want)); return
    # a definite difference: constant-free comparison of the linear forms
    miss = [k for k in need if need[k] != got.get(k, 0)]
    extra = [r for r in rows if need.get(key(r), 0) != got[key(r)]]
    if any(vars_of([v for v in r if v.__class__ is N]) is None for r in extra): cx.undecided(title, 'rows not comparable'); return
    poly = all(v.op in ('c', 'var', 'mul', 'add', 'sub', 'neg', 'div') for r in extra for v in topo(r))
    msg = '%d required equations missing or repeated, %d other rows present, e.g. %s' % (len(miss), len(extra), ', '.join(X.show(v) for v in extra[0]) if extra else 'none')
    if poly: cx.violation(title, msg); return
    w = point_mismatch(rows, [nodes(list(c) + [t]) for c, t in want], cx.seed)
    if w: cx.violation(title, 'for patches and targets %s: %s' % w, cx.locs(extra[0][0]) if extra and extra[0][0].__class__ is N else ())
    else: cx.undecided(title, msg)


def point_mismatch(rows, want, seed, n=64):
    """a required equation that certainly matches no row of the system, at some float point (all enclosures inflated by rounding)"""
    vs = sorted(vars_of([v for r in rows + want for v in r]))
    _, P = D.wide_probes({v: (-1e3, 1e3) for v in vs}, n, random.Random(seed + 3))
    P = np.array(P)
    x = {v: P[:, i] for i, v in enumerate(vs)}
    roots = [v for r in rows + want for v in r]
    R, _ = D.evalg(roots, x, x, size=n, u=1e-6)
    lo = lambda r: np.stack([np.broadcast_to(R[v.id].lo, (n,)) for v in r]); hi = lambda r: np.stack([np.broadcast_to(R[v.id].hi, (n,)) for v in r])
    bad = lambda r: np.stack([np.broadcast_to(R[v.id].bad, (n,)) for v in r])
    G = [(lo(r), hi(r), bad(r)) for r in rows]
    for k, r in enumerate(want):
        l, h = lo(r), hi(r)
        can = np.zeros(n, bool)
        for gl, gh, gb in G:
            apart = (gl > h + 1e-4 * np.abs(h)) | (gh < l - 1e-4 * np.abs(l))
            can |= ~((apart & (gb == 0)).any(0))
        if not can.all():
            i = int(np.argmin(can))
            near = [X.show(v) for v in r]
            return {v: float(P[i, j]) for j, v in enumerate(vs) if any(v == q for q in vars_of(r))}, 'no row of the system is the required equation %s' % ', '.join(near)
    return None


def wanted(P, T):
    out = []
    for p, t in zip(P, T):
        for c in range(3): out.append(([0.0] * (3 * c) + list(p) + [0.0] * (6 - 3 * c), t[c]))
    return out


def tri(xs): return [xs[i:i + 3] for i in range(0, len(xs), 3)]


def check(cx):
    m = cx.module('c22.cpp')
    xs = [V('x%d' % i) for i in range(9)]
    sizes = [(1, 1), (2, 2), (3, 3), (4, 4), (5, 3), (3, 5), (1, 0), (0, 1), (0, 0), (24, 24), (7, 2), (2, 7), (24, 25), (30, 24)]
    if cx.deep: sizes += [(n, k) for n in range(0, 12) for k in range(0, 12)] + [(60, 61), (100, 100)]
    ks, widths, fns = consts.constants(m, ['c_solve'])
    ex = consts.near({k for k in ks if 9 < k} | {1 << (w - 1) for w in widths}, 300, 4)
    sizes += [(n, n) for n in ex if (n, n) not in sizes] + [(40, 40), (72, 72)]
    cx.extra['sizes'] = sizes
    for n, k in sizes:
        p = [V('p%d' % i) for i in range(3 * n)]; t = [V('t%d' % i) for i in range(3 * k)]
        S = Solver(m)
        ti = '%d patches, %d targets' % (n, k)
        R = cx.call(m, 'c_solve', nodes(p) or [0.0], n, nodes(t) or [0.0], k, ('out', 9), cuts=S.cuts(), title='Corrector::solve ' + ti)
        if not R: continue
        if len(S.calls) != 1: cx.undecided('Corrector::solve ' + ti, 'solver called %d times' % len(S.calls)); continue
        A, b = S.calls[0]
        eqs(cx, 'equations of %s' % ti, A, b, wanted(tri(p), tri(t)))
        cx.claims_vec('solution returned row by row, %s' % ti, R[0], xs, None, 1e-6)
    # chart reference
    l = [V('l%d' % i) for i in range(400)]
    bl = {'l%d' % i: (0.0, 2.0) for i in range(400)}
    names = json.load(open(os.path.join(ROOT, 'data', 'tables.json')))
    raw = lzma.decompress(open(os.path.join(ROOT, 'data', 'tables.bin.xz'), 'rb').read())
    ref = {nm: np.array(struct.unpack_from('<400f', raw, 1600 * i)) for i, nm in enumerate(names)}
    mac = [nm for nm in names if nm.startswith('Mac')]

    def refspec(i, ob, light):
        out = []
        for c in 'XYZ':
            w = ref[mac[i]] * ref['%s_%s' % (ob, c)]
            s = float(ref['%s_%s' % (ob, c)].sum())
            out.append([float(v) / s for v in w])
        return out
    refs = {}
    for fn_, ob in (('c_ref', 'CIE2012'), ('c_ref0', 'CIE1931')):
        R = cx.call(m, fn_, nodes(l), ('out', 72), ('out', 1, 'i32'), title='Macbeth::reference ' + ob)
        if not R: continue
        refs[ob] = R[0]
        cx.expect('Macbeth::reference %s has 24 entries' % ob, R[1][0] == 24, 'has %r' % (R[1][0],), how='constant propagation')
        for i in range(24):
            sp = refspec(i, ob, l)
            for c in range(3): linear(cx, 'Macbeth::reference %s patch %d %s' % (ob, i, 'XYZ'[c]), R[0][3 * i + c], l, sp[c])
    # default targets
    n = 24
    p = [V('p%d' % i) for i in range(3 * n)]
    np_ = n
    for n, fn_, ar, ob in [(k, 'c_chart', (nodes(l),), 'CIE2012') for k in (1, 23, 25, 48)] + [(k, 'c_gamut', (nodes(l),), 'CIE2012') for k in (3, 25)] + [(np_,) + q for q in (('c_chart', (nodes(l),), 'CIE2012'), ('c_gamut', (nodes(l),), 'CIE2012'), ('c_chart0', (), 'CIE1931'), ('c_gamut0', (), 'CIE1931'))]:
        S = Solver(m)
        p = [V('p%d' % i) for i in range(3 * n)]
        R = cx.call(m, fn_, nodes(p), n, *ar, ('out', 21 if fn_ == 'c_gamut' else 18 if fn_ == 'c_gamut0' else 9), cuts=S.cuts(), title='%s of %d patches' % (fn_[2:], n))
        if not R or len(S.calls) != 1 or ob not in refs: continue
        A, b = S.calls[0]
        tg = [E(v) for v in refs[ob]]
        if ob == 'CIE1931':
            d65 = {V('l%d' % i).n.id: C(float(v)) for i, v in enumerate(ref['CIE_D65'])}
            tg = [E(subst(v.n, d65)) for v in tg]
            # constants carry rounding: compare approximately
            bb = [cv(v) for v in b if v.__class__ is N and isc(v)][:72]
            ok = len(bb) == 72 and all(abs(x - cv(t.n)) <= 1e-4 * abs(x) + 1e-5 for x, t in zip(bb, tg)) if all(isc(t.n) for t in tg) else None
            if ok is None: cx.undecided('default light and observer of %s' % fn_[2:], 'not constant')
            else: cx.expect('default light of %s is D65, default observer CIE1931' % fn_[2:], ok, 'targets are not the CIE1931 colours of the chart under D65', how='constant propagation')
        else:
            eqs(cx, 'equations of %s of %d patches with a chart light' % (fn_[2:], n), A, b, wanted(tri(p), tri(tg)))
        if 'gamut' in fn_:
            # the solution maps a patch to its XYZ
            bx = {'x%d' % i: (1.0, 2.0) if i % 4 == 0 else (-0.2, 0.2) for i in range(9)}
            kw = dict(box=bx, wide={k: (-1e3, 1e3) for k in bx}, atol=1e-4, rtol=1e-4, budget=6.0, max_boxes=4000)
            cx.claims_vec('%s of %d patches: its XYZ to RGB matrix is the inverse of the solution' % (fn_[2:], n), R[0][:9], inv(xs), **kw)
            cx.claims_vec('%s of %d patches: its RGB to XYZ matrix is the solution' % (fn_[2:], n), R[0][9:18], xs, **kw)


def linear(cx, title, node, vs, co):
    """node is the linear form sum co[i]*vs[i] (coefficients within 1e-4 of the largest): coefficients read off by differentiating the graph"""
    lf = linform(node)
    if lf is None:
        sp = None
        for v, c in zip(vs, co): sp = v * c if sp is None else sp + v * c
        cx.claim(title, node, sp, {v.n.args[0]: (0.0, 2.0) for v in vs}, 1e-3, 1e-3, wide={v.n.args[0]: (-100.0, 100.0) for v in vs}, hunt=1e-3, max_boxes=2000, budget=4.0)
        return
    tol = 1e-4 * max(abs(c) for c in co)
    for v, c in zip(vs, co):
        g = lf.get(v.n.args[0], 0.0)
        if abs(g - c) > tol:
            cx.violation(title, 'weight of sample %s is %g, should be %g' % (v.n.args[0], g, c), cx.locs(node)); return
    extra = [k for k in lf if k not in {v.n.args[0] for v in vs} and k != '' and lf[k]]
    if extra or abs(lf.get('', 0.0)) > tol: cx.violation(title, 'depends on %s' % (extra or 'a constant'), cx.locs(node)); return
    cx.holds(title, 'linear form', weights=len(co))


def linform(root):
    import numpy as np
    memo = {}
    names = sorted(vars_of([root]))
    ix = {v: i for i, v in enumerate(names)}
    k = len(names)
    for n in topo([root]):
        if n.op == 'c': r = np.zeros(k + 1); r[k] = cv(n)
        elif n.op == 'var': r = np.zeros(k + 1); r[ix[n.args[0]]] = 1.0
        else:
            ch = [memo.get(a.id) for a in n.args if a.__class__ is N]
            if any(c is None for c in ch): return None
            cst = lambda c: not c[:k].any()
            if n.op == 'add': r = ch[0] + ch[1]
            elif n.op == 'sub': r = ch[0] - ch[1]
            elif n.op == 'neg': r = -ch[0]
            elif n.op == 'mul' and cst(ch[0]): r = ch[0][k] * ch[1]
            elif n.op == 'mul' and cst(ch[1]): r = ch[1][k] * ch[0]
            elif n.op == 'div' and cst(ch[1]) and ch[1][k]: r = ch[0] / ch[1][k]
            else: return None
        memo[n.id] = r
    r = memo[root.id]
    out = {v: float(r[ix[v]]) for v in names}
    out[''] = float(r[k])
    return out
