from harness import *
from c22 import vec, demangle_one
import random as _r
import consts
import mpmath
from mpmath import mpf
TEXT = ('Value graphs of the whole decomposition for symbolic matrices of the listed shapes and zero patterns. The traces are partitioned by the outcomes of the convergence tests '
        '(|element| + norm == norm): in every partition the elements taken as negligible are recorded with the factors of that moment, and the returned factors must satisfy '
        'U*W*V^T + dropped elements = A and V^T*V = I, U^T*U = I. Each identity between the value graphs is decided by random interpretation over the reals (90 digits, three sign regions).')
mpmath.mp.dps = 90
TINY = mpf(10) ** -55


class Point:
    """value numbers of graph nodes at one random point"""
    def __init__(self, seed):
        self.r = _r.Random(seed)
        self.scale = (mpf(1), mpf(10) ** -5, mpf(10) ** 5, mpf(10) ** -9, mpf(10) ** 9)[seed % 999 % 5]   # matrices of different magnitude
        self.memo = {}; self.vars = {}

    def var(self, nm):
        v = self.vars.get(nm)
        if v is None: v = self.vars[nm] = mpf(self.r.randrange(-10 ** 30, 10 ** 30)) / mpf(10) ** 30 * self.scale
        return v

    def zero(self, n): return abs(self(n)) < TINY

    def __call__(self, n):
        m = self.memo
        if n.id in m: return m[n.id]
        st = [n]
        while st:
            x = st[-1]
            if x.id in m: st.pop(); continue
            if x.op == 'sel':   # only the taken side
                c = x.args[0]
                if c.id not in m: st.append(c); continue
                y = x.args[1] if m[c.id] else x.args[2]
                if y.id not in m: st.append(y); continue
                m[x.id] = m[y.id]; st.pop(); continue
            todo = [a for a in x.args if a.__class__ is N and a.id not in m]
            if todo: st.extend(todo); continue
            m[x.id] = self.op(x, [m[a.id] if a.__class__ is N else a for a in x.args])
            st.pop()
        return m[n.id]

    def op(self, x, a):
        o = x.op
        if o == 'c':
            v = cv(x)
            if v != v or v in (math.inf, -math.inf): raise Abstain('not a finite number')
            return mpf(v)
        if o == 'var': return self.var(x.args[0])
        if o == 'add': return a[0] + a[1]
        if o == 'sub': return a[0] - a[1]
        if o == 'mul': return a[0] * a[1]
        if o == 'div':
            if abs(a[1]) < TINY: raise Abstain('division by zero')
            return a[0] / a[1]
        if o == 'neg': return -a[0]
        if o == 'sqrt':
            if a[0] < 0: raise Abstain('root of a negative number')
            return mpmath.sqrt(a[0])
        if o == 'lt': return a[1] - a[0] > TINY
        if o == 'le': return a[1] - a[0] > -TINY
        if o == 'eq': return abs(a[0] - a[1]) < TINY
        if o == 'not': return not a[0]
        if o == 'and': return a[0] and a[1]
        if o == 'or': return a[0] or a[1]
        if o == 'b': return bool(a[0])
        if o == 'copysign': return abs(a[0]) if a[1] >= 0 else -abs(a[0])
        raise Abstain('operation %s' % o)


def strip(t):
    """x of |x|"""
    if t.op == 'sel' and t.args[0].op == 'lt':
        a, b = t.args[1], t.args[2]
        if a.op == 'neg' and a.args[0] is b: return b
        if b.op == 'neg' and b.args[0] is a: return a
    if t.op == 'neg': return strip(t.args[0])
    return t


class Trace:
    """one trace partition: `script` fixes the outcomes of the first convergence tests, later ones are taken as converged"""
    def __init__(self, I, pt, script, budget, names):
        self.I = I; self.pt = pt; self.script = script; self.budget = budget
        self.out = []            # outcomes asked so far
        self.drops = []          # (value, U, V, position or None)
        self.loose = 0
        self.thr = set()         # thresholds of convergence tests
        self.abv = None
        for n in names: I.cuts[n] = self.enter
        I.oracle = self.ask

    def enter(self, I, a, loc):
        if len(a) != 3: raise Abstain('the decomposition has another interface')
        if self.abv is not None: raise Abstain('decomposition entered twice')
        self.abv = a
        return NotImplemented

    def mat(self, p):
        rb, nr = vec(self.I, p, 24)
        return [self.row(Ptr(rb.o, rb.off + 24 * i)) for i in range(nr)]

    def row(self, p):
        b, n = vec(self.I, p)
        return self.I.vals(b, n, 4, 'f')

    def objs(self, p, deep):
        if not deep: return {vec(self.I, p)[0].o}
        rb, nr = vec(self.I, p, 24)
        return {vec(self.I, Ptr(rb.o, rb.off + 24 * i))[0].o for i in range(nr)}

    def find(self, x, n):
        """index of x in a work vector of n elements"""
        known = self.objs(self.abv[0], True) | self.objs(self.abv[1], False) | self.objs(self.abv[2], True)
        hits = set()
        for oid, o in self.I.st.mem.items():
            if oid in known or o.kind not in ('heap', 'stack', 'alloca') or o.size < 4 * n or o.size > 64 * n: continue
            for off, c in o.cells.items():
                if c[1] is x and off // c[0] < n + 1: hits.add(off // c[0])
        return hits.pop() if len(hits) == 1 else None

    def ask(self, I, c, dbg):
        neg = False
        while c.op == 'not': c = c.args[0]; neg = not neg
        if self.abv is None: return None
        if c.op in ('lt', 'le'): return self.order(c, neg)
        if c.op != 'eq': return None
        v = self.pt(c)
        if v: return not neg
        a, b = c.args
        t = None
        for p, q in ((a, b), (b, a)):
            if p.op == 'add' and q in p.args: t = p.args[0] if p.args[1] is q else p.args[1]
        if t is None: return neg            # a test for zero: the generic outcome
        return self.test(strip(t), neg)

    def order(self, c, neg):
        """a convergence test written as |x| against a threshold made of symbols"""
        a, b = c.args
        for p, q, small in ((a, b, True), (b, a, False)):
            x = strip(p)
            if x is p or isc(q) or strip(q) is not q: continue
            if q.id not in self.thr:
                n = len(self.row(self.abv[1]))
                if any(y is x for y in self.row(self.abv[1])) or self.find(x, n) is not None: self.thr.add(q.id)
                else: continue
            return self.test(x, neg == small)
        return bool(self.pt(c)) != neg       # the region of the point

    def test(self, x, neg):
        """is x negligible: True if so, inverted by neg"""
        if self.pt.zero(x): return not neg
        w = self.row(self.abv[1])
        n = len(w)
        if any(y is x for y in w): return neg     # a diagonal element: not zero
        l = self.find(x, n)
        if l == 0: raise Abstain('element outside the bidiagonal')
        if l is None and self.loose: return neg
        if sum(1 for q, lo in self.out if lo is None) > 2 * n: raise Abstain('work vector of the bidiagonal form not identified')
        k = len(self.out)
        r = self.script[k] if k < len(self.script) else (True if l is not None else False)
        if l is not None and not r and sum(1 for q, lo in self.out if lo is not None and not q) >= self.budget: r = True
        self.out.append((r, l))
        if r:
            if l is None: self.loose += 1
            self.drops.append((x, self.mat(self.abv[0]), self.mat(self.abv[2]), None if l is None else (l - 1, l)))
        return r != neg


def patterns(M, n, deep):
    full = lambda i, j: 1
    P = [('full', full)]
    if n > 1: P += [('first column zero', lambda i, j: j > 0)]
    if n > 1: P += [('last column zero', lambda i, j: j < n - 1), ('diagonal', lambda i, j: i == j), ('upper triangular', lambda i, j: i <= j)]
    if n > 2: P += [('middle column zero', lambda i, j: j != 1)]
    if n > 2: P += [('bidiagonal with zero first', lambda i, j: j in (i, i + 1) and (i, j) != (0, 0)), ('bidiagonal with zero middle', lambda i, j: j in (i, i + 1) and (i, j) != (1, 1))]
    if n > 2 and deep: P += [('two columns zero', lambda i, j: j > 1)]
    return P


def paths(cx, md, M, n, pat, budget, cap, names, seed, scripts=((),)):
    """all trace partitions with at most `budget` unconverged tests"""
    todo = list(scripts); done = 0; seen = set()
    while todo and done < cap:
        script = todo.pop()
        I = Interp(md)
        pts = [Point(seed)]
        T = Trace(I, pts[0], list(script), budget, names)
        I.ctors()
        A = [[var('a%d_%d' % (i, j)) if pat(i, j) else C(0.0) for j in range(n)] for i in range(M)]
        pa = Ptr(I.new(4 * M * n, 'a', 'in'), 0)
        o = I.wobj(pa.o)
        for i in range(M):
            for j in range(n): I.put(o, 4 * (i * n + j), 4, A[i][j], None)
        pw = Ptr(I.new(4 * n, 'w', 'out'), 0); pv = Ptr(I.new(4 * n * n, 'v', 'out'), 0)
        pu = Ptr(I.new(4 * M * n, 'u', 'out'), 0)
        try: r = I.call('s_svdu', [pa, M, n, pu, pw, pv])
        finally:
            cx.stats['ir_instructions'] += I.steps; cx.stats['memory_accesses_checked'] += I.accesses; cx.stats['functions_analysed'] |= set(I.calls)
        key = tuple(T.out)
        for k in range(len(script), len(T.out)):
            r_, l = T.out[k]
            alt = tuple(q for q, _ in T.out[:k]) + (not r_,)
            if l is not None and r_ and sum(1 for q, lo in T.out[:k] if lo is not None and not q) >= budget: continue
            todo.append(alt)
        if key in seen: continue
        seen.add(key); done += 1
        g = lambda p, k: I.vals(p, k, 4, 'f')
        U = g(pu, M * n); W = g(pw, n); Vv = g(pv, n * n)
        yield T, pts, A, [U[i * n:i * n + n] for i in range(M)], W, [Vv[i * n:i * n + n] for i in range(n)], r


def label(T): return ' '.join(('-' if q else '+') + ('f' if l is None else str(l)) for q, l in T.out) or 'none'


def verify(T, pts, A, U, W, Vv, M, n):
    """None: the identities hold; text: they fail by more than float rounding; Abstain: they fail by less"""
    soft = [mpf(0)]
    FAIL = mpf(2) ** -20

    def over(x):
        x = abs(x)
        if x > mpf(10) ** -40: soft[0] = max(soft[0], x)
        return x > FAIL
    for x in W + [y for r in U for y in r] + [y for r in Vv for y in r]:
        if x.__class__ is not N: return 'a result is not written'
    for pt in pts:
        u = [[pt(x) for x in r] for r in U]; v = [[pt(x) for x in r] for r in Vv]; w = [pt(x) for x in W]
        for nm, m_, k in (('V^T*V', v, n), ('U^T*U', u, M)):
            for p in range(n):
                for q in range(p, n):
                    s = sum(m_[i][p] * m_[i][q] for i in range(k)) - (p == q)
                    if over(s): return '%s differs from the identity in element (%d,%d) by %s' % (nm, p, q, mpmath.nstr(s, 6))
        R = [[(sum(u[i][k] * w[k] * v[j][k] for k in range(n)) - pt(A[i][j])) / pt.scale for j in range(n)] for i in range(M)]
        open_ = []
        for x, Uc, Vc, pos in T.drops:
            uc = [[pt(y) for y in r] for r in Uc]; vc = [[pt(y) for y in r] for r in Vc]; xv = pt(x) / pt.scale
            if pos is None: open_.append((xv, uc, vc)); continue
            p, q = pos
            for i in range(M):
                for j in range(n): R[i][j] += xv * uc[i][p] * vc[j][q]
        worst = lambda D: max(((abs(D[i][j]), i, j) for i in range(M) for j in range(n)))
        bad = worst(R)
        if open_:
            xv, uc, vc = open_[0]
            bad = min([bad] + [worst([[R[i][j] + sg * xv * uc[i][p] * vc[j][q] for j in range(n)] for i in range(M)]) for p in range(n) for q in range(n) for sg in (1, -1)])
        if over(bad[0]): return 'U*W*V^T differs from the matrix in element (%d,%d) by %s of its magnitude beyond the dropped elements' % (bad[1], bad[2], mpmath.nstr(bad[0], 6))
        if any(x < -pt.scale * FAIL for x in w): return 'a singular value is negative'
    if soft[0]: raise Abstain('identities hold only to %s' % mpmath.nstr(soft[0], 3))
    return None


def check(cx):
    try: md = cx.module('c33.cpp')
    except CheckError as e:
        cx.undecided('decomposition', 'not available under its name: %s' % str(e)[:200]); return
    names = [f for f in list(md.funcs) if 'SOLVER' in f and demangle_one(f).startswith('ColorSystem::SOLVER::svdcmp(')]
    try: mp = cx.module('c33p.cpp')
    except CheckError as e: mp = None; cx.undecided('length and sign helpers', 'not available under these names: %s' % str(e)[:200])
    if mp:
        a, b = V('a'), V('b')
        for sc in (1e3, 1e15, 1e-12, 1e-24):
            R = cx.call(mp, 'c_pyth', [a.n, b.n], ('out', 1), title='PYTHAG')
            if R: 
                bx = dict(a=(-sc, sc), b=(-sc, sc))
                cx.claim('PYTHAG(a,b)^2 = a*a+b*b, values to %g' % sc, (E(R[0][0]) * E(R[0][0])).n, a * a + b * b, bx, 1e-9 * sc * sc, 1e-5, budget=4.0, max_boxes=20000)
                cx.claim('PYTHAG(a,b) is not negative, values to %g' % sc, sel(E(R[0][0]) < -1e-6 * sc, 1.0, 0.0).n, 0.0, bx, 0.5, budget=4.0, max_boxes=20000)
        for lo, hi, sg in ((1e-30, 1e3, 1), (-1e3, -1e-30, -1)):
            R = cx.call(mp, 'c_sign', [a.n, b.n], ('out', 1), title='DSIGN')
            if R: cx.claim('DSIGN(a,b) for %s b' % ('positive' if sg > 0 else 'negative'), R[0][0], sel(a < 0, -a, a) * sg, dict(a=(-1e3, 1e3), b=(lo, hi)), 1e-5, 1e-5, budget=4.0)
    shapes = [(1, 1, 0), (3, 1, 0), (2, 2, 2), (3, 2, 2), (3, 3, 3), (4, 3, 3), (4, 4, 3)]
    if cx.deep: shapes = [(1, 1, 0), (2, 1, 0), (5, 1, 0), (2, 2, 4), (3, 2, 3), (5, 2, 3), (3, 3, 5), (4, 3, 4), (6, 3, 3), (4, 4, 4), (5, 4, 4), (5, 5, 4)]
    tot = 0
    for M, n, budget in shapes:
        for pn, pat in patterns(M, n, cx.deep):
            if n == 4 and not cx.deep and pn not in ('full', 'first column zero'): continue
            t = 'decomposition %dx%d, %s' % (M, n, pn)
            k = 0; bad = None
            try:
                for T, pts, A, U, W, Vv, r in (q for s in range(5 if n < 4 else 3) for q in paths(cx, md, M, n, pat, budget, 400 if cx.deep else 60, names, cx.seed * 999 + s)):
                    k += 1
                    if T.abv is None: raise Abstain('decomposition not called under its name')
                    if r.__class__ is not int: raise Abstain('result not constant')
                    if r >> 31 & 1: raise Abstain('failure reported')
                    bad = verify(T, pts, A, U, W, Vv, M, n)
                    if bad:
                        cx.violation(t, 'in the case of convergence tests %s: %s' % (label(T), bad), cx.locs(W[0]) or cx.locs(U[0][0]))
                        break
            except Abstain as e: cx.undecided(t, 'analysis abstains: %s%s' % (e, cx.at(e.loc)))
            except Dead as e: cx.undecided(t, 'no result: %s' % e)
            except Fault as e: cx.undecided(t, '%s: %s' % (e.kind, e))
            else:
                if not bad: cx.holds(t, 'random interpretation', partitions=k)
            tot += k
    # many sweeps on one singular value
    for M, n in ((3, 3), (5, 5)):
        t = 'decomposition %dx%d, many sweeps' % (M, n)
        bad = None; k = 0
        try:
            for T, pts, A, U, W, Vv, r in paths(cx, md, M, n, lambda i, j: 1, 8 * n, 1, names, cx.seed * 999, [(False,) * (8 * n)]):
                if T.abv is None: raise Abstain('decomposition not called under its name')
                if r.__class__ is not int or r >> 31 & 1: raise Abstain('result not constant or failure')
                bad = verify(T, pts, A, U, W, Vv, M, n); k = len(T.out)
                if bad: cx.violation(t, 'in the case of convergence tests %s: %s' % (label(T), bad), cx.locs(W[0]) or cx.locs(U[0][0]))
        except Abstain as e: cx.undecided(t, 'analysis abstains: %s%s' % (e, cx.at(e.loc)))
        except Dead as e: cx.undecided(t, 'no result: %s' % e)
        except Fault as e: cx.undecided(t, '%s: %s' % (e.kind, e))
        else:
            if not bad: cx.holds(t, 'random interpretation', tests=k)
    # more columns: both sides of the constants in the code, few sweeps (none, the last block, all columns twice)
    ks, widths, fns = consts.constants(md, ['s_svdu'])
    ex = [x for x in consts.near({x for x in ks if x > 4}, 40, 4)]
    cx.extra['large_sizes'] = ex
    for n in sorted({9} | {x for x in ex if x <= 20} | ({14} if cx.deep else set())):
        for M in sorted({n, n + 3} | ({x for x in ex if x > n} if n == 9 else set())):
            for pn, pat in (('full', lambda i, j: 1), ('first column zero', lambda i, j: j > 0)):
                t = 'decomposition %dx%d, %s' % (M, n, pn)
                k = 0; bad = None
                try:
                    for sc in ((), (False,) * (n - 1), (False,) * (2 * n - 2), (False, False, True, False, True)):
                        for T, pts, A, U, W, Vv, r in paths(cx, md, M, n, pat, 2 * n - 2, 1, names, cx.seed * 999, [sc]):
                            k += 1
                            if T.abv is None: raise Abstain('decomposition not called under its name')
                            if r.__class__ is not int or r >> 31 & 1: raise Abstain('result not constant or failure')
                            bad = bad or verify(T, pts, A, U, W, Vv, M, n)
                            if bad:
                                cx.violation(t, 'in the case of convergence tests %s: %s' % (label(T), bad), cx.locs(W[0]) or cx.locs(U[0][0])); break
                        if bad: break
                except Abstain as e: cx.undecided(t, 'analysis abstains: %s%s' % (e, cx.at(e.loc)))
                except Dead as e: cx.undecided(t, 'no result: %s' % e)
                except Fault as e: cx.undecided(t, '%s: %s' % (e.kind, e))
                else:
                    if not bad: cx.holds(t, 'random interpretation', partitions=k)
                tot += k
    cx.extra['trace_partitions'] = tot
