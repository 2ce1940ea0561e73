from harness import *
import consts
from c18 import nodes
from c22 import vec, readvec, demangle_one
import fexplore as FE
import math
TEXT = ('Three analyses. (1) Value graphs of back-substitution and of the solver driver with symbolic matrices, the decomposition being replaced by a symbolic result, compared with V*diag(1/w)*U^T*b '
        'with small singular values dropped. (2) Abstract interpretation of the decomposition and the whole solver, callees inlined, integers and pointers exact and every float abstracted to constant / not NaN / '
        'anything, states joined on equal integer parts: every access of every reachable state is checked, for all data of the listed sizes. (3) Constant propagation from definite data to confirm a reported access.')
INL = dict(flags=['-fno-exceptions'], opt='cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,sroa,loop-mssa(licm),early-cse)', optargs=['-inline-threshold=10000000'])


class Svd:
    """stands for SOLVER::svdcmp: symbolic factors, given result"""
    def __init__(self, m, ret, fail, const=False, ws=None):
        self.const = const; self.ws = ws
        self.ret = ret; self.calls = 0; self.fail = fail
        self.names = [f for f in list(m.funcs) + list(m.decls) if 'SOLVER' in f and demangle_one(f).startswith('ColorSystem::SOLVER::svdcmp(')]

    def cuts(self): return {n: self.run for n in self.names}

    def run(self, I, a, loc):
        if len(a) != 3: raise Abstain('the decomposition has another interface')
        self.calls += 1
        if self.fail: return self.ret
        def mat(p, nm):
            rb, nr = vec(I, p, 24)
            for i in range(nr):
                b, n = vec(I, Ptr(rb.o, rb.off + 24 * i))
                o = I.wobj(b.o)
                for j in range(n): I.put(o, b.off + 4 * j, 4, C(float(i == j)) if nm == 'v' and self.const else V('%s%d_%d' % (nm, i, j)).n, None)
        mat(a[0], 'u'); mat(a[2], 'v')
        b, n = vec(I, a[1])
        o = I.wobj(b.o)
        for j in range(n): I.put(o, b.off + 4 * j, 4, V('w%d' % j).n if not self.const else C(self.ws[j] if self.ws else 1.0 + j), None)
        return self.ret


def signed(r): return r - (1 << 32) if r.__class__ is int and r >> 31 & 1 else r


def results(cx, md):
    """what the decomposition returns when it fails (fewer rows than columns) and when it succeeds"""
    bad, good = {0xffffffff}, {1}
    if md:
        try:
            bad = set()
            for M, n in ((1, 2), (2, 3)): bad |= {x & 0xffffffff for x in explore(cx, 's_svd', M, n, 20).results}
            good = {x & 0xffffffff for x in explore(cx, 's_svd', 2, 2, 20).results} - bad
        except (Abstain, Fault, CheckError, TypeError): bad, good = {0xffffffff}, {1}
    return sorted(bad)[:3], sorted(good)[:3]


def S(xs):
    r = xs[0]
    for x in xs[1:]: r = r + x
    return r


def check(cx):
    m = cx.module('c23.cpp')
    try: md = cx.module('c23d.cpp')
    except CheckError as e:
        md = None
        cx.undecided('back-substitution and decomposition as separate functions', 'not available under these names: %s' % str(e)[:200])
    sizes = [(1, 1), (2, 1), (2, 2), (3, 2), (3, 3)] + ([(4, 3), (4, 4), (5, 4)] if cx.deep else [])
    if md:
        for M, n in sizes + [(5, 1), (1, 2), (2, 3)]:
            U = [[V('u%d_%d' % (i, j)) for j in range(n)] for i in range(M)]; VV = [[V('v%d_%d' % (i, j)) for j in range(n)] for i in range(n)]
            w = [V('w%d' % j) for j in range(n)]; b = [V('b%d' % i) for i in range(M)]
            fl = lambda X_: nodes([e for r in X_ for e in r])
            t = 'back-substitution %dx%d' % (M, n)
            R = cx.call(md, 's_bksb', fl(U), M, n, nodes(w), fl(VV), nodes(b), ('out', n), title=t)
            if not R: continue
            tmp = [sel(eq(w[j].n, C(0.0)), E.of(0.0), S([U[i][j] * b[i] for i in range(M)]) / w[j]) for j in range(n)]
            for j in range(n):
                cx.claim('%s: x%d = row %d of V*diag(1/w)*U^T*b' % (t, j, j), R[0][j], S([VV[j][k] * tmp[k] for k in range(n)]), {'w%d' % k: (-3.0, 3.0) for k in range(n)}, 1e-4, budget=10.0)
        # one large size: all singular values in a range away from zero
        M, n = 12, 9
        U = [[V('u%d_%d' % (i, j)) for j in range(n)] for i in range(M)]; VV = [[V('v%d_%d' % (i, j)) for j in range(n)] for i in range(n)]
        b = [V('b%d' % i) for i in range(M)]
        w = [0.5 + 0.25 * j for j in range(n)]
        R = cx.call(md, 's_bksb', nodes([e for r in U for e in r]), M, n, [float(x) for x in w], nodes([e for r in VV for e in r]), nodes(b), ('out', n), title='back-substitution %dx%d' % (M, n))
        if R:
            tmp = [S([U[i][j] * b[i] for i in range(M)]) / w[j] for j in range(n)]
            for j in range(n): cx.claim('back-substitution %dx%d: x%d' % (M, n, j), R[0][j], S([VV[j][k] * tmp[k] for k in range(n)]), None, 1e-2, budget=10.0)
        # many rows and many columns, on both sides of the constants in the solver's own code
        ks, widths, fns = consts.constants(md, [f for f in md.funcs if f.startswith('s_')])
        ex = consts.near({k for k in ks if k > 12} | {1 << (w - 1) for w in widths}, 3000, 4)
        cx.extra['large_sizes'] = ex
        for M, n in [(k, 1) for k in ex + [40, 300]] + [(k, k) for k in ex + [34] if k <= 130]:
            U = [[V('u%d_%d' % (i, j)) for j in range(n)] for i in range(M)]
            b = [V('b%d' % i) for i in range(M)]
            R = cx.call(md, 's_bksb', nodes([e for r in U for e in r]), M, n, [1.0 + 0.5 * (j % 3) for j in range(n)], [float(i == j) for i in range(n) for j in range(n)], nodes(b), ('out', n), title='back-substitution %dx%d' % (M, n))
            if R:
                for j in sorted({0, n // 2, n - 1}): cx.claim('back-substitution %dx%d: x%d' % (M, n, j), R[0][j], S([U[i][j] * b[i] for i in range(M)]) / (1.0 + 0.5 * (j % 3)), None, 1e-2, budget=10.0)
    # the driver with a symbolic decomposition
    bad, good = results(cx, md)
    for ret in bad:
        for M, n in ((2, 2), (3, 2)):
            Sv = Svd(m, ret, True)
            t = 'failure %d of the decomposition, %dx%d' % (signed(ret), M, n)
            R = cx.call(m, 's_solve', ('in', 'a', M * n), M, n, ('in', 'b', M), nodes([V('q%d' % i) for i in range(n)]), V('tol'), cuts=Sv.cuts(), title=t)
            if not R: continue
            if not Sv.calls: cx.undecided(t, 'decomposition not called under its name'); continue
            r = signed(R[-1])
            if r.__class__ is not int: cx.undecided(t, 'result not constant')
            else: cx.expect('%s is reported as a negative result' % t, r < 0, 'the driver returns %d although the decomposition failed' % r, how='constant propagation')
    ks, widths, fns = consts.constants(m, ['s_solve'])
    ex = [k for k in consts.near({k for k in ks if k > 9} | {1 << (w - 1) for w in widths}, 300, 4)]
    for ret in good:
        cases = [(M, n, None) for M, n in [(k, 1) for k in ex + [70]] + [(k, k) for k in ex + [20, 40, 96] if k <= 130]]
        # the largest singular value at either end or in the middle, its neighbour below a quarter of it
        for M, n in [(9, 9), (12, 9)] + [(k, k) for k in ex + [20] if k <= 130]:
            for k in sorted({0, 1, n // 2, n - 2, n - 1}): cases.append((M, n, [8.0 if j == k else 1.0 if j == (k + 1) % n else 4.0 for j in range(n)]))
        for M, n, ws in cases:
            Sv = Svd(m, ret, False, True, ws)
            t = 'driver %dx%d, decomposition result %d%s' % (M, n, ret, '' if not ws else ', largest singular value %d' % ws.index(8.0))
            I = Interp(m)
            I.cuts.update(Sv.cuts()); I.ctors()
            px = I.input('q', n); pa = I.input('a', M * n); pb = I.input('b', M)
            try: r = I.call('s_solve', [pa, M, n, pb, px, C(0.25 if ws else 0.0)])
            except (Abstain, Dead) as e: cx.undecided(t, 'analysis abstains: %s' % e); continue
            except Fault as e: cx.violation(t, '%s: %s' % (e.kind, e), [e.loc]); continue
            finally: cx.stats['ir_instructions'] += I.steps; cx.stats['memory_accesses_checked'] += I.accesses
            if Sv.calls != 1: cx.undecided(t, 'decomposition called %d times under its name' % Sv.calls); continue
            r = signed(r)
            if r.__class__ is not int: cx.undecided(t, 'result not constant'); continue
            cx.expect('%s reports success' % t, r >= 0, 'returns %d' % r, how='constant propagation')
            if r < 0: continue
            out = I.vals(px, n); b = [E(x) for x in I.vals(pb, M)]
            for j in sorted({0, n // 2, n - 1}) if not ws else range(n) if n < 12 else sorted({ws.index(8.0), ws.index(1.0), 2, n - 3}):
                cx.claim('%s: x%d' % (t, j), out[j], S([V('u%d_%d' % (i, j)) * b[i] for i in range(M)]) / (ws[j] if ws else 1.0 + j) if not ws or ws[j] > 2 else 0.0, None, 1e-2, budget=10.0)
    for ret in good:
        for M, n in sizes:
            for how in ('tol', 'default'):
                Sv = Svd(m, ret, False)
                tol = V('tol') if how == 'tol' else E.of(f32(1e-5))
                t = 'driver %dx%d %s tolerance, decomposition result %d' % (M, n, how, ret)
                keep = []
                xs = [V('q%d' % i) for i in range(n)]
                args = [('in', 'a', M * n), M, n, ('in', 'b', M), ('in', 'q', n)] + ([V('tol')] if how == 'tol' else [])
                I = Interp(m)
                I.cuts.update(Sv.cuts()); I.ctors()
                px = I.input('q', n)
                pa = I.input('a', M * n); pb = I.input('b', M)
                try: r = I.call('s_solve' if how == 'tol' else 's_solve0', [pa, M, n, pb, px] + ([V('tol').n] if how == 'tol' else []))
                except (Abstain, Dead) as e: cx.undecided(t, 'analysis abstains: %s' % e); continue
                except Fault as e: cx.violation(t, '%s: %s' % (e.kind, e), [e.loc]); continue
                finally:
                    cx.stats['ir_instructions'] += I.steps; cx.stats['memory_accesses_checked'] += I.accesses; cx.stats['functions_analysed'] |= set(I.calls)
                if Sv.calls != 1: cx.undecided(t, 'decomposition called %d times under its name' % Sv.calls); continue
                r = signed(r)
                if r.__class__ is not int: cx.undecided(t, 'result not constant'); continue
                cx.expect('%s reports success' % t, r >= 0, 'returns %d' % r, how='constant propagation')
                out = I.vals(px, n)
                b = [V('b%d' % i) for i in range(M)] if False else [E(x) for x in I.vals(pb, M)]
                w = [V('w%d' % j) for j in range(n)]
                mx = E.of(0.0)
                for x in w: mx = sel(x > mx, x, mx)
                th = tol * mx
                tmp = [sel(or_(w[j] < th, eq(w[j].n, C(0.0))), E.of(0.0), S([V('u%d_%d' % (i, j)) * b[i] for i in range(M)]) / w[j]) for j in range(n)]
                box = {'w%d' % j: (0.0, 4.0) for j in range(n)}; box['tol'] = (0.0, 2.5)
                for j in range(n):
                    cx.claim('%s: x%d is the solution without the small singular values' % (t, j), out[j], S([V('v%d_%d' % (j, k)) * tmp[k] for k in range(n)]), box, 1e-4, budget=10.0)
    # too few equations
    for M, n in ((1, 2), (2, 3), (1, 9), (5, 9), (8, 9), (3, 4)):
        t = '%d equations, %d unknowns' % (M, n)
        R = cx.call(m, 's_solve', ('in', 'a', M * n), M, n, ('in', 'b', M), nodes([V('q%d' % i) for i in range(n)]), V('tol'), title=t, soft=True)
        if not R: continue
        if R[0] in ('fault', 'dead'):
            e = R[1]
            cx.violation(t, 'does not report failure: %s' % e, [e.loc] if e.loc else []); continue
        r = signed(R[-1])
        if r.__class__ is not int: cx.undecided(t, 'result not constant')
        else: cx.expect('%s is reported as failure' % t, r < 0, 'returns %d' % r, how='constant propagation')
    # accesses for all data
    bounds(cx)


DATA = {
    'all NaN': lambda i, j, n: math.nan,
    'one NaN first': lambda i, j, n: math.nan if (i, j) == (0, 0) else float(i + 2 * j + 1),
    'one NaN last': lambda i, j, n: math.nan if j == n - 1 and i == j else float((i * 7 + j * 3) % 5 + (i == j)),
    'zeros': lambda i, j, n: 0.0,
    'ones': lambda i, j, n: 1.0,
    'identity': lambda i, j, n: float(i == j),
    'generic': lambda i, j, n: float((i * 7 + j * 5 + i * j) % 11) - 4.0 + (3.0 if i == j else 0.0),
    'infinite': lambda i, j, n: math.inf,
    'one infinite': lambda i, j, n: math.inf if i == j == n - 1 else float(i + j),
    'huge': lambda i, j, n: 3e38 * (1 if (i + j) % 2 else -1),
    'tiny': lambda i, j, n: 1e-45 * (i + j),
    'rank one': lambda i, j, n: float((i + 1) * (j + 1)),
    'zero column': lambda i, j, n: 0.0 if j == 0 else float((i * 5 + j * 3) % 7),
    'nilpotent': lambda i, j, n: float(j == i + 1),
    'zero pivot': lambda i, j, n: float(j == i + 1) + 2.0 * float(i == j and i % 2),
}


def explore(cx, fn_, M, n, seconds):
    m = cx.module('c23d.cpp' if fn_ == 's_svd' else 'c23.cpp', **INL)
    X_ = FE.Explorer(m, fn_, max_seconds=seconds)
    I = X_.I

    def arr(k, nm):
        p = Ptr(I.new(4 * k, nm, 'in'), 0)
        o = I.wobj(p.o)
        for i in range(k): I.put(o, 4 * i, 4, FE.AF(False), None)
        return p
    if fn_ == 's_svd': args = [arr(M * n, 'a'), M, n, arr(n, 'w'), arr(n * n, 'v')]
    else: args = [arr(M * n, 'a'), M, n, arr(M, 'b'), arr(n, 'x'), FE.AF(True)]
    try: X_.run(args)
    finally:
        cx.stats['ir_instructions'] += I.steps; cx.stats['memory_accesses_checked'] += I.accesses
        cx.extra['joined_states'] = cx.extra.get('joined_states', 0) + len(X_.recs)
    return X_


def confirm(cx, M, n, only=None):
    """definite data on which the solver really leaves its matrices"""
    m = cx.module('c23.cpp')
    for nm, g in DATA.items():
        I = Interp(m, max_steps=3_000_000)
        I.ctors()
        def arr(vals):
            p = Ptr(I.new(4 * len(vals), 'data', 'in'), 0)
            o = I.wobj(p.o)
            for i, v in enumerate(vals): I.put(o, 4 * i, 4, C(f32(v)), None)
            return p
        a = arr([g(i, j, n) for i in range(M) for j in range(n)])
        b = arr([1.0 + i for i in range(M)]); x = arr([0.0] * n)
        try: I.call('s_solve', [a, M, n, b, x, C(f32(1e-5))])
        except Fault as e:
            if e.kind in ('bounds', 'deref', 'use-after-free', 'free'): return nm, e
        except (Abstain, Dead): pass
        finally: cx.stats['ir_instructions'] += I.steps
    return None


def bounds(cx):
    szs = [(1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3), (2, 3), (5, 4)]
    if cx.deep: szs += [(6, 5), (4, 4), (6, 6), (7, 3), (9, 9), (12, 9)]
    for M, n in szs:
        t = 'accesses of the solver for all data, %dx%d' % (M, n)
        try:
            X_ = explore(cx, 's_solve', M, n, 60 if not cx.deep else 900)
            cx.holds(t, 'exact integers, abstract floats', states=len(X_.recs), blocks=X_.blocks_run)
        except Abstain as e:
            cx.undecided(t, 'exploration abstains: %s' % e); e_ = None
            c = confirm(cx, M, n) if M * n <= 20 else None
            if c: cx.violation(t, 'for %s data: %s: %s' % (c[0], c[1].kind, c[1]), [c[1].loc])
        except Fault as e:
            c = confirm(cx, M, n)
            if c: cx.violation(t, 'for %s data: %s: %s' % (c[0], c[1].kind, c[1]), [c[1].loc])
            else: cx.undecided(t, 'possible %s: %s%s, no definite data found' % (e.kind, e, cx.at(e.loc)))
