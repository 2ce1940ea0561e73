from harness import *
from effects import islib
from loops import Loops, dominates, succs
import math
TEXT = ('Ranking arguments over the IR of every function of the header (emitted whether used or not, callees inlined): every natural loop must have an exit, passed on every iteration, that compares an induction '
        'variable of constant step with a loop-invariant bound not made from a float; every recursion must step an integer parameter towards a guard, or be the square-root iteration in the exact form for which '
        'convergence is established. A loop or recursion without such an argument is reported when constant propagation from definite arguments runs away in it, and is undecided otherwise.')
EXT = [math.nan, math.inf, -math.inf, 3.4028235e38, -3.4028235e38, 1e30, -1e30, 1e12, -1e12, 1e9, -1e9, 1e-45, -1e-45, 0.0, -0.0, 1e-38, 720.5, -720.5, 16777216.0, 3e7, -3e7, 1.0, 100.0, 6504.0]


def callees(f):
    out = set()
    for l in f.body:
        if 'call' in l or 'invoke' in l: out.update(re.findall(r'@"?([\w.$]+)"?\(', l))
    return out


def sccs(g):
    ix = {}; low = {}; st = []; on = set(); out = []
    for r in g:
        if r in ix: continue
        work = [(r, iter(g[r]))]
        ix[r] = low[r] = len(ix); st.append(r); on.add(r)
        while work:
            n, it = work[-1]
            for t in it:
                if t not in g: continue
                if t not in ix:
                    ix[t] = low[t] = len(ix); st.append(t); on.add(t)
                    work.append((t, iter(g[t])))
                    break
                if t in on: low[n] = min(low[n], ix[t])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == ix[n]:
                    c = []
                    while True:
                        x = st.pop(); on.discard(x); c.append(x)
                        if x == n: break
                    out.append(c)
    return out


def intrec(f):
    """direct recursion that steps an integer parameter by a constant under a guard on that parameter"""
    L = Loops(f)
    pn = [n for _, n in f.params]
    for b in f.order:
        for i in f.blocks[b]:
            if i.op not in ('call', 'invoke') or i.a[0] != ('glob', f.name): continue
            ok = False
            for k, (t, o) in enumerate(i.a[1]):
                if k >= len(pn) or f.params[k][0].k != 'int': continue
                s = L.step(o)
                if s is None or s[0] != ('loc', pn[k]) or not s[1]: continue
                # a dominating branch on the parameter
                x = b
                while True:
                    d = L.idom.get(x)
                    if d is None or d == x: break
                    t_ = f.blocks[d][-1]
                    if t_.op == 'br' and len(t_.a) == 3 and t_.a[0][0] == 'loc':
                        c = L.defs.get(t_.a[0][1])
                        side = dominates(L.idom, t_.a[1], b) and not dominates(L.idom, t_.a[2], b)
                        other = dominates(L.idom, t_.a[2], b) and not dominates(L.idom, t_.a[1], b)
                        if c is not None and c.op == 'icmp' and (side or other):
                            pred, p, q = c.a
                            if q == ('loc', pn[k]): p, q = q, p; pred = pred.translate(str.maketrans('lg', 'gl')) if pred not in ('eq', 'ne') else pred
                            if p == ('loc', pn[k]) and (q[0] == 'int' or q[0] == 'loc' and q[1] in pn):
                                if other: pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
                                if pred == 'ne' or (pred[1:] in ('gt', 'ge') and s[1] < 0) or (pred[1:] in ('lt', 'le') and s[1] > 0): ok = True
                    x = d
            if not ok: return False, i.dbg
    return True, None


def newton(m, name):
    """f(x,c,p) = c==p ? c : f(x, (c+x/c)/2, c) : converges for every pair of a finite non-negative x and the start (x,0)"""
    I = Interp(m); I.ctors()
    x, c, p = V('x'), V('c'), V('p')
    got = []; depth = [0]

    def cut(I_, a, loc):
        if depth[0] == 0:
            depth[0] = 1
            return NotImplemented
        got.append(a)
        return V('$rec').n
    I.cuts[name] = cut
    try: r = IP.call_named(I, name, [x.n, c.n, p.n], [None] * 3, type('i', (), dict(dbg=None))())
    except (Abstain, Fault, Dead, AttributeError, IndexError, TypeError): return False
    if len(got) != 1 or len(got[0]) != 3: return False
    a = got[0]
    if a[0] is not x.n or a[2] is not c.n: return False
    step = {((c + x / c) * 0.5).n, (0.5 * (c + x / c)).n, ((x / c + c) * 0.5).n, (0.5 * (x / c + c)).n, ((c + x / c) / 2.0).n, ((x / c + c) / 2.0).n}
    h = {rint.h(s) for s in step}
    if not (a[1] in step or rint.h(a[1]) in h): return False
    want = {select(eq(c.n, p.n), c.n, V('$rec').n), select(eq(c.n, p.n), p.n, V('$rec').n), select(eq(p.n, c.n), c.n, V('$rec').n)}
    return r in want


def check(cx):
    text = '#include <cstddef>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE -1\n#include "colorsystem.hpp"\n'
    mi = cx.module('header.cpp', flags=['-femit-all-decls', '-fno-exceptions'], text=text, optargs=['-inline-threshold=2000'],
                   opt='cgscc(inline),function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,sroa,loop-mssa(licm),gvn,simplifycfg)', keepall=True)
    m0 = cx.module('header.cpp', flags=['-femit-all-decls', '-fno-exceptions'], text=text)
    sus = []      # (function, location, what)
    nl = 0
    lib = sorted(n for n in mi.funcs if islib(n))
    names = dict(zip(lib, demangle_list(lib)))
    for n in lib:
        f = mi.funcs[n].decode()
        cx.stats['functions_analysed'].add(n)
        L = Loops(f)
        b = L.irreducible()
        if b is not None: sus.append((n, mi.loc(f.blocks[b][-1].dbg), 'a cycle that is not a structured loop'))
        for h in L.loops:
            nl += 1
            k, d = L.classify(h)
            loc = mi.loc(d)
            if not L.left(h):
                cx.violation('loop %d of %s' % (sorted(L.loops).index(h), names[n]), 'a loop that is never left: no branch or return leads out of it', [libline(mi, f, L.loops[h]) or loc])
                continue
            if k != 'counted' and 'colorsystem' not in (loc[0] or ''):
                L.lenient = True
                k = L.classify(h)[0]
                L.lenient = False
            if k == 'counted': cx.holds('loop %d of %s' % (sorted(L.loops).index(h), names[n]), 'counted', line=loc[1])
            else: sus.append((n, loc, 'a loop without a counter%s' % (', left on a floating-point condition' if k == 'float' else '')))
    lib0 = [n for n in m0.funcs if islib(n)]
    g = {n: callees(m0.funcs[n]) for n in m0.funcs}
    cx.extra['loops'] = nl
    nr = 0
    lem = []
    for comp in sccs(g):
        if len(comp) == 1 and comp[0] not in g[comp[0]]: continue
        comp = [c for c in comp]
        if not any(islib(c) for c in comp): continue      # recursion of the standard library (tree destructors and the like)
        nr += 1
        f = m0.funcs[comp[0]].decode()
        nm = demangle_list([comp[0]])[0]
        if len(comp) == 1:
            ok, d = intrec(f)
            if ok: cx.holds('recursion of %s' % nm, 'integer parameter stepped under a guard'); continue
            if newton(m0, comp[0]): lem.append((comp[0], m0.loc(d), 'a square-root iteration started outside the finite non-negative numbers', nm)); continue
        else: d = None
        loc = m0.loc(d) if d else ('include/colorsystem.hpp', 1, nm)
        for c in comp: sus.append((c, loc, 'a recursion without a decreasing integer'))
    cx.extra['recursions'] = nr
    cx.holds('%d loops and %d recursions enumerated in %d functions' % (nl, nr, len(lib)), 'enumeration')
    for fn_, loc, what, nm in lem:
        k = len(cx.claims)
        hunt(cx, [(fn_, loc, what)])
        if cx.claims[-1]['verdict'] == 'undecided':
            cx.claims.pop()
            cx.holds('recursion of %s' % nm, 'square-root iteration (lemma, see DESIGN.md); its callers never start it from NaN, infinity or a negative number in the definite arguments tried')
    if sus: hunt(cx, sus)


def libline(m, f, body):
    for b in f.order:
        if b in body:
            for i in f.blocks[b]:
                l = m.loc(i.dbg) if i.dbg else None
                if l and 'colorsystem' in (l[0] or ''): return l


def demangle_list(ns):
    r = subprocess.run(['c++filt'] + list(ns), capture_output=True, text=True) if len(ns) < 500 else subprocess.run(['c++filt'], input='\n'.join(ns), capture_output=True, text=True)
    return r.stdout.strip('\n').split('\n')


def hunt(cx, sus):
    m = cx.module('c28.cpp')
    g = {n: callees(f) for n, f in m.funcs.items()}
    roots = sorted(n for n in m.funcs if n.startswith('t_') or n.startswith('i_'))
    reach = {}
    for r in roots:
        s = {r}; st = [r]
        while st:
            for t in g.get(st.pop(), ()):
                if t not in s: s.add(t); st.append(t)
        reach[r] = s
    done = {}
    for fn_, loc, what in sus:
        t = 'termination of %s (line %s)' % (demangle_list([fn_])[0], loc[1])
        if (fn_, loc) in done: continue
        done[(fn_, loc)] = 1
        bad = None
        for r in roots:
            if fn_ not in reach[r]: continue
            bad = runaway(cx, m, r) if r.startswith('t_') else runaway_int(cx, m, r)
            if bad: break
        if bad: cx.violation(t, '%s: for arguments %s the call %s does not end (%s)' % (what, bad[1], bad[0], bad[2]), [loc] + ([bad[3]] if bad[3] else []))
        else: cx.undecided(t, '%s, and no definite arguments found on which it does not end' % what)


_memo = {}


def runaway(cx, m, root):
    if root in _memo: return _memo[root]
    typ = [0.3, 0.4, 0.35, 1.2, 0.31, 0.33, 0.9, 1.1, 0.7, 0.2, 0.6, 0.5]

    def one(v, budget):
        I = Interp(m, max_steps=budget)
        I.ctors()
        s0 = I.steps
        I.max_steps = s0 + budget
        p = Ptr(I.new(48, 'arguments', 'in'), 0)
        o = I.wobj(p.o)
        for i, x in enumerate(v): I.put(o, 4 * i, 4, C(f32(x)), None)
        q = Ptr(I.new(64, 'result', 'out'), 0)
        try: I.call(root, [p, q])
        except Abstain as e:
            if 'budget' in str(e): return 'more than %d steps' % budget, e.loc, I.steps - s0
            if 'recursion too deep' in str(e): return 'recursion deeper than 1200', e.loc, I.steps - s0
        except (Fault, Dead, RecursionError): pass
        finally: cx.stats['ir_instructions'] += I.steps
        return None, None, I.steps - s0
    r0 = one(typ, 3_000_000)
    budget = max(200_000, 20 * r0[2])
    vs = [[e] * 12 for e in EXT] + [typ[:i] + [e] + typ[i + 1:] for i in range(4) for e in EXT]
    if cx.deep: vs += [typ[:i] + [e] + typ[i + 1:] for i in range(4, 12) for e in EXT]
    t0 = time.time()
    _memo[root] = None
    for v in vs:
        r = one(v, budget)
        if r[0]: _memo[root] = (root[2:], str([f32(x) for x in v[:4]]), r[0], r[1]); break
        if time.time() - t0 > 60: break
    return _memo[root]


def runaway_int(cx, m, root):
    """the same for integer arguments: the steps allowed grow with the sizes involved"""
    if root in _memo: return _memo[root]

    def one(v, budget):
        I = Interp(m, max_steps=budget)
        I.ctors()
        s0 = I.steps
        I.max_steps = s0 + budget
        p = Ptr(I.new(12, 'arguments', 'in'), 0)
        for i, x in enumerate(v): I.put(I.wobj(p.o), 4 * i, 4, x & 0xffffffff, None)
        q = Ptr(I.new(64, 'result', 'out'), 0)
        try: I.call(root, [p, q])
        except Abstain as e:
            if 'budget' in str(e): return 'more than %d steps' % budget, e.loc, I.steps - s0
            if 'recursion too deep' in str(e): return 'recursion deeper than 1200', e.loc, I.steps - s0
        except (Fault, Dead, RecursionError): pass
        finally: cx.stats['ir_instructions'] += I.steps
        return None, None, I.steps - s0
    vs = [(n, c, x) for n in (0, 1, 5, 9) for c in sorted({0, 1, n // 2, n}) if c <= n for x in (0, 1, 2, 3, 4, 7, 8, 16, 300)]
    vs += [(9, 1, x) for x in (-1, -2, -300, -2147483647)] if root in ('i_getsub', 'i_align') else []
    vs += [(320, c, x) for c in (0, 1, 3) for x in (4, 300)] + ([(9, 3, 70000)] if root in ('i_getsub', 'i_putsub') else [])
    if root == 'i_getstr': vs = [v for v in vs if v[1] % 4 == 0]      # the length field must be a sensible one
    _memo[root] = None
    t0 = time.time()
    if root in ('i_rows', 'i_patch'):
        # the work grows in proportion to the rows: a tenfold size may not cost forty times as much
        for small, large in ((4, 12), (30, 300)) if root == 'i_rows' else ((3, 9), (10, 100)):
            r = one((0, 0, small), 6_000_000)
            v = (0, 0, small)
            if not r[0]:
                v = (0, 0, large)
                r = one(v, 200_000 + 40 * r[2])
            if r[0]: _memo[root] = (root[2:], '%d rows or patches' % v[2], r[0], r[1]); break
        return _memo[root]
    for v in vs:
        r = one(v, 30_000 + 2_000 * (v[0] + max(v[2], 0)) if v[2] < 1000 else 12_000_000)
        if r[0]: _memo[root] = (root[2:], 'size %d, cursor %d, argument %d' % v, r[0], r[1]); break
        if time.time() - t0 > 90: break
    return _memo[root]
