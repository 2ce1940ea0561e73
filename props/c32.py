from harness import *
import nf as NF
import math
TEXT = ('The recursion of the constexpr square root is cut into one symbolic step: it must stop only at a value the step leaves unchanged, and the step must leave exactly '
        'sqrt(x) unchanged (normal form of step(x,s)-s proportional to x-s^2). Constant propagation from boundary values of every binary exponent checks convergence.')


def selfrec(m):
    out = set()
    for name, f in m.funcs.items():
        if not name.startswith('_ZN11ColorSystem') or not any(name in l for l in f.body): continue
        f.decode()
        for b in f.blocks.values():
            for ins in b:
                if ins.op in ('call', 'invoke') and ins.a[0] == ('glob', name): out.add(name)
    return sorted(out)


FMAX = (2 - 2.0 ** -23) * 2.0 ** 127


def check(cx):
    m = cx.module('c16.cpp')
    # constants
    xs = [0.0, 1.0, 4.0, 0.25, 2.0, 3.0, 1e-10, 3.4e38, f32(1.17549435e-38), 2.0 ** -149, 3 * 2.0 ** -149, FMAX, f32(FMAX * (1 - 2.0 ** -24)), 2.0 ** 127, 2.0 ** -126 - 2.0 ** -149]
    for e in range(-149, 128, 1 if cx.deep else 3):
        for k in (1.0, 1.7, 1.37):
            v = f32(k * 2.0 ** e)
            if 0 < v <= FMAX: xs.append(v)
    bad = None
    n = 0
    for v in xs:
        R = cx.call(m, 'c_sqrt', C(v), title='sqrtf(%g)' % v)
        if not R: break
        r = R[0]
        if not isc(r): cx.undecided('sqrtf(%g)' % v, 'not constant'); break
        n += 1
        if v > 1e-36 or v == 0.0:
            if not abs(cv(r) - math.sqrt(v)) <= 4e-7 * math.sqrt(v) + 1e-45: bad = (v, cv(r)); break
        elif not (cv(r) >= 0 and abs(cv(r) - math.sqrt(v)) <= 1e-3 * math.sqrt(v)): bad = (v, cv(r)); break
    if n: cx.expect('sqrtf converges for %d boundary values' % len(xs), bad is None, 'sqrtf(%r) = %r' % (bad or (0, 0)), how='constant propagation')
    for v in (-1.0, -1e-30, -2.0 ** -149, -3e38, -FMAX, math.inf, -math.inf, math.nan):
        R = cx.call(m, 'c_sqrt', C(v), title='sqrtf(%g)' % v)
        if R: cx.expect('sqrtf(%g) is NaN' % v, isc(R[0]) and cv(R[0]) != cv(R[0]), 'gives %r' % (R[0],), how='constant propagation')
    # one symbolic step
    rec = [f for f in selfrec(m)]
    # what surrounds the recursion, for every argument: the recursion (from a positive start) stands for the root of its first argument
    x = V('x')

    def whole(I_, a, loc):
        if len(a) != 3 or not (set(vars_of([a[1]])) <= {'x'} and D.rng(a[1], dict(x=(1e-36, 3.4e38)))[0] > 0): raise Abstain('start of the recursion may be non-positive')
        return fn('newton', a[0], ty='float', loc=I_.where(loc))
    if rec:
        R = cx.call(m, 'c_sqrt', x.n, title='sqrtf(x)', cuts={f: whole for f in rec})
        if R:
            for lo, hi in ((1e-36, 1e-6), (1e-6, 1e6), (1e6, 3.4e38)): cx.claim('sqrtf(x) is the square root of x on [%g,%g]' % (lo, hi), R[0], F('sqrt', x), dict(x=(lo, hi)), 0.0, 1e-5, hunt=5e-6)
    for f in rec:
        I = Interp(m); I.ctors()
        x, s, p = V('x'), V('s'), V('p')
        got = []
        depth = [0]

        def cut(I_, a, loc):
            if depth[0] == 0:
                depth[0] = 1
                return NotImplemented
            got.append(a)
            return V('$rec').n
        I.cuts[f] = cut
        t = 'fixed point of %s' % (sorted(demangle([f])) or [f])[0]
        try: r = IP.call_named(I, f, [x.n, s.n, p.n], [None] * 3, type('i', (), dict(dbg=None))())
        except (Abstain, Fault, Dead, AttributeError, IndexError, TypeError) as e:
            cx.undecided(t, 'not of the three-argument step form: %s' % e); continue
        if len(got) != 1 or len(got[0]) != 3: cx.undecided(t, 'not of the three-argument step form'); continue
        a = got[0]
        bx = dict(x=(1e-6, 1e6), s=(1e-3, 1e3), p=(1e-3, 1e3))
        stop = subst(r, {p.n.id: s.n})
        cx.claim(t + ': stops at an unchanged value', stop, s, bx, 1e-6, 1e-6)
        if a[0] is not x.n or a[2] is not s.n: cx.undecided(t, 'other argument roles'); continue
        g = a[1]
        cx.claim(t + ': sqrt(x) is a fixed point', subst(g, {x.n.id: (s * s).n}), s, bx, 1e-6, 1e-6)
        q = NF.nf(fbin('sub', g, s.n, 'double')); z = NF.nf((x - s * s).n)
        ok = None
        if q and len(q) == 2:
            for mq in q:
                for mz in z:
                    k = NF.mono_mul(mq, tuple((v, -e) for v, e in mz))
                    c = q[mq] / z[mz]
                    if {NF.mono_mul(k, mm): c * cc for mm, cc in z.items()} == q: ok = True
        if ok: cx.holds(t + ': no other fixed point', 'normal form')
        else: cx.undecided(t + ': no other fixed point', 'step is not a multiple of x-s^2')
