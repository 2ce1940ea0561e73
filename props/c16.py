from harness import *
TEXT = ('Value graphs of the temperature functions with symbolic temperature, offset and luminance: the spline against the published coefficients, luminance, distance and '
        'perpendicularity by value numbering (util::sqrtf summarised as the square root decided by C32); closeness to the spline by interval enclosures. Chromaticities with y exactly 0 are left to C03.')


def nodes(xs): return [E.of(x).n for x in xs]


def spline(T):
    c = lambda v: E(f32(v))
    x = sel(T < 4000, c(-0.2661239e9) / (T * T * T) - c(0.2343580e6) / (T * T) + c(0.8776956e3) / T + c(0.179910),
            c(-3.0258469e9) / (T * T * T) + c(2.1070379e6) / (T * T) + c(0.2226347e3) / T + c(0.240390))
    p = lambda k: c(k[0]) * x * x * x + c(k[1]) * x * x + c(k[2]) * x + c(k[3])
    y = sel(T < 2222, p((-1.1063814, -1.34811020, 2.18555832, -0.20219683)),
            sel(T < 4000, p((-0.9549476, -1.37418593, 2.09137015, -0.16748867)), p((3.0817580, -5.87338670, 3.75112997, -0.37001483))))
    return x, y


def xyz(x, y, Y): return [x / y * Y, E.of(Y), (1 - x - y) / y * Y]


def chroma(o):
    o = [E(x) for x in o]
    s = o[0] + o[1] + o[2]
    return o[0] / s, o[1] / s


def uv(o):
    o = [E(x) for x in o]
    s = o[0] + 15 * o[1] + 3 * o[2]
    return 4 * o[0] / s, 6 * o[1] / s


def sqrt_cut(I, a, loc): return fn('sqrt', a[0], ty='float', loc=I.where(loc))


CUT = {'_ZN11ColorSystem4util5sqrtfEf': sqrt_cut}


def at(o, t, x): return [subst(n, {E.of(t).n.id: E.of(x).n}) for n in o]


def check(cx):
    m = cx.module('c16.cpp')
    T, Y, d = V('T'), V('Y'), V('d')
    bx = dict(T=(1667.0, 25000.0), Y=(0.01, 100.0), d=(-0.05, 0.05))
    wd = dict(bx, Y=(-1e6, 1e6), d=(-0.3, 0.3))
    w2 = dict(T=(1667.0, 25000.0), d=(-0.3, 0.3))
    R = cx.call(m, 'c_pl', nodes([T, Y]), ('out', 6))
    if R:
        x, y = spline(T)
        cx.claims_vec('fromPlanckianLocus', R[0][:3], xyz(x, y, Y), bx, 1e-3, 1e-3, wide=wd)
        cx.claims_vec('fromPlanckianLocus default luminance', R[0][3:], xyz(x, y, 1), bx, 1e-3, 1e-3)
        t = V('t')
        for j in (2222.0, 4000.0):
            for i in (0, 2):
                lo = subst(R[0][3 + i], {T.n.id: (j - t).n}); hi = subst(R[0][3 + i], {T.n.id: (j + t).n})
                cx.claim('locus continuous at %gK, %s' % (j, 'XYZ'[i]), lo, E(hi), dict(t=(1e-4, 1e-2)), 2e-3, hunt=None)
    S = cx.call(m, 'c_ct', nodes([T, Y]), ('out', 6))
    if S:
        cx.claim('fromCT luminance', S[0][1], Y, bx, 1e-5, 1e-5, wide=wd)
        cx.claims_vec('fromCT default luminance', S[0][3:], [subst(n, {Y.n.id: C(1.0)}) for n in S[0][:3]], bx, 1e-5)
        cx.claims_vec('fromCT scales with luminance', S[0][:3], [E(n) * Y for n in S[0][3:]], bx, 1e-5, 1e-5, wide=wd)
        b2 = dict(T=(2000.0, 10000.0))
        x, y = chroma(S[0][3:])
        sx, sy = spline(T)
        cx.claim('fromCT within 0.01 of the locus, x', x.n, sx, b2, 0.01, hunt=None)
        cx.claim('fromCT within 0.01 of the locus, y', y.n, sy, b2, 0.01, hunt=None)
    Q = cx.call(m, 'c_cct', nodes([T, Y, d]), ('out', 6), cuts=CUT)
    if S and Q:
        cx.claim('fromCCT luminance', Q[0][1], Y, bx, 1e-5, 1e-5, wide=wd)
        cx.claims_vec('fromCCT default luminance', Q[0][3:], [subst(n, {Y.n.id: C(1.0)}) for n in Q[0][:3]], bx, 1e-5)
        cx.claims_vec('fromCCT scales with luminance', Q[0][:3], [E(n) * Y for n in Q[0][3:]], bx, 1e-4, 1e-4, wide=wd)
        cx.claims_vec('fromCCT without offset is fromCT', at(Q[0][3:], d, 0.0), [E(n) for n in S[0][3:]], bx, 1e-4)
        u, v = uv(Q[0][3:]); u1, v1 = uv(S[0][3:])
        u2, v2 = uv(at(S[0][3:], T, T - 1))
        du, dv = u2 - u1, v2 - v1
        b2 = dict(T=(2000.0, 10000.0), d=(-0.1, 0.1))
        cx.claim('fromCCT at distance |dUV| from the locus', ((u - u1) * (u - u1) + (v - v1) * (v - v1)).n, d * d, b2, 1e-5, 1e-2, wide=w2)
        l = F('sqrt', du * du + dv * dv)
        cx.claim('fromCCT offset perpendicular to the locus', (((u - u1) * du + (v - v1) * dv) / l).n, 0.0, b2, 1e-3, wide=w2)
        cx.claim('fromCCT positive offset towards larger v', (((v - v1) * du - (u - u1) * dv) / l).n, d, b2, 1e-3, wide=w2)
