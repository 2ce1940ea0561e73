from harness import *
TEXT = ('Value graphs of the colour differences for a symbolic pair of colours, compared with the published formula, with themselves under exchange of the arguments, '
        'and with zero for equal arguments; hue branches are separate regions, agreement by value numbering, disagreement by interval enclosures.')


def nodes(xs): return [E.of(x).n for x in xs]


P25 = 1.0
for _ in range(7): P25 = f32(P25 * 25)


def e00(p, q, k):
    s = lambda x: F('sqrt', x)
    PI = f32(3.14159265358979323846)
    c = lambda x: E(f32(x))
    L1, a1, b1 = p; L2, a2, b2 = q
    Cb = (s(a1 * a1 + b1 * b1) + s(a2 * a2 + b2 * b2)) / 2
    C7 = Cb ** 7
    G = (1 - s(C7 / (C7 + P25))) / 2
    x1, x2 = a1 * (1 + G), a2 * (1 + G)
    C1, C2 = s(x1 * x1 + b1 * b1), s(x2 * x2 + b2 * b2)
    h1, h2 = F('atan2', b1, x1) * 180 / PI, F('atan2', b2, x2) * 180 / PI
    h1 = sel(h1 < 0, h1 + 360, h1); h2 = sel(h2 < 0, h2 + 360, h2)
    dh = h2 - h1
    far = lambda x, y: sel(dh > 180, x, sel(dh < -180, x, y))
    Hb = far(h1 + h2 + 360, h1 + h2) / 2
    dh = sel(dh > 180, dh - 360, sel(dh < -180, dh + 360, dh))
    co = lambda x: F('cos', PI * x / 180)
    Tt = 1 - c(0.17) * co(Hb - 30) + c(0.24) * co(2 * Hb) + c(0.32) * co(3 * Hb + 6) - c(0.2) * co(4 * Hb - 63)
    dL, dC, dH = L2 - L1, C2 - C1, 2 * s(C1 * C2) * F('sin', PI * dh / 360)
    Lb = ((L1 + L2) / 2 - 50) * ((L1 + L2) / 2 - 50)
    Cm = (C1 + C2) / 2
    Sl = 1 + c(0.015) * Lb / s(20 + Lb)
    Sc = 1 + c(0.045) * Cm
    Sh = 1 + c(0.015) * Cm * Tt
    th = 30 * F('exp', -((Hb - 275) * (Hb - 275) / 625))
    Rc = 2 * s(Cm ** 7 / (Cm ** 7 + P25))
    Rt = -Rc * F('sin', 2 * th * PI / 180)
    l, m, h = dL / (k[0] * Sl), dC / (k[1] * Sc), dH / (k[2] * Sh)
    return s(l * l + m * m + h * h + Rt * m * h)


def check(cx):
    m = cx.module('c15.cpp')
    a = [V('a%d' % i) for i in range(3)]; b = [V('b%d' % i) for i in range(3)]; k = [V('k%d' % i) for i in range(3)]
    A, B, K = nodes(a), nodes(b), nodes(k)
    sq = lambda i: (a[i] - b[i]) * (a[i] - b[i])
    lab = dict(a0=(0.0, 100.0), b0=(0.0, 100.0), a1=(-100.0, 100.0), a2=(-100.0, 100.0), b1=(-100.0, 100.0), b2=(-100.0, 100.0), k0=(0.5, 2.0), k1=(0.5, 2.0), k2=(0.5, 2.0))
    wd = {x + str(i): (-1e3, 1e3) for x in 'ab' for i in range(3)} | {'k%d' % i: (0.01, 100.0) for i in range(3)}
    uv = {x + str(i): (0.0, 1.0) for x in 'ab' for i in range(3)}
    xyz = {x + str(i): (0.0, 2.0) for x in 'ab' for i in range(3)}
    P = cx.call(m, 'c_itp', A, ('out', 3)); Q = cx.call(m, 'c_itp', B, ('out', 3))
    spec = {'c_uv': F('sqrt', sq(1) + sq(2)), 'c_e76': F('sqrt', sq(0) + sq(1) + sq(2)), 'c_e00': e00(a, b, k), 'c_e00d': e00(a, b, [1, 1, 1])}
    if P and Q:
        d = [E(x) - E(y) for x, y in zip(P[0], Q[0])]
        spec['c_it'] = F('sqrt', d[0] * d[0] + d[1] * d[1] / 4 + d[2] * d[2])
    nm = dict(c_uv='Delta::UV', c_e76='Delta::E76', c_e00='Delta::E00', c_e00d='Delta::E00 default weights', c_it='Delta::ICtCp')
    for fn, bx, w in (('c_uv', uv, 0), ('c_e76', lab, 0), ('c_e00', lab, 1), ('c_e00d', lab, 0), ('c_it', xyz, 0)):
        ar = [K] if w else []
        kw = dict(nprobe=2000, wide=wd) if 'e00' in fn else dict(nprobe=400, wide=wd)
        R = cx.call(m, fn, A, B, *ar, ('out', 1), title=nm[fn])
        if R and fn in spec: cx.claim(nm[fn] + ' is the published metric', R[0][0], spec[fn], bx, 1e-3, 1e-3, **kw)
        S = cx.call(m, fn, B, A, *ar, ('out', 1), title=nm[fn])
        if R and S: cx.claim(nm[fn] + ' is symmetric', R[0][0], E(S[0][0]), bx, 1e-3, 1e-3, **kw)
        Z = cx.call(m, fn, A, A, *ar, ('out', 1), title=nm[fn])
        if Z: cx.claim(nm[fn] + ' of equal colours is zero', Z[0][0], 0.0, bx, 1e-4, 0, **kw)
