from harness import *
TEXT = ('Value graphs of all XYZ/Yxy/Yuv conversions and of their compositions with symbolic colours. The domain is parametrised by chromaticity and sum '
        '(X=s*x, Y=s*y, Z=s*(1-x-y)), split at every guard; on each region code and formula agree by value numbering or by interval enclosure.')


def go(cx, m, fn, n, args, spec, box, tag='', filters=(), at=1e-6, rt=1e-5, wide=None):
    R = cx.call(m, fn, [x.n if isinstance(x, E) else C(float(x)) for x in args], ('out', n))
    if R is None: return
    assert len(spec) == n, (len(spec), n)
    cx.claims_vec(fn[2:] + tag, R[0], spec, box, at, rt, budget=6.0, filters=filters, wide=wide)


def check(cx):
    m = cx.module('c03.cpp')
    s, x, y, Y = V('s'), V('x'), V('y'), V('Y')
    z = 1 - x - y
    XYZ = [s * x, s * y, s * z]
    D = lambda x, y: -2 * x + 12 * y + 3
    U = lambda x, y: [4 * x / D(x, y), 6 * y / D(x, y)]
    for sg, sb in (('', (2e-8, 1e4)), (' negative sum', (-1e4, -2e-8))):
        bx = dict(s=sb, x=(-2.0, 3.0), y=(-2.0, 3.0))
        go(cx, m, 'c_toYxy', 9, XYZ, [s * y, x, y] * 3, bx, sg, wide=dict(x=(-100.0, 100.0), y=(-100.0, 100.0)))
        by = dict(s=sb, x=(-0.5, 1.2), y=(0.001, 1.0))
        go(cx, m, 'c_rtYxy', 3, XYZ, XYZ, by, sg)
        bu = dict(s=sb, x=(0.0, 0.9), y=(0.001, 0.9))
        go(cx, m, 'c_toYuv', 9, XYZ, [s * y] + U(x, y) + [s * y] + U(x, y) + [s * y] + U(x, y), bu, sg)
        go(cx, m, 'c_rtYuv', 3, XYZ, XYZ, bu, sg)
    # components that sum to exactly zero
    p, q = V('p'), V('q')
    bz = dict(p=(-100.0, 100.0), q=(-100.0, 100.0))
    go(cx, m, 'c_toYxy', 9, [p, q, -1 * p - q], [q, C(f32(0.3127)), C(f32(0.3290))] * 3, bz, ' zero sum')
    go(cx, m, 'c_toYxy', 9, [0.0, 0.0, 0.0], [0, 0.3127, 0.3290] * 3, {}, ' black')
    uv = U(E(0.3127), E(0.3290))
    go(cx, m, 'c_toYuv', 9, [0.0, 0.0, 0.0], ([0.0] + uv) * 3, {}, ' black')
    # from chromaticity
    for sg, yb in (('', (2e-8, 3.0)), (' negative y', (-3.0, -2e-8))):
        bx = dict(Y=(-10.0, 1e4), x=(-2.0, 3.0), y=yb)
        go(cx, m, 'c_fromYxy', 9, [Y, x, y], [x * Y / y, Y, z * Y / y] * 3, bx, sg, wide=dict(Y=(-1e6, 1e6), x=(-100.0, 100.0), y=(2e-8, 100.0) if yb[0] > 0 else (-100.0, -2e-8)))
    bx = dict(Y=(1e-4, 1e4), x=(-2.0, 3.0), y=(1e-3, 3.0))
    go(cx, m, 'c_rtXYZ', 3, [Y, x, y], [Y, x, y], bx)
    go(cx, m, 'c_fromYxy', 9, [Y, x, 0.0], [0, Y, 0] * 3, dict(Y=(-10.0, 1e4), x=(-2.0, 3.0)), ' y=0')
    # uv
    wxy = dict(Y=(-1e6, 1e6), x=(-10.0, 10.0), y=(-10.0, 10.0)); wuv = dict(Y=(-1e6, 1e6), u=(-10.0, 10.0), v=(-10.0, 10.0))
    u, v = V('u'), V('v')
    G = lambda u, v: 2 * u - 8 * v + 4
    Xy = lambda u, v: [3 * u / G(u, v), 2 * v / G(u, v)]
    bx = dict(Y=(-10.0, 1e4), x=(0.0, 0.9), y=(0.0, 0.9))
    R = cx.call(m, 'c_xyuv', [Y.n, x.n, y.n], ('out', 12))
    if R: cx.claims_vec('YxyToYuv', R[0][:3], [Y] + U(x, y), bx, 1e-6, 1e-5, wide=wxy); cx.claims_vec('YuvToYxy o YxyToYuv', R[0][6:9], [Y, x, y], bx, 1e-5, 1e-5, wide=wxy)
    bx = dict(Y=(-10.0, 1e4), u=(0.0, 0.62), v=(0.0, 0.42))
    R = cx.call(m, 'c_xyuv', [Y.n, u.n, v.n], ('out', 12))
    if R: cx.claims_vec('YuvToYxy', R[0][3:6], [Y] + Xy(u, v), bx, 1e-6, 1e-5, wide=wuv); cx.claims_vec('YxyToYuv o YuvToYxy', R[0][9:12], [Y, u, v], bx, 1e-5, 1e-5, wide=wuv)
    bx = dict(Y=(1e-4, 1e4), u=(0.0, 0.62), v=(0.01, 0.42))
    xy = Xy(u, v)
    zz = 1 - xy[0] - xy[1]
    go(cx, m, 'c_fromYuv', 9, [Y, u, v], [xy[0] * Y / xy[1], Y, zz * Y / xy[1]] * 3, bx, rt=1e-4, wide=dict(Y=(-1e6, 1e6), u=(-2.0, 2.0), v=(0.001, 2.0)))
    go(cx, m, 'c_rtuv', 3, [Y, u, v], [Y, u, v], bx)
