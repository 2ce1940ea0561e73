from harness import *
TEXT = ('Value graphs of the HSV conversions. RGB is parametrised per channel ordering by minimum, chroma and position q in the hue sector, ties are separate cases; hue sectors of the inverse are split at the integer conversion and code and formula agree by value numbering.')
# (max, mid, min) channel, hue as function of q
ORD = [((0, 1, 2), lambda q: 60 * q), ((1, 0, 2), lambda q: 120 - 60 * q), ((1, 2, 0), lambda q: 120 + 60 * q),
       ((2, 1, 0), lambda q: 240 - 60 * q), ((2, 0, 1), lambda q: 240 + 60 * q), ((0, 2, 1), lambda q: 360 - 60 * q)]


def nodes(xs): return [E.of(x).n for x in xs]


def rgb(order, n, d, q):
    c = [None] * 3
    c[order[0]] = n + d; c[order[2]] = E.of(n); c[order[1]] = n + d * q
    return c


def hsv2rgb(k, q, s, v):
    m, n, p = v * (1 - s), v * (1 - s * q), v * (1 - s * (1 - q))
    return [[v, p, m], [n, v, m], [m, v, p], [m, n, v], [p, m, v], [v, m, n]][k]


def wrap(h): return E(select(lt(C(359.995), h), (E(h) - 360).n, h))


def check(cx):
    m = cx.module('c13.cpp')
    v, q = V('v'), V('q')
    n, d = V('n'), V('d')
    bx0 = dict(v=(1e-4, 1e4), n=(0.0, 1e3), d=(1e-3, 1e3), q=(1e-4, 1 - 1e-4))
    bx1 = dict(n=(-1.0, 0.0), d=(1.001, 1e2), q=(1e-4, 1 - 1e-4))
    wd = dict(n=(0.0, 1e6), d=(1e-9, 1e6), q=(1e-6, 1 - 1e-6))
    for od, hue in ORD:
        for bx, sg in ((bx0, ''), (bx1, ', negative minimum')):
            nm = 'order ' + ''.join('RGB'[i] for i in od) + sg
            c = nodes(rgb(od, n, d, q))
            mx = n + d
            R = cx.call(m, 'c_to', c, ('out', 6), title='toHSV ' + nm)
            if R: cx.claims_vec('toHSV %s' % nm, R[0], [hue(q), d / mx, mx] * 2, bx, 2e-3, 1e-5, wide=None if sg else wd)
            if R and sg: cx.claims_vec('toHSV %s, all channels negative' % nm[:9], R[0], [hue(q), d / mx, mx] * 2, dict(n=(-10.0, -5.0), d=(1e-3, 4.0), q=bx['q']), 2e-3, 1e-5)
            R = cx.call(m, 'c_rt', c, ('out', 3), title='fromHSV(toHSV) ' + nm)
            if R: cx.claims_vec('fromHSV(toHSV) %s' % nm, R[0], [E(x) for x in c], bx, 1e-4, 1e-4, wide=None if sg else wd)
            for qv in (0.0, 1.0):
                c = nodes(rgb(od, n, d, E(qv)))
                R = cx.call(m, 'c_to', c, ('out', 6), title='toHSV tie ' + nm)
                if R:
                    cx.claim('toHSV hue, %s tie q=%g' % (nm, qv), wrap(R[0][0]).n, hue(qv) % 360, bx, 2e-3)
                    cx.claims_vec('toHSV S,V, %s tie q=%g' % (nm, qv), R[0][1:3], [d / mx, mx], bx, 2e-3, 1e-5)
                R = cx.call(m, 'c_rt', c, ('out', 3), title='fromHSV(toHSV) tie ' + nm)
                if R: cx.claims_vec('fromHSV(toHSV) %s tie q=%g' % (nm, qv), R[0], [E(x) for x in c], bx, 1e-4, 1e-4)
    bx = bx0
    R = cx.call(m, 'c_to', nodes([v, v, v]), ('out', 6), title='toHSV grey')
    if R: cx.claims_vec('toHSV grey', R[0], [0, 0, v] * 2, bx, 1e-5)
    R = cx.call(m, 'c_rt', nodes([v, v, v]), ('out', 3), title='round trip grey')
    if R: cx.claims_vec('fromHSV(toHSV) grey', R[0], [v, v, v], bx, 1e-5)
    R = cx.call(m, 'c_to', [0.0, 0.0, 0.0], ('out', 6), title='toHSV black')
    if R: cx.claims_vec('toHSV black', R[0], [0.0] * 6, {}, 1e-6)
    # inverse and cyclicity
    s = V('s')
    bs = dict(v=(0.0, 1e3), s=(0.0, 1.0), q=(1e-4, 1 - 1e-4))
    for j in range(-3, 4):
        for k in range(6):
            h = 360.0 * j + 60 * (k + q)
            R = cx.call(m, 'c_from', nodes([h, s, v]), ('out', 6), title='fromHSV')
            if R: cx.claims_vec('fromHSV sector %d %+d turns' % (k, j), R[0], hsv2rgb(k, q, s, v) * 2, bs, 1e-4, 1e-4, wide=dict(v=(-1e6, 1e6), s=(-10.0, 10.0)))
            R = cx.call(m, 'c_from', nodes([360.0 * j + 60 * k, s, v]), ('out', 6), title='fromHSV')
            if R: cx.claims_vec('fromHSV edge %d %+d turns' % (k, j), R[0], hsv2rgb(k, E(0.0), s, v) * 2, bs, 1e-4, 1e-4, wide=dict(v=(-1e6, 1e6), s=(-10.0, 10.0)))
    # every finite hue: channels stay between v(1-s) and v
    h = V('h')
    R = cx.call(m, 'c_from', nodes([h, s, v]), ('out', 6), title='fromHSV any hue')
    if R:
        I = cx.last
        for lo, hi in ((-3.4e38, -1e-3), (0.0, 3.4e38)):
            bh = dict(h=(lo, hi), v=(1.0, 1.0), s=(1.0, 1.0))
            for i in range(3): cx.in_range('fromHSV of any hue in [%g,%g]: channel %d in range' % (lo, hi, i), R[0][i], -1e-3, 1.001, bh)
            cx.bounds('fromHSV', I, bh)
    # arc tangent variant
    t = [V('t%d' % i) for i in range(3)]
    bt = {'t%d' % i: (0.0, 4.0) for i in range(3)}
    R = cx.call(m, 'c_atan', nodes(t), ('out', 6))
    if R:
        mx = sel(t[1] > t[0], t[1], t[0]); mx = sel(t[2] > mx, t[2], mx)
        mn = sel(t[1] < t[0], t[1], t[0]); mn = sel(t[2] < mn, t[2], mn)
        ang = E(f32(180.0 / f32(3.14159265358979323846))) * F('atan2', E(f32(3 ** 0.5)) * (t[1] - t[2]), 2 * t[0] - t[1] - t[2])
        hue = sel(ang < 0, ang + 360, ang)
        sat = E(select(eq(mx.n, C(0.0)), C(0.0), ((mx - mn) / mx).n))
        wt = {'t%d' % i: (-1e6, 1e6) for i in range(3)}
        for k in (0, 3):
            cx.claim('toHSV_atan hue%s' % (' member' if k else ''), R[0][k], hue, bt, 5e-3, budget=20, wide=wt, huntabs=1e-2)
            cx.claims_vec('toHSV_atan S,V%s' % (' member' if k else ''), R[0][k + 1:k + 3], [sat, mx], bt, 1e-4, wide=wt)
            for od, _ in ORD:
                c = nodes(rgb(od, n, d, q))
                e2 = {t[i].n.id: c[i] for i in range(3)}
                cx.claims_vec('toHSV_atan S,V ' + str(od), [subst(x, e2) for x in R[0][k + 1:k + 3]], [d / (n + d), n + d], bx0, 1e-4, 1e-4)
