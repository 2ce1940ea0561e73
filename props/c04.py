from harness import *
from c01 import mul, app, inv, det, ID
TEXT = ('Value graphs of the Gamut constructors and accessors with all eight chromaticities (or all nine matrix entries) symbolic; identities between rational '
        'functions decided by value numbering over a finite field, differences confirmed by interval enclosures.')


def check(cx):
    m = cx.module('c04.cpp')
    p = [V('p%d' % i) for i in range(8)]
    xR, yR, xG, yG, xB, yB, xW, yW = p
    t = [V('t%d' % i) for i in range(3)]
    P = [xR, xG, xB, yR, yG, yB, 1 - xR - yR, 1 - xG - yG, 1 - xB - yB]
    Wt = [xW / yW, E(1.0), (1 - xW - yW) / yW]
    s = app(inv(P), Wt)
    TO = [P[3 * i + j] * s[j] for i in range(3) for j in range(3)]
    bx = dict(p0=(0.6, 0.7), p1=(0.3, 0.34), p2=(0.2, 0.3), p3=(0.6, 0.75), p4=(0.13, 0.16), p5=(0.04, 0.08), p6=(0.3, 0.35), p7=(0.32, 0.36))
    kw = dict(wide={'p%d' % i: (-1.0, 2.0) for i in range(7)} | {'p7': (0.001, 2.0)} | {'a%d' % i: (-1e3, 1e3) for i in range(9)}, box=bx, atol=2e-4, rtol=2e-4, budget=4.0, max_boxes=4000)
    PI_, TI = ('in', 'p', 8), ('in', 't', 3)
    R = cx.call(m, 'c_prim', PI_, ('out', 21))
    if R:
        o = R[0]
        cx.claims_vec('toXYZ of a gamut from primaries', o[:9], TO, **kw)
        cx.claims_vec('fromXYZ is the inverse', o[9:18], inv(TO), **kw)
        cx.claims_vec('toXYZ*fromXYZ', [x.n for x in mul([E(x) for x in o[:9]], [E(x) for x in o[9:18]])], ID, **kw)
        cx.claims_vec('(1,1,1) maps to the white', o[18:21], Wt, **kw)
        # each column has the chromaticity of its primary
        for j in range(3):
            c = [E(o[j]), E(o[3 + j]), E(o[6 + j])]
            S = c[0] + c[1] + c[2]
            cx.claim('chromaticity x of primary %d' % j, (c[0] / S).n, p[2 * j], **kw)
            cx.claim('chromaticity y of primary %d' % j, (c[1] / S).n, p[2 * j + 1], **kw)
    R = cx.call(m, 'c_from', PI_, ('out', 18))
    if R: cx.claims_vec('fromPrimaries', R[0][:9], TO, **kw); cx.claims_vec('primMat', R[0][9:], P, **kw)
    R = cx.call(m, 'c_back', PI_, ('out', 24))
    if R:
        o = R[0]
        spec = [v for j in range(3) for v in (p[2 * j], p[2 * j + 1], 1 - p[2 * j] - p[2 * j + 1])]
        cx.claims_vec('reported primaries', o[:9], spec, **kw)
        cx.claims_vec('reported white', o[9:12], Wt, **kw)
        cx.claims_vec('primaryVector', o[12:15], s, **kw)
        cx.claims_vec('primaryMatrix', o[15:24], P, **kw)
    R = cx.call(m, 'c_conv', PI_, TI, ('out', 12))
    if R:
        o = R[0]
        cx.claims_vec('toXYZ of a colour', o[:3], app(TO, t), **kw)
        cx.claims_vec('fromXYZ of a colour', o[3:6], app(inv(TO), t), **kw)
        cx.claims_vec('fromXYZ(toXYZ(c))', o[6:9], t, **kw)
        cx.claims_vec('toXYZ(fromXYZ(c))', o[9:12], t, **kw)
    a = [V('a%d' % i) for i in range(9)]
    ba = {'a%d' % i: (1.0, 2.0) if i % 4 == 0 else (-0.2, 0.2) for i in range(9)}
    kw['box'] = ba
    R = cx.call(m, 'c_mat', ('in', 'a', 9), TI, ('out', 48))
    if R:
        o = R[0]
        iv = inv(a)
        S = [iv[j] + iv[3 + j] + iv[6 + j] for j in range(3)]
        PM = [iv[3 * i + j] / S[j] for i in range(3) for j in range(3)]
        cx.claims_vec('gamut from matrix keeps it', o[:9], a, **kw)
        cx.claims_vec('gamut from matrix: toXYZ is the inverse', o[9:18], iv, **kw)
        cx.claims_vec('gamut from matrix: fromXYZ of a colour', o[18:21], app(a, t), **kw)
        cx.claims_vec('gamut from matrix: toXYZ of a colour', o[21:24], app(iv, t), **kw)
        cx.claims_vec('primaryVector', o[24:27], S, **kw)
        cx.claims_vec('primaryMatrix', o[27:36], PM, **kw)
        cx.claims_vec('primaryRed/Green/Blue', o[36:45], [PM[j + 3 * i] for j in range(3) for i in range(3)], **kw)
        cx.claims_vec('primaryWhite', o[45:48], app(iv, [E(1.0)] * 3), **kw)
    R = cx.call(m, 'c_diag', ('in', 'a', 9), ('in', 't', 3), ('out', 9))
    if R:
        q = app(inv(a), t)
        cx.claims_vec('mulDiag', R[0], [a[3 * i + j] * q[j] for i in range(3) for j in range(3)], **kw)
