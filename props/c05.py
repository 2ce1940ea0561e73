from harness import *
from c01 import mul, app, inv, ID
TEXT = ('Value graphs of GamutConvert with two arbitrary symbolic gamuts and of Bradford with two symbolic whites, compared with their defining products; '
        'identities decided by value numbering, numeric differences by interval enclosures.')
BR = [0.8951, 0.2664, -0.1614, -0.7502, 1.7135, 0.0367, 0.0389, -0.0685, 1.0296]


def check(cx):
    m = cx.module('c05.cpp')
    a = [V('a%d' % i) for i in range(9)]; b = [V('b%d' % i) for i in range(9)]
    bx = {n + str(i): (1.0, 2.0) if i % 4 == 0 else (-0.2, 0.2) for i in range(9) for n in 'ab'}
    wd = {n + str(i): (-1e3, 1e3) for i in range(9) for n in 'ab'} | {'p%d' % i: (-1.0, 2.0) for i in range(7)} | {'p7': (0.001, 2.0)}
    kw = dict(wide=wd, box=bx, atol=2e-4, rtol=2e-4, budget=4.0, max_boxes=4000)
    R = cx.call(m, 'c_conv', ('in', 'a', 9), ('in', 'b', 9), ('out', 27))
    if R:
        cx.claims_vec('GamutConvert(S,D)', R[0][:9], mul(b, inv(a)), **kw)
        cx.claims_vec('GamutConvert(S,S)', R[0][9:18], ID, **kw)
        cx.claims_vec('GamutConvert(D,S)*GamutConvert(S,D)', [x.n for x in mul([E(x) for x in R[0][18:]], [E(x) for x in R[0][:9]])], ID, **kw)
    R = cx.call(m, 'c_convn', ('in', 'a', 9), ('in', 'b', 9), ('out', 18))
    if R:
        cx.claims_vec('GamutConvert(S,D) of gamuts with one name', R[0][:9], mul(b, inv(a)), **kw)
        cx.claims_vec('GamutConvert(D,S) of gamuts with one name', R[0][9:], mul(a, inv(b)), **kw)
    p = [V('p%d' % i) for i in range(8)]
    kp = dict(kw); kp['box'] = dict(bx, p0=(0.6, 0.7), p1=(0.3, 0.34), p2=(0.2, 0.3), p3=(0.6, 0.75), p4=(0.13, 0.16), p5=(0.04, 0.08), p6=(0.3, 0.35), p7=(0.32, 0.36))
    R = cx.call(m, 'c_conv2', ('in', 'p', 8), ('in', 'b', 9), ('out', 18))
    if R: cx.claims_vec('GamutConvert from a gamut of primaries', R[0][:9], mul(b, [E(x) for x in R[0][9:]]), **kp)
    # Bradford
    w, v = [V('w%d' % i) for i in range(3)], [V('v%d' % i) for i in range(3)]
    bw = {n + str(i): (0.8, 1.2) if i < 2 else (0.3, 1.3) for n in 'wv' for i in range(3)}
    kb = dict(wide={n + str(i): (-1e3, 1e3) for n in 'wv' for i in range(3)} | {'k': (1e-3, 1e3)}, box=bw, atol=2e-3, rtol=2e-3, budget=5.0, max_boxes=20000)
    R = cx.call(m, 'c_brad', ('in', 'w', 3), ('in', 'v', 3), ('out', 21))
    if R:
        o = R[0]
        K = cx.call(m, 'c_lms', ('out', 18))
        if K is None: return
        import numpy as np
        kv = [cv(x) if isc(x) else float('nan') for x in K[0]]
        B, Bi = [E(x) for x in kv[:9]], [E(x) for x in kv[9:]]
        for i in range(9):
            cx.expect('cone matrix entry [%d] is the published one' % i, abs(kv[i] - BR[i]) <= 2e-5, 'LMS.fromXYZ()[%d] = %g, published %g' % (i, kv[i], BR[i]), how='constant folding')
        pr = (np.array(kv[9:]).reshape(3, 3) @ np.array(kv[:9]).reshape(3, 3)).reshape(9)
        for i in range(9):
            cx.expect('inverse cone matrix [%d]' % i, abs(pr[i] - ID[i]) <= 2e-5, 'LMS.toXYZ()*LMS.fromXYZ()[%d] = %g' % (i, pr[i]), how='constant folding')
        cw, cv_ = app(B, w), app(B, v)
        Dg = [E.of(x) for x in [cv_[0] / cw[0], 0, 0, 0, cv_[1] / cw[1], 0, 0, 0, cv_[2] / cw[2]]]
        kb['filters'] = [((x * x).n, 'gt') for x in cw + cv_]
        # exact identities with the library's own cone matrix; the matrix itself is checked above
        cx.claims_vec('Bradford matrix', o[:9], mul(mul(Bi, Dg), B), **kb)
        cx.claims_vec('source white maps to destination white', o[9:12], app(Bi, app(B, v)), **kb)
        cx.claims_vec('Bradford(W,W) is the identity', o[12:21], mul(Bi, B), **kb)
    k = V('k')
    kb['box'] = dict(bw, k=(0.5, 100.0))
    R1 = cx.call(m, 'c_scale', ('in', 'w', 3), ('in', 'v', 3), k.n, ('out', 9))
    if R and R1: cx.claims_vec('Bradford is independent of a common luminance scale', R1[0], [E(x) for x in R[0][:9]], **kb)
