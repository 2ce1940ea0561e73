from harness import *
TEXT = ('Value graphs of toCIELAB/fromCIELAB and their composition with symbolic colour ratios and white. L* is compared with the CIE curve by interval enclosures '
        'over all ratios; a*, b* and the inverse reduce by value numbering to the same one-variable curve, so the multi-variable claims are identities.')
ep = 216 / 24389
kap = 24389 / 27


def f(r): return sel(r > 1, 1, sel(r > ep, F('cbrt', r), (kap * r + 16) / 116))
def fi(v): return sel(v > 1, 1, sel(v > 6 / 29, v * v * v, (116 * v - 16) / kap))


def check(cx):
    m = cx.module('c12.cpp')
    r = [V('r%d' % i) for i in range(3)]; w = [V('w%d' % i) for i in range(3)]
    bx = {'r%d' % i: (-1.0, 8.0) for i in range(3)} | {'w%d' % i: (0.01, 2.0) for i in range(3)}
    ww = {'w%d' % i: (1e-6, 1e4) for i in range(3)}
    wr = dict(ww, **{'r%d' % i: (-1e3, 1e4) for i in range(3)})
    A = [(x * y).n for x, y in zip(r, w)]
    Wt = [x.n for x in w]
    R = cx.call(m, 'c_to', A, Wt, ('out', 6))
    if R:
        o = R[0]
        for k in (0, 3):
            t = 'toCIELAB(white)%s ' % (' member' if k else '')
            cx.claim(t + 'L', o[k], 116 * f(r[1]) - 16, bx, 2e-3, wide=wr)
            L = D.gvn([o[k]])[0]
            # the code's own curve as a function of the ratio
            fy = (E(L) + 16) / 116
            sb = lambda i: E(subst(fy.n, {r[1].n.id: r[i].n, w[1].n.id: w[i].n}))
            cx.claim(t + 'a', o[k + 1], 500 * (sb(0) - fy), bx, 1e-2, budget=15, wide=wr)
            cx.claim(t + 'b', o[k + 2], 200 * (fy - sb(2)), bx, 1e-2, budget=15, wide=wr)
    R = cx.call(m, 'c_to', Wt, Wt, ('out', 6))
    if R: cx.claims_vec('the white is (100,0,0)', R[0], [100, 0, 0] * 2, bx, 1e-3, wide=wr)
    # inverse: inputs given as f values
    v = [V('v%d' % i) for i in range(3)]
    bv = {'v%d' % i: (-0.5, 2.0) for i in range(3)} | {'w%d' % i: (0.01, 2.0) for i in range(3)}
    lab = [(116 * v[1] - 16).n, (500 * (v[0] - v[1])).n, (200 * (v[1] - v[2])).n]
    R = cx.call(m, 'c_from', lab, Wt, ('out', 6))
    if R: cx.claims_vec('fromCIELAB(white)', R[0], [fi(v[i]) * w[i] for i in range(3)] * 2, bv, 1e-4, 1e-4, wide=dict(ww, **{'v%d' % i: (-1e2, 1e2) for i in range(3)}))
    # round trip
    br = dict(bx); br.update({'r%d' % i: (-0.13, 1.0) for i in range(3)})
    R = cx.call(m, 'c_rt', A, Wt, ('out', 3))
    if R: cx.claims_vec('fromCIELAB(toCIELAB(c))', R[0], [x * y for x, y in zip(r, w)], br, 2e-4, 2e-4, wide=dict(ww, **{'r%d' % i: (-1e3, 1.0) for i in range(3)}))
    bv2 = dict(bv); bv2.update({'v%d' % i: (0.0, 1.0) for i in range(3)})
    R = cx.call(m, 'c_rt2', lab, Wt, ('out', 3))
    if R: cx.claims_vec('toCIELAB(fromCIELAB(lab))', R[0], [116 * v[1] - 16, 500 * (v[0] - v[1]), 200 * (v[1] - v[2])], bv2, 2e-2, 1e-3, wide=ww)
    # default white
    D50 = [f32(0.9642), 1.0, f32(0.8249)]
    A0 = [(x * y).n for x, y in zip(r, D50)]
    R = cx.call(m, 'c_to0', A0, ('out', 3))
    R2 = cx.call(m, 'c_to', A0, [C(x) for x in D50], ('out', 6))
    if R and R2: cx.claims_vec('toCIELAB() uses D50', R[0], [E(x) for x in R2[0][:3]], bx, 0.1)
    R = cx.call(m, 'c_from0', lab, ('out', 3))
    R2 = cx.call(m, 'c_from', lab, [C(x) for x in D50], ('out', 6))
    if R and R2: cx.claims_vec('fromCIELAB() uses D50', R[0], [E(x) for x in R2[0][:3]], bv, 1e-3)
