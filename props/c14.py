from harness import *
import numpy as np
import otf
TEXT = ('Value graphs of the four conversions compared with the published formula: matrices by constant propagation, the nonlinear stage by value numbering '
        '(the PQ curve being the transfer function decided by C09), small coefficient differences bounded by interval enclosures.')
f = np.vectorize(f32)
M1 = f([[0.8189330101, 0.3618667424, -0.1288597137], [0.0329845436, 0.9293118715, 0.0361456387], [0.0482003018, 0.2643662691, 0.6338517070]])
M2 = f([[0.2104542553, 0.7936177850, -0.0040720468], [1.9779984951, -2.4285922050, 0.4505937099], [0.0259040371, 0.7827717662, -0.8086757660]])
HPE = f([[0.3592, 0.6976, -0.0358], [-0.1922, 1.1004, 0.0755], [0.0070, 0.0749, 0.8434]])
IC = np.array([[2048, 2048, 0], [6610, -13613, 7003], [17933, -17390, -543]]) / 4096
ICI = f([[1, 0.00860904, 0.11103], [1, -0.00860904, -0.11103], [1, 0.560031, -0.320627]])


def mul(m, x): return [m[i][0] * x[0] + m[i][1] * x[1] + m[i][2] * x[2] for i in range(3)]


def fl(m): return [[float(v) for v in r] for r in m]


def nodes(xs): return [E.of(x).n for x in xs]


def at(curve, x): return E(subst(curve, {V('a0').n.id: E.of(x).n}))


def check(cx):
    m = cx.module('c14.cpp')
    a = [V('a%d' % i) for i in range(3)]
    bx = {'a%d' % i: (0.0, 2.0) for i in range(3)}
    R = cx.call(m, 'c_ok', nodes(a), ('out', 3))
    if R: cx.claims_vec('XYZ_to_OKLAB = M2*cbrt(M1*xyz)', R[0], mul(fl(M2), [F('cbrt', x) for x in mul(fl(M1), a)]), bx, 1e-3, wide={'a%d' % i: (-1e3, 1e3) for i in range(3)})
    R = cx.call(m, 'c_oki', nodes(a), ('out', 3))
    bl = dict(a0=(0.0, 2.0), a1=(-1.0, 1.0), a2=(-1.0, 1.0))
    if R: cx.claims_vec('OKLAB_to_XYZ = inv(M1)*(inv(M2)*lab)^3', R[0], mul(fl(np.linalg.inv(M1)), [x * x * x for x in mul(fl(np.linalg.inv(M2)), a)]), bl, 1e-3, wide={'a%d' % i: (-1e2, 1e2) for i in range(3)})
    # ICtCp
    P = cx.call(m, 'c_pq', ('in', 'a', 3), ('out', 3))
    Q = cx.call(m, 'c_pqi', ('in', 'a', 3), ('out', 3))
    if not P or not Q: return
    p, q = P[0][0], Q[0][0]
    otf.pieces(cx, 'PQ encoding', p, [x for x in otf.enc('ST2084', V('a0'))], 'a0', 2e-4, 0)
    otf.pieces(cx, 'PQ decoding', q, [x for x in otf.dec('ST2084', V('a0'))], 'a0', 2e-3, 2e-3)
    R = cx.call(m, 'c_it', nodes(a), ('out', 3))
    bx = {'a%d' % i: (0.0, 99.0) for i in range(3)}
    if R: cx.claims_vec('XYZ_to_ICtCp = M*PQ(HPE*xyz)', R[0], mul(fl(IC), [at(p, x) for x in mul(fl(HPE), a)]), bx, 1e-3, wide={'a%d' % i: (-1e3, 1e3) for i in range(3)})
    # the inverse, for every triple of PQ signals in [1e-4,1]
    s_ = [V('s%d' % i) for i in range(3)]
    a = mul(fl(np.linalg.inv(ICI)), s_)
    R = cx.call(m, 'c_iti', nodes(a), ('out', 3))
    bl = {'s%d' % i: (1e-4, 1.0) for i in range(3)}
    Hi = np.linalg.inv(HPE)
    if R: cx.claims_vec('ICtCp_to_XYZ = inv(HPE)*PQ^-1(inv(M)*ictcp)', R[0], mul(fl(Hi), [at(q, x) for x in mul(fl(ICI), a)]), bl, 1e-3, 1e-3)
    cx.expect('inverse ICtCp matrix', bool(np.abs(IC @ ICI - np.eye(3)).max() < 2e-5), 'the two published matrices are not inverse', how='constant')
    R = cx.call(m, 'c_iti', [0.0, 0.0, 0.0], ('out', 3), title='ICtCp_to_XYZ black')
    if R: cx.claims_vec('ICtCp_to_XYZ of zero signals is black', R[0], [0.0] * 3, {}, 1e-6)
