from harness import *
import numpy as np
TEXT = ('The values of every named illuminant and gamut are obtained from the IR of the current header by constant propagation (global initialisers and accessors) '
        'and compared with published XYZ values, primaries and matrices kept here as reference data.')
ILL = dict(A=(1.09850, 1, 0.35585), B=(0.99072, 1, 0.85223), C=(0.98074, 1, 1.18232), D50=(0.96422, 1, 0.82521), D55=(0.95682, 1, 0.92149),
           D60=(0.95265, 1, 1.00883), D65=(0.95047, 1, 1.08883), D75=(0.94972, 1, 1.22638), E=(1, 1, 1), F2=(0.99186, 1, 0.67393),
           F7=(0.95041, 1, 1.08747), F11=(1.00962, 1, 0.64350))
ORDER = ['A', 'B', 'C', 'D50', 'D55', 'D60', 'D65', 'D75', 'E', 'F2', 'F7', 'F11']
PRIM = dict(AdobeRGB=(.64, .33, .21, .71, .15, .06, .3127, .3290), Rec709=(.64, .33, .30, .60, .15, .06, .3127, .3290),
            Rec2020=(.708, .292, .17, .797, .131, .046, .3127, .3290), DCI_P3=(.68, .32, .265, .69, .15, .06, .314, .351),
            S_Gamut=(.73, .28, .14, .855, .10, -.05, .3127, .3290), S_Gamut3_Cine=(.766, .275, .225, .800, .089, -.087, .3127, .3290),
            ACEScg=(.713, .293, .165, .830, .128, .044, .32168, .33767), ACES2065=(.73470, .26530, 0., 1., .0001, -.077, .32168, .33767))
MAT = dict(LMS=(.8951, .2664, -.1614, -.7502, 1.7135, .0367, .0389, -.0685, 1.0296), XYZ=(1, 0, 0, 0, 1, 0, 0, 0, 1))


def rgb2xyz(p):
    xR, yR, xG, yG, xB, yB, xW, yW = p
    P = np.array([[xR, xG, xB], [yR, yG, yB], [1 - xR - yR, 1 - xG - yG, 1 - xB - yB]])
    w = np.array([xW / yW, 1, (1 - xW - yW) / yW])
    return P * np.linalg.solve(P, w), P, w


def const(cx, title, vals):
    if all(isinstance(v, N) and isc(v) for v in vals): return [cv(v) for v in vals]
    cx.undecided(title, 'not a compile-time constant for the analysis')
    return None


def near(cx, title, got, want, tol, loc=()):
    for i, (g, w) in enumerate(zip(got, want)):
        cx.expect('%s [%d]' % (title, i), abs(g - w) <= tol, 'value %.9g, published %.9g (tolerance %g)' % (g, w, tol), loc, how='constant propagation')


def check(cx):
    m = cx.module('c06.cpp')
    R = cx.call(m, 'c_ill', ('out', 36))
    if R:
        v = const(cx, 'illuminants', R[0])
        if v:
            for k, n in enumerate(ORDER): near(cx, 'Illuminant_' + n, v[3 * k:3 * k + 3], ILL[n], 1e-5, [('include/colorsystem.hpp', 0, 'Illuminant_' + n)])
    for g in list(PRIM) + list(MAT):
        loc = [('include/colorsystem.hpp', 0, g)]
        R = cx.call(m, 'c_' + g, ('out', 36))
        if not R: continue
        v = const(cx, g, R[0])
        if not v: continue
        if g in PRIM:
            A, P, w = rgb2xyz(PRIM[g])
            near(cx, g + ' toXYZ', v[:9], A.reshape(9), 1e-4, loc)
            Bm = np.linalg.inv(A)
            near(cx, g + ' fromXYZ', v[9:18], Bm.reshape(9), 2e-4 if g != 'ACES2065' else 2e-4, loc)
            near(cx, g + ' primaries', v[18:27], P.T.reshape(9), 1e-4, loc)
            near(cx, g + ' white', v[27:30], w, 1e-4, loc)
            near(cx, g + ' (1,1,1)', v[30:33], w, 1e-4, loc)
        else:
            A = np.array(MAT[g], float).reshape(3, 3)
            near(cx, g + ' fromXYZ', v[9:18], A.reshape(9), 1e-5, loc)
            near(cx, g + ' toXYZ', v[:9], np.linalg.inv(A).reshape(9), 1e-4, loc)
        pr = np.array(v[:9]).reshape(3, 3) @ np.array(v[9:18]).reshape(3, 3)
        near(cx, g + ' toXYZ*fromXYZ', pr.reshape(9), np.eye(3).reshape(9), 1e-4, loc)
    R = cx.call(m, 'c_lab', ('out', 6))
    if R:
        v = const(cx, 'default white', R[0])
        if v:
            near(cx, 'D50 in Lab with the default white', v[:3], (100, 0, 0), 0.05)
            near(cx, 'white of Lab (100,0,0) with the default white', v[3:], ILL['D50'], 1e-3)
