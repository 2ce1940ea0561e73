from harness import *
TEXT = ("Value graph of Spectrum::planck with symbolic temperature and wavelength against Planck's law by interval enclosures (mean-value form); the 400 samples of the blackbody "
        'spectrum are compared with the law at 380..779 nm likewise.')
h, c, k = 6.62607015e-34, 2.99792458e8, 1.380649e-23


def law(T, l): return 2 * h * c * c * 1e-9 / (l ** 5) / (F('exp', (h * c / k) / (l * T)) - 1)


def nodes(xs): return [E.of(x).n for x in xs]


def check(cx):
    m = cx.module('c21.cpp')
    T, u, e = V('T'), V('u'), V('e')
    l = u * 1e-6     # wavelength in micrometres; T = hc/(k l e)
    K = h * c / k
    R = cx.call(m, 'c_pl', nodes([K * 1e6 / (u * e), l]), ('out', 1, 'double'), title='planck')
    if R:
        # relative to the law, over the exponent e = hc/(l k T): 1e-6 (2e10 K) to 60 (400 K)
        for lo, hi in ((1e-6, 1e-4), (1e-4, 1e-2), (1e-2, 0.15), (0.15, 1.0), (1.0, 8.0), (8.0, 16.0), (16.0, 32.0), (32.0, 45.0), (45.0, 60.0)):
            cx.claim("planck follows Planck's law for hc/lkT in %g..%g" % (lo, hi), (E(R[0][0]) / law(K * 1e6 / (u * e), l)).n, 1.0, dict(e=(lo, hi), u=(0.38, 0.78)), 3e-4, 0, budget=40, max_boxes=3000000, hunt=2e-4)
    B = cx.call(m, 'c_bb', nodes([T]), ('out', 400), title='blackbody')
    if B:
        for i in range(400):
            cx.claim('blackbody sample %d' % i, B[0][i], law(T, E((380.0 + i) * 1e-9)), dict(T=(1000.0, 20000.0)), 0, 3e-4, hunt=2e-4, wide=dict(T=(150.0, 1e9)))
