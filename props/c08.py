from harness import *
from otf import *
TEXT = ('Value graph of one channel of toScreen/toScene (SRGB, BT709, GAMMA) compared with the standards\' piecewise formulas on every piece of the real line: '
        'regions are split at the code\'s own comparisons and the difference is bounded by interval enclosures with mean-value form.')


def check(cx):
    m = cx.module('otf.cpp')
    for t in ('SRGB', 'BT709'):
        for fn, f in (('c_toScreen', enc), ('c_toScene', dec)):
            o = curve(cx, m, fn, t)
            if not o: continue
            for i in range(3): pieces(cx, '%s %s ch%d' % (fn[2:], t, i), o[i], f(t, V('a%d' % i)), 'a%d' % i, 1e-4, 0)
    g = V('g')
    for fn in ('c_toScreen', 'c_toScene'):
        o = curve(cx, m, fn, 'GAMMA', g.n)
        if not o: continue
        for i in range(3):
            a = V('a%d' % i)
            cx.claim('%s GAMMA ch%d' % (fn[2:], i), o[i], a ** (1 / g) if fn == 'c_toScreen' else a ** g, {'a%d' % i: (1e-6, 100.0), 'g': (0.1, 10.0)}, 1e-4, 1e-4,
                     wide={'a%d' % i: (1e-18, 1e6), 'g': (0.1, 20.0)})
            cx.claim('%s GAMMA ch%d of 0' % (fn[2:], i), subst(o[i], {a.n.id: C(0.0)}), C(0.0), {'g': (0.1, 10.0)}, 1e-6)
