from harness import *
from otf import *
TEXT = ('Value graph of one channel of toScreen/toScene (ST2084, HLG) compared with SMPTE ST 2084 and ARIB STD-B67 on every piece of the real line by interval '
        'enclosures (mean-value form) after splitting at the code\'s comparisons.')


def check(cx):
    m = cx.module('otf.cpp')
    for t in ('ST2084', 'HLG'):
        for fn, f in (('c_toScreen', enc), ('c_toScene', dec)):
            o = curve(cx, m, fn, t)
            if not o: continue
            for i in range(3):
                at, rt = (1e-4, 0) if fn == 'c_toScreen' else (1e-4, 1e-3)
                pieces(cx, '%s %s ch%d' % (fn[2:], t, i), o[i], f(t, V('a%d' % i)), 'a%d' % i, at, rt)
    o = curve(cx, m, 'c_toScreen', 'ST2084')
    if o: cx.claim('toScreen ST2084 of 0 is 0', subst(o[0], {var('a0').id: C(0.0)}), C(0.0), {}, 1e-5)
    q = (V('a0') / 100) ** m1
    if o: cx.claim('toScreen ST2084 near black', o[0], ((c1 + c2 * q) / (1 + c3 * q)) ** m2, {'a0': (1e-10, 1e-3)}, 2e-7, 1e-2)
    o = curve(cx, m, 'c_toScene', 'ST2084')
    p = V('a0') ** (1 / m2)
    if o: cx.claim('toScene ST2084 near black', o[0], 100 * ((p - c1) / (c2 - c3 * p)) ** (1 / m1), {'a0': (1e-3, 0.1)}, 1e-8, 1e-2)
