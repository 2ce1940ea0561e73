import math
from harness import *
from otf import *
TEXT = ('The composed value graph toScene(toScreen(x)) is compared with x over each curve\'s range (interval enclosures after splitting at the comparisons), the '
        'derivative of every encoder is enclosed to show it is non-decreasing, and definedness (no division by zero, no logarithm or root of a negative, no NaN) is '
        'decided for all finite inputs.')
RANGE = dict(SRGB=(0.0, 1.0), BT709=(0.0, 1.0), ST2084=(1e-3, 99.9), HLG=(0.0, 50.0), SLOG=(0.0, 10.0), SLOG2=(0.0, 50.0), SLOG3=(-1.0, 50.0))
JOINT = dict(SRGB=0.0031308, BT709=0.018, SLOG3=0.01125)


def check(cx):
    m = cx.module('otf.cpp')
    for t in TYPES:
        g = V('g')
        R = cx.call(m, 'c_round', TYPES.index(t), ('in', 'a', 3), g.n if t == 'GAMMA' else C(1.0), ('out', 3), title='round trip ' + t)
        if R:
            for i in range(3):
                a = V('a%d' % i)
                if t == 'LINEAR': cx.claim('round trip LINEAR ch%d' % i, R[0][i], a, {'a%d' % i: (-1e6, 1e6)})
                elif t == 'GAMMA':
                    # gamma applied to s^g with s>0, so that powers compose
                    for gv in (0.5, 1.0, 1.8, 2.2, 2.4, 2.6) + ((0.1, 0.3, 3.0, 10.0) if cx.deep else ()):
                        cx.claim('round trip GAMMA %g ch%d' % (gv, i), subst(R[0][i], {g.n.id: C(f32(gv))}), a, {'a%d' % i: (1e-4, 1.0)}, 1e-3, 1e-3)
                else:
                    lo, hi = RANGE[t]
                    j = JOINT.get(t)
                    cuts = [lo, hi] if j is None else [lo, j * (1 - 1e-4), j * (1 + 1e-4), hi]
                    for k in range(0, len(cuts), 2):
                        cx.claim('round trip %s ch%d on [%g,%g]' % (t, i, cuts[k], cuts[k + 1]), R[0][i], a, {'a%d' % i: (cuts[k], cuts[k + 1])}, 1e-3, 1e-3)
        if t in ('LINEAR', 'GAMMA'): continue
        o = curve(cx, m, 'c_toScreen', t)
        if not o: continue
        cx.claim('encoder %s is defined for every input up to 1e34' % t, o[0], C(0.0), {'a0': (-1e34, 1e34)}, 1e300, 0, hunt=None)
        # the same in float arithmetic, at the ends of the range and around the smallest floats
        for v in (1e34, 1e30, 1e20, 1e19, 1e13, 1e9, 1e5, 1e-10, 1e-20, 1e-37, 1e-45, 0.0):
            for v in (f32(v), -f32(v)):
                R = cx.call(m, 'c_toScreen', TYPES.index(t), [C(v)] * 3, C(1.0), ('out', 3), title='%s of %g' % (t, v))
                if not R: continue
                y = R[0][0]
                if not isc(y): cx.undecided('encoder %s of %g' % (t, v), 'not a constant'); continue
                cx.expect('encoder %s of %g is finite' % (t, v), math.isfinite(cv(y)) and abs(cv(y)) <= 3.5e38, 'gives %r' % cv(y), how='constant propagation')
        lo, hi = RANGE[t]
        cx.monotone('encoder %s is non-decreasing' % t, o[0], 'a0', -1.0, 99.0 if t == 'ST2084' else max(hi, 2.0), tol=2e-5, slope=1e-5)
    o = curve(cx, m, 'c_toScreen', 'GAMMA', V('g').n)
    if o:
        cx.claim('encoder GAMMA is defined for every input in [0,100]', o[0], C(0.0), {'a0': (0.0, 100.0), 'g': (0.1, 10.0)}, 1e300, 0, hunt=None)
        cx.claim('encoder GAMMA is defined at 0', subst(o[0], {var('a0').id: C(0.0)}), C(0.0), {'g': (0.1, 10.0)}, 1e-3, 0)
        for gv in (0.5, 1.0, 2.2, 2.6): cx.monotone('encoder GAMMA %g is non-decreasing' % gv, subst(o[0], {var('g').id: C(f32(gv))}), 'a0', 1e-6, 2.0)
