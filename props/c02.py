from harness import *
from c01 import zerodiv
TEXT = ('Value graphs (gated SSA) of the Tristimulus operations with symbolic channels, limits and factors; inputs are partitioned by every comparison occurring '
        'in code or specification, ties included, and on each region the two sides are equal by value numbering.')


def mn(x, y): return sel(y < x, y, x)
def mx(x, y): return sel(y > x, y, x)


def check(cx):
    m = cx.module('c02.cpp')
    a = [V('a%d' % i) for i in range(3)]; b = [V('b%d' % i) for i in range(3)]
    A, B = ('in', 'a', 3), ('in', 'b', 3)
    s = V('s')

    def go(fn, n, spec, *args, box=None, filters=()):
        R = cx.call(m, fn, *args, ('out', n))
        if R is None: return
        assert len(spec) == n
        cx.claims_vec(fn[2:], R[0], spec, box, 1e-5, 1e-5, budget=5.0, filters=filters, wide={'s': (-1e6, 1e6)})
    go('c_ctor', 22, a + [s] * 3 + a + [0] * 3 + a * 3 + [3], A, s.n)
    go('c_scale', 12, [x * s for x in a] * 3 + [x / s for x in a], A, s.n, box={'s': (0.25, 4.0)})
    zerodiv(cx, m, [3.0, -5.0, 0.25], 12, range(9, 12))
    dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
    go('c_addmul', 20, [x + y for x, y in zip(a, b)] * 3 + [x * y for x, y in zip(a, b)] * 3 + [dot, dot], A, B)
    big = {n + str(i): (-1e6, 1e6) for n in 'ab' for i in range(3)}
    go('c_minmax', 14, [mn(x, y) for x, y in zip(a, b)] * 2 + [mx(x, y) for x, y in zip(a, b)] * 2 + [mn(mn(a[0], a[1]), a[2]), mx(mx(a[0], a[1]), a[2])],
       A, B, box=big)
    go('c_same', 41, [x + x for x in a] * 3 + [x * x for x in a] * 3 + a * 4 + [a[0] * a[0] + a[1] * a[1] + a[2] * a[2]] * 2 + [x * a[0] for x in a] + [x * a[2] for x in a] + [a[0]] * 3, A, box=big)
    l = V('l'); g = V('g')            # h = l + g, g >= 0
    bx = dict(big); bx.update(l=(-1e3, 1e3), g=(0.0, 1e3))
    clip = [sel(x < l, l, sel(x > l + g, l + g, x)) for x in a]
    go('c_clip', 6, clip * 2, A, l.n, (l + g).n, box=bx)
    neg = sel(a[0] < 0, 1, sel(a[1] < 0, 1, sel(a[2] < 0, 1, 0)))
    go('c_pos', 8, [sel(x < 0, 0, x) for x in a] * 2 + [neg, neg], A, box=big)
