from harness import *
TEXT = ('Value graphs of every Matrix3/Vector3 operation are built from the LLVM IR of the current header with all entries symbolic and compared with the '
        'textbook formula; equality as rational expressions is decided by random-interpretation value numbering, inequality must be confirmed by an interval '
        'enclosure of the difference on a box of inputs.')
Vn = lambda n, k: [V('%s%d' % (n, i)) for i in range(k)]


def det(a):
    return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6])


def mul(a, b): return [a[3 * i] * b[j] + a[3 * i + 1] * b[3 + j] + a[3 * i + 2] * b[6 + j] for i in range(3) for j in range(3)]
def app(a, v): return [a[3 * i] * v[0] + a[3 * i + 1] * v[1] + a[3 * i + 2] * v[2] for i in range(3)]


def inv(a):
    d = det(a)
    c = [a[4] * a[8] - a[5] * a[7], a[2] * a[7] - a[1] * a[8], a[1] * a[5] - a[2] * a[4],
         a[5] * a[6] - a[3] * a[8], a[0] * a[8] - a[2] * a[6], a[2] * a[3] - a[0] * a[5],
         a[3] * a[7] - a[4] * a[6], a[1] * a[6] - a[0] * a[7], a[0] * a[4] - a[1] * a[3]]
    return [x / d for x in c]


def zerodiv(cx, m, x, n, r):
    """division by zero is IEEE division: an infinity of the sign of the entry"""
    R = cx.call(m, 'c_scale', nodes(x), C(0.0), ('out', n), title='division by zero')
    if not R: return
    for i in r:
        t, w = 'division by zero [%d]' % (i - r[0]), x[i % len(x)]
        v = R[0][i]
        if not isc(v): cx.undecided(t, 'not constant')
        else: cx.expect(t, cv(v) == (float('inf') if w > 0 else float('-inf')), '%g / 0 gives %r' % (w, cv(v)), how='constant propagation')


def nodes(xs): return [E.of(x).n for x in xs]


ID = [1.0, 0, 0, 0, 1.0, 0, 0, 0, 1.0]


def check(cx):
    m = cx.module('c01.cpp')
    a, b, v, w = Vn('a', 9), Vn('b', 9), Vn('v', 3), Vn('w', 3)
    A, B, VV, WW = ('in', 'a', 9), ('in', 'b', 9), ('in', 'v', 3), ('in', 'w', 3)
    s = V('s'); r = V('r')

    def go(fn, n, spec, *args, box=None):
        R = cx.call(m, fn, *args, ('out', n))
        if R is None: return
        assert len(spec) == n
        cx.claims_vec(fn[2:], R[0], spec, box, 1e-4, 1e-4, budget=4.0, max_boxes=20000, wide={k: (-1e3, 1e3) for k in box or {}})
    go('c_ctor', 18, a + a, A)
    go('c_mul', 18, mul(a, b) * 2, A, B)
    go('c_apply', 12, app(a, v) * 4, A, VV)
    go('c_transpose', 18, [a[3 * j + i] for i in range(3) for j in range(3)] * 2, A)
    go('c_rowcol', 18, a + [a[3 * j + i] for i in range(3) for j in range(3)], A)
    go('c_index', 10, a + [9.0], A)
    go('c_scale', 36, [x * s for x in a] * 2 + [x / s for x in a] * 2, A, s.n, box={'s': (0.25, 4.0)})
    zerodiv(cx, m, [3.0, 5.0, -7.0, 0.5, -2.0, 4.0, 1.0, 1.0, -1.0], 36, range(18, 36))
    go('c_add', 18, [x + y for x, y in zip(a, b)] * 2, A, B)
    d = [v[0], 0, 0, 0, v[1], 0, 0, 0, v[2]]
    go('c_diag', 18, d * 2, VV)
    go('c_det', 2, [det(a)] * 2, A)
    bx = {'a%d' % i: (1.0, 2.0) if i % 4 == 0 else (-0.4, 0.4) for i in range(9)}
    go('c_inv', 36, inv(a) * 2 + ID * 2, A, box=bx)
    k = 1 - 2 * r
    go('c_cross', 27, [k, r, r, r, k, r, r, r, k] + inv([k, r, r, r, k, r, r, r, k]) + ID, r.n, box={'r': (-1.0, 0.3)})
    go('c_dot', 2, [v[0] * w[0] + v[1] * w[1] + v[2] * w[2]] * 2, VV, WW)
    go('c_same', 38, mul(a, a) * 2 + [x + x for x in a] * 2 + [v[0] * v[0] + v[1] * v[1] + v[2] * v[2]] * 2, A, VV)
    go('c_vec', 10, v * 3 + [3.0], VV)
