"""Published transfer curves, as (low, high, expression) pieces; points within a few 1e-6 of a discontinuous joint are left open."""
from harness import *
m1, m2 = 2610 / 16384, 2523 / 32
c1, c2, c3 = 3424 / 4096, 2413 / 128, 2392 / 128
HA, HB, HC = 0.17883277, 0.28466892, 0.55991073
L10 = lambda x: F('log10', x)
TYPES = ['LINEAR', 'GAMMA', 'SRGB', 'BT709', 'ST2084', 'SLOG', 'SLOG2', 'SLOG3', 'HLG']
ONE = E(1.0); ZERO = E(0.0)
Z2 = 0.030001222851889303
BK, WV = 64 / 1024, 876 / 1024
S3 = 171.2102946929


def enc(t, x):
    if t == 'SRGB':
        return [(-1e6, 0, ZERO), (0, 0.0031307, x * 12.92), (0.0031309, 1, 1.055 * x ** (1 / 2.4) - 0.055), (1, 1e6, ONE)]
    if t == 'BT709':
        return [(-1e6, 0, ZERO), (0, 0.017999, x * 4.5), (0.018001, 1, 1.099 * x ** 0.45 - 0.099), (1, 1e6, ONE)]
    if t == 'ST2084':
        q = (x / 100) ** m1
        return [(-1e6, 0, ZERO), (1e-7, 100, ((c1 + c2 * q) / (1 + c3 * q)) ** m2), (100, 1e6, ONE)]
    if t == 'HLG':
        return [(-1e6, 0, ZERO), (0, 1, 0.5 * F('sqrt', x)), (1, 1e6, HA * F('log', x - HB) + HC)]
    if t == 'SLOG':
        f = lambda v: 0.432699 * L10(v + 0.037584) + 0.616596 + 0.03
        return [(-1e6, 0, f(ZERO)), (0, 10, f(x)), (10, 1e6, f(E(10.0)))]
    if t == 'SLOG2':
        return [(-1, -1e-7, (x * 3.53881278538813 + Z2) * WV + BK, -1e6), (0, 100, (0.432699 * L10(155 * x / 219 + 0.037584) + 0.616596 + 0.03) * WV + BK, 1e6)]
    if t == 'SLOG3':
        return [(-1, 0.011249, (x * (S3 - 95) / 0.01125 + 95) / 1023, -1e6), (0.011251, 100, (420 + L10((x + 0.01) / 0.19) * 261.5) / 1023, 1e6)]


def dec(t, x):
    if t == 'SRGB':
        return [(-1e6, 0, ZERO), (0, 0.040449, x / 12.92), (0.040451, 1, ((x + 0.055) / 1.055) ** 2.4), (1, 1e6, ONE)]
    if t == 'BT709':
        return [(-1e6, 0, ZERO), (0, 0.080999, x / 4.5), (0.081001, 1, ((x + 0.099) / 1.099) ** (1 / 0.45)), (1, 1e6, ONE)]
    if t == 'ST2084':
        p = x ** (1 / m2)
        n = p - c1
        return [(0, 7e-7, ZERO), (8e-7, 1, 100 * (n / (c2 - c3 * p)) ** (1 / m1))]
    if t == 'HLG':
        return [(-1e6, 0, ZERO), (0, 0.5, 4 * x * x), (0.500001, 4, F('exp', (x - HC) / HA) + HB, 8.0)]
    if t == 'SLOG':
        return [(0, 1.1, E(10.0) ** ((x - 0.616596 - 0.03) / 0.432699) - 0.037584, -10.0), (1.0, 1.1, E(10.0) ** ((x - 0.616596 - 0.03) / 0.432699) - 0.037584, 5.0)]
    if t == 'SLOG2':
        ire = (x - BK) / WV
        z = Z2 * WV + BK
        return [(-1e6, z - 1e-5, ZERO), (z + 1e-5, 1.1, 219 * (E(10.0) ** ((ire - 0.616596 - 0.03) / 0.432699) - 0.037584) / 155, 5.0)]
    if t == 'SLOG3':
        k = S3 / 1023
        return [(0, k - 1e-5, (x * 1023 - 95) * 0.01125 / (S3 - 95), -1e6), (k + 1e-5, 1.1, E(10.0) ** ((x * 1023 - 420) / 261.5) * 0.19 - 0.01, 3.0)]


def curve(cx, m, fn, t, g=1.0):
    """value graph of one channel of fn for type t; returns (3 nodes)"""
    R = cx.call(m, fn, TYPES.index(t), ('in', 'a', 3), g if not isinstance(g, float) else C(g), ('out', 3), title='%s %s' % (fn[2:], t))
    return R[0] if R else None


def pieces(cx, title, node, ps, v, atol, rtol, **kw):
    """a fourth entry extends the piece for the refutation pass"""
    for lo, hi, s, *w in ps:
        wide = {v: (min(float(lo), *w, hi), max(float(hi), *w, lo))} if w else None
        cx.claim('%s on [%g,%g]' % (title, lo, hi), node, s, {v: (float(lo), float(hi))}, atol, rtol, wide=wide, **kw)
