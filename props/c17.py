from harness import *
import consts
import math
import numpy as np
TEXT = ('Value graphs of the sampling function per interpolation cell with symbolic samples, range and position inside the cell, compared with linear interpolation; every table access '
        'is an index obligation. Constant propagation covers NaN, infinities and the floats next to the ends of the range; the resampling constructor is compared at all 400 points.')


def nodes(xs): return [E.of(x).n for x in xs]


def nx(x, up, k=1):
    v = np.float32(x)
    for _ in range(k): v = np.nextafter(v, np.float32(np.inf if up else -np.inf))
    return float(v)


def check(cx):
    m = cx.module('c17.cpp')
    r, lo, w, t = V('r'), V('lo'), V('w'), V('t')
    NS = [2, 3, 4, 5, 9, 17, 81] + ([33, 101, 256, 400] if cx.deep else [])
    # counts on both sides of the integer constants in the sampling code
    ks, widths, fns = consts.constants(m, ['c_fetch'])
    NS = sorted(set(NS) | {k for k in consts.near({k for k in ks if k not in (400, 1600)} | {1 << (w - 1) for w in widths}, 5000, 4) if k >= 2} | {1024})
    cx.extra['sample_counts'] = NS
    for n in NS:
        smp = [V('s%d' % i) for i in range(n)]
        bs = {'s%d' % i: (-2.0, 2.0) for i in range(n)}
        cnt = n - 1
        if time.time() - cx.t0 > (250 if not cx.deep else 2000):
            cx.undecided('fetch of %d samples' % n, 'time limit'); continue
        bx = dict(bs, r=(1e-3, 1 - 1e-3), lo=(-100.0, 1000.0), w=(0.5, 1000.0))
        cells = range(cnt) if n <= 17 or cx.deep else sorted({0, 1, cnt // 2, cnt - 2, cnt - 1})
        for k in cells:
            pos = lo + w * (k + r) / float(cnt)
            R = cx.call(m, 'c_fetch', nodes(smp), n, nodes([lo, lo + w, pos]), ('out', 1), title='fetch %d samples cell %d' % (n, k))
            if R: cx.claim('fetch of %d samples, cell %d' % (n, k), R[0][0], smp[k] * (1 - r) + smp[k + 1] * r, bx, 1e-3)
        for k in list(cells) + [cnt]:
            pos = lo + w * float(k) / float(cnt)
            R = cx.call(m, 'c_fetch', nodes(smp), n, nodes([lo, lo + w, pos]), ('out', 1), title='fetch %d samples at %d' % (n, k))
            if R: cx.claim('fetch of %d samples at sample %d' % (n, k), R[0][0], smp[k], bx, 1e-3)
        for nm, pos, b, s in (('below', lo - t, (0.0, 1e6), smp[0]), ('above', lo + w + t, (0.0, 1e6), smp[cnt])):
            R = cx.call(m, 'c_fetch', nodes(smp), n, nodes([lo, lo + w, pos]), ('out', 1), title='fetch %d samples %s' % (n, nm))
            if R:
                cx.claim('fetch of %d samples, %s the range' % (n, nm), R[0][0], s, dict(bx, t=b), 1e-3)
        for a, b in ((380.0, 779.0), (0.0, 1.0), (-5.0, 3.0), (400.0, 700.0)):
            R = cx.call(m, 'c_fetch', nodes(smp), n, nodes([a, b, t]), ('out', 1), title='fetch %d samples' % n)
            if R: cx.bounds('fetch of %d samples over [%g,%g], any wavelength' % (n, a, b), cx.last, dict(bs, t=(-3e38, 3e38)))
            # special and boundary constants
            for tv in [math.nan, math.inf, -math.inf, 3e38, -3e38, 0.0, a, b] + [nx(b, False, i) for i in (1, 2, 3)] + [nx(a, True, i) for i in (1, 2)] + [nx(a, False), nx(b, True)]:
                R = cx.call(m, 'c_fetch', nodes(smp), n, nodes([a, b, tv]), ('out', 1), title='fetch %d samples over [%g,%g] at %r' % (n, a, b, tv))
                if not R: continue
                if tv != tv or tv <= a: s = smp[0]
                elif tv >= b: s = smp[cnt]
                else:
                    q = cnt * (tv - a) / (b - a); k = min(int(q), cnt - 1)
                    s = smp[k] * (1 - (q - k)) + smp[k + 1] * (q - k)
                cx.claim('fetch %d samples over [%g,%g] at %r' % (n, a, b, tv), R[0][0], s, bs, 1e-2, hunt=None)
    # positions close to a sample, where the range makes all of the arithmetic nearly exact
    for n in (2, 3, 5):
        smp = [V('s%d' % i) for i in range(n)]
        bs = {'s%d' % i: (-2.0, 2.0) for i in range(n)}
        for k in range(n - 1):
            R = cx.call(m, 'c_fetch', nodes(smp), n, nodes([0.0, n - 1.0, k + r]), ('out', 1), title='fetch %d samples cell %d' % (n, k))
            if R: cx.claim('fetch of %d samples, close to samples %d and %d' % (n, k, k + 1), R[0][0], smp[k] * (1 - r) + smp[k + 1] * r, dict(bs, r=(1e-6, 1 - 1e-6)), 2e-5)
    # boundary constants over many ranges and counts: the float next to the end must not read past the table
    bad = 0
    for n in (2, 3, 5, 7, 10, 11, 31, 36, 41, 81, 95, 101, 331, 400, 401, 471, 830):
        for a, b in ((380.0, 779.0), (380.0, 780.0), (360.0, 830.0), (0.0, 1.0), (0.1, 0.7), (1.0, 1.1), (-1.0, 1.0), (1e-3, 1e3), (400.0, 700.0)):
            a, b = f32(a), f32(b)
            for tv in [nx(b, False, i) for i in (1, 2, 4)] + [nx(a, True), f32(a + (b - a) * 0.5)]:
                R = cx.call(m, 'c_fetch', [C(float(i % 7)) for i in range(n)], n, nodes([a, b, tv]), ('out', 1), title='fetch %d samples over [%g,%g] at %r' % (n, a, b, tv))
                if R is None: bad += 1
    # long tables: the sample picked and its weight, by constant propagation
    for n in (255, 256, 257, 4097, 32769, 65537, 70001, 140001):
        val = [f32(1000.0 * (i / (n - 1.0)) ** 2) for i in range(n)]
        tab = [C(x) for x in val]      # curved, so that no other pair of samples gives the value
        for a, b in ((0.0, 1.0), (380.0, 780.0)):
            for q in (0.03, 0.25, 0.5, 0.75, 0.9, 0.97):
                tv = f32(a + (b - a) * q)
                R = cx.call(m, 'c_fetch', tab, n, nodes([a, b, tv]), ('out', 1), title='fetch %d samples over [%g,%g] at %r' % (n, a, b, tv))
                p_ = (n - 1) * (tv - a) / (b - a); k = min(int(p_), n - 2)
                if R: cx.claim('fetch of a curved table of %d samples over [%g,%g] at %r' % (n, a, b, tv), R[0][0], val[k] + (val[k + 1] - val[k]) * (p_ - k), {}, 0.05, hunt=None)
    if not bad: cx.holds('fetch at the floats next to the ends of the range stays inside the table', 'constant propagation')
    # member form
    smp = [V('s%d' % i) for i in range(400)]
    bs = {'s%d' % i: (-2.0, 2.0) for i in range(400)}
    for k in range(0, 399, 1 if cx.deep else 7):
        R = cx.call(m, 'c_mem', nodes(smp), nodes([380.0 + k + r]), ('out', 1), title='member fetch')
        if R: cx.claim('member fetch between %d and %dnm' % (380 + k, 381 + k), R[0][0], smp[k] * (1 - r) + smp[k + 1] * r, dict(bs, r=(1e-3, 1 - 1e-3)), 1e-3)
    for tv, k in ((100.0, 0), (380.0, 0), (779.0, 399), (1e9, 399), (math.nan, 0), (500.0, 120)):
        R = cx.call(m, 'c_mem', nodes(smp), nodes([tv]), ('out', 1), title='member fetch')
        if R: cx.claim('member fetch at %g' % tv, R[0][0], smp[k], bs, 2e-3)
    # resampling constructor
    R = cx.call(m, 'c_ctor0', nodes(smp), ('out', 400), title='resampling constructor')
    if R: cx.claims_vec('constructor from 400 samples', R[0], smp, bs, 1e-3)
    # the default count and the default ends each with others, and counts around the constants of the code
    extra = ((400, 400.0, 700.0), (400, 380.0, 780.0), (400, 300.0, 900.0), (401, 380.0, 779.0), (401, 380.0, 780.0), (399, 380.0, 779.0), (41, 380.0, 500.0), (10, 600.0, 779.0))
    ks, widths, fns = consts.constants(m, ['c_ctor'])
    extra += tuple((k, 350.0, 850.0) for k in consts.near((set(ks) - {400, 1600}) | {1 << (w - 1) for w in widths}, 1000, 4) if k >= 2 and k not in (399, 400, 401))
    cx.extra['constructor_counts'] = [e[0] for e in extra]
    for n, a, b in ((2, 380.0, 779.0), (5, 400.0, 700.0), (81, 380.0, 780.0), (36, 380.0, 730.0), (3, 500.0, 501.5), (471, 360.0, 830.0), (7, 100.0, 200.0), (4, 900.0, 1000.0)) + extra:
        R = cx.call(m, 'c_ctor', nodes([V('s%d' % i) for i in range(n)]), n, nodes([a, b]), ('out', 400), title='constructor %d samples over [%g,%g]' % (n, a, b))
        if not R: continue
        sp = [V('s%d' % i) for i in range(n)]
        for i in sorted(set(range(0, 400, 1 if cx.deep or n < 100 or (n, a, b) not in extra else 9)) | {1, 2, 397, 398, 399}):
            tv = 380.0 + i
            if tv <= a: s = sp[0]
            elif tv >= b: s = sp[n - 1]
            else:
                q = (n - 1) * (tv - a) / (b - a); k = min(int(q), n - 2)
                s = sp[k] * (1 - (q - k)) + sp[k + 1] * (q - k)
            cx.claim('constructor from %d samples over [%g,%g], point %d' % (n, a, b, i), R[0][i], s, {'s%d' % j: (-2.0, 2.0) for j in range(n)}, 5e-3, hunt=None)
