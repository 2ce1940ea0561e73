from harness import *
from c18 import nodes, tot
TEXT = ('Value graphs of the observer integrals with symbolic observer curves (3 x 400 samples), spectra and wavelengths, compared with the normalised weighted sums by value numbering; '
        'the three named observers with their tabulated curves by constant propagation.')


def check(cx):
    m = cx.module('c19.cpp')
    cv3 = [[V('%s%d' % (k, i)) for i in range(400)] for k in 'xyz']
    s, l = ([V('%s%d' % (k, i)) for i in range(400)] for k in 'sl')
    A = [nodes(c) for c in cv3]
    bx = {'%s%d' % (k, i): (0.01, 2.0) for k in 'xyz' for i in range(400)}
    bx.update({'%s%d' % (k, i): (0.0, 2.0) for k in 'sl' for i in range(400)})
    S = [tot(c) for c in cv3]
    wd = {'%s%d' % (k, i): (-100.0, 100.0) for k in 'sl' for i in range(400)} | {'w': (-1e6, 1e6)}
    wx = wd | {'%s%d' % (k, i): (-2.0, 2.0) for k in 'xyz' for i in range(400)}
    R = cx.call(m, 'c_int', *A, nodes(s), ('out', 3), title='fromSpectrum')
    if R: cx.claims_vec('fromSpectrum', R[0], [tot([a * b for a, b in zip(c, s)]) / t for c, t in zip(cv3, S)], bx, 1e-3, wide=wx)
    R = cx.call(m, 'c_one', *A, ('out', 6), title='equal-energy spectrum')
    if R: cx.claims_vec('equal-energy spectrum integrates to one', R[0], [1.0] * 6, bx, 1e-3, wide=wx)
    R = cx.call(m, 'c_refl', *A, nodes(s), nodes(l), ('out', 6), title='fromReflectanceAndLight')
    if R: cx.claims_vec('fromReflectanceAndLight', R[0], [tot([a * b * q for a, b, q in zip(c, s, l)]) / t for c, t in zip(cv3, S)] * 2, bx, 1e-3, wide=wx)
    R = cx.call(m, 'c_self', *A, nodes(s), ('out', 9), title='shared objects')
    if R:
        cx.claims_vec('same spectrum as reflectance and light', R[0][:3], [tot([a * b * b for a, b in zip(c, s)]) / t for c, t in zip(cv3, S)], bx, 1e-3, wide=wx)
        cx.claims_vec('same spectrum as curves and operand', R[0][3:], [tot([a * a for a in cv3[0]]) / S[0]] * 3 + [tot([a * a * b for a, b in zip(cv3[0], s)]) / S[0]] * 3, bx, 1e-3, wide=wd)
    try: ms = cx.module('c19s.cpp')
    except CheckError as e: ms = None; cx.undecided('unnormalised integrals', 'not available under these names: %s' % str(e)[:200])
    if ms:
        I2 = lambda q, c: tot([a * b for a, b in zip(q, c)])
        I3 = lambda q, k, c: tot([a * b * d for a, b, d in zip(q, k, c)])
        x, y, z = cv3
        R = cx.call(ms, 'c_raw', *A, nodes(s), nodes(l), ('out', 6), title='unnormalised integrals')
        if R: cx.claims_vec('unnormalised integrals', R[0], [I2(s, c) for c in cv3] + [I3(s, l, c) for c in cv3], bx, 1e-2, 1e-3, wide=wx)
        R = cx.call(ms, 'c_rawsame', A[0], A[1], nodes(s), nodes(l), ('out', 12), title='unnormalised integrals with shared operands')
        if R: cx.claims_vec('unnormalised integrals with shared operands', R[0], [I2(s, x), I2(s, y), I2(s, x), I2(x, x), I2(x, y), I2(x, y), I3(s, l, x), I3(s, l, y), I3(s, l, x), I3(s, s, x), I3(s, s, x), I3(s, s, y)], bx, 1e-2, 1e-3, wide=wx)
    r, w = V('r'), V('w')
    bx.update(r=(1e-3, 1 - 1e-3), w=(0.0, 100.0))
    for k in sorted({0, 1, 100, 199, 397, 398} | set(range(0, 399, 1 if cx.deep else 40))):
        R = cx.call(m, 'c_mono', *A, nodes([380.0 + k + r, w]), ('out', 7), title='monochromatic')
        if not R: continue
        v = [c[k] * (1 - r) + c[k + 1] * r for c in cv3]
        o = R[0]
        cx.claim('lumensFromMonochromaticFlux between %d and %dnm' % (380 + k, 381 + k), o[0], v[1] * w * 683, bx, 1e-2, 1e-3, wide=wx)
        cx.claims_vec('candellasFromMonochromaticRadiance between %d and %dnm' % (380 + k, 381 + k), o[1:4], [x * w * 683 for x in v], bx, 1e-2, 1e-3, wide=wx)
        cx.claims_vec('xyz between %d and %dnm' % (380 + k, 381 + k), o[4:7], [x / t for x, t in zip(v, S)], bx, 1e-5, 1e-3, wide=wx)
    for lam, k in ((300.0, 0), (380.0, 0), (779.0, 399), (900.0, 399), (555.0, 175)):
        R = cx.call(m, 'c_mono', *A, nodes([lam, w]), ('out', 7), title='monochromatic')
        if R: cx.claims_vec('monochromatic at %gnm' % lam, R[0], [cv3[1][k] * w * 683] + [c[k] * w * 683 for c in cv3] + [c[k] / t for c, t in zip(cv3, S)], bx, 1e-2, 1e-3, wide=wx)
    R = cx.call(m, 'c_named', nodes(s), ('out', 18), title='named observers')
    if R: cx.claims_vec('named observer normalised', R[0][9:], [1.0] * 9, bx, 1e-4)
