from harness import *
from otf import *
TEXT = ('Value graph of one channel of toScreen/toScene (SLOG, SLOG2, SLOG3) compared with Sony\'s published formulas on every piece of their range by interval '
        'enclosures (mean-value form) after splitting at the code\'s comparisons.')


def check(cx):
    m = cx.module('otf.cpp')
    for t in ('SLOG', 'SLOG2', 'SLOG3'):
        for fn, f in (('c_toScreen', enc), ('c_toScene', dec)):
            o = curve(cx, m, fn, t)
            if not o: continue
            for i in range(3):
                at, rt = (2e-4, 0) if fn == 'c_toScreen' else (2e-4, 2e-4)
                pieces(cx, '%s %s ch%d' % (fn[2:], t, i), o[i], f(t, V('a%d' % i)), 'a%d' % i, at, rt)
