from harness import *
from otf import *
TEXT = ('For each of the nine transfer types the value graph of toScreen/toScene is built with three symbolic channels and a symbolic gamma. Data dependence of each '
        'output channel, equality of the three channels under renaming (value numbering), independence of gamma and agreement with the named curve are decided.')


def ren(n, i):
    return subst(n, {var('a0').id: var('a%d' % i)})


def check(cx):
    m = cx.module('otf.cpp')
    g = V('g')
    bx = {'a0': (0.02, 0.9), 'a1': (0.02, 0.9), 'a2': (0.02, 0.9), 'g': (0.5, 3.0)}
    for t in TYPES:
        for fn in ('c_toScreen', 'c_toScene'):
            o = curve(cx, m, fn, t, g.n)
            if not o: continue
            ti = '%s %s' % (fn[2:], t)
            for i in (1, 2):
                cx.claim('%s: channel %d uses the same curve as channel 0 and only its own input' % (ti, i), o[i], ren(o[0], i), {'a%d' % k: (0.0, 1.0) for k in range(3)} | {'g': (0.5, 3.0)}, 1e-6, 1e-6,
                         wide={'a%d' % k: (-1e6, 1e6) if t != 'GAMMA' else (1e-12, 1e6) for k in range(3)} | {'g': (0.1, 20.0)})
            allowed = {'a0'} | ({'g'} if t == 'GAMMA' else set())
            # independence: renaming the variables that must not matter leaves the value unchanged
            dep = set(vars_of(o[:1])) - allowed
            if not dep: cx.holds('%s: channel 0 depends on %s only' % (ti, sorted(allowed)), 'data dependence')
            else:
                cx.claim('%s: channel 0 depends on %s only' % (ti, sorted(allowed)), o[0], subst(o[0], {var(d).id: var('q' + d) for d in dep}),
                         dict(bx, **{'q' + d: bx[d] for d in dep}), 1e-6, 1e-6,
                         wide={p + 'a%d' % k: (-1e6, 1e6) if t != 'GAMMA' else (1e-12, 1e6) for k in range(3) for p in ('', 'q')} | {'g': (0.1, 20.0), 'qg': (0.1, 20.0)})
            if t == 'LINEAR':
                cx.claims_vec(ti + ' is the identity', o, [V('a%d' % i) for i in range(3)], {'a%d' % k: (-1e6, 1e6) for k in range(3)})
            elif t == 'GAMMA':
                a = V('a0')
                cx.claim(ti + ' is the power curve', o[0], a ** (1 / g) if fn == 'c_toScreen' else a ** g, bx, 1e-5, 1e-5, wide={'a0': (1e-18, 1e6), 'g': (0.1, 20.0)})
            else:
                ps = (enc if fn == 'c_toScreen' else dec)(t, V('a0'))
                pieces(cx, ti + ' is the named curve', o[0], [p for p in ps if p[1] <= 101], 'a0', 0.02, 0.02)
            # the form without gamma parameter
            R = cx.call(m, fn + '1', TYPES.index(t), ('in', 'a', 3), ('out', 3))
            if R:
                sp = [subst(x, {g.n.id: C(1.0)}) for x in o]
                cx.claims_vec(ti + ' default gamma is 1', R[0], sp, {'a%d' % k: (0.0, 1.0) for k in range(3)}, wide={'a%d' % k: (-1e6, 1e6) if t != 'GAMMA' else (1e-12, 1e6) for k in range(3)})
