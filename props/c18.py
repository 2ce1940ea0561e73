from harness import *
TEXT = ('Value graphs of every spectrum operation over 400 (1200) symbolic samples: each output sample is compared with the sample-wise formula, each integral with the sum over all '
        '400 samples, by value numbering; operands must come out unchanged.')


def nodes(xs): return [E.of(x).n for x in xs]


def tot(xs):
    r = None
    for x in xs: r = x if r is None else r + x
    return r


def check(cx):
    m = cx.module('c18.cpp')
    a, b, c = ([V('%s%d' % (k, i)) for i in range(400)] for k in 'abc')
    k = V('k')
    A, B, Cn = nodes(a), nodes(b), nodes(c)

    def run(title, fn, args, n, parts):
        R = cx.call(m, fn, *args, ('out', n), title=title)
        if not R: return
        for nm, off, spec in parts:
            for i, s in enumerate(spec): cx.claim('%s%s sample %d' % (title, nm, i), R[0][off + i], s, None, 1e-4, 1e-4, wide={v: (-1e9, 1e9) for v in vars_of([R[0][off + i]])} if R[0][off + i].__class__ is N and R[0][off + i] is not E.of(s).n else None)
    run('samples', 'c_id', (A,), 800, (('', 0, a), (' s()', 400, a)))
    run('scale', 'c_scale', (A, nodes([k])), 1200, (('', 0, [x * k for x in a]), (' operator', 400, [x * k for x in a]), (' operand', 800, a)))
    run('product', 'c_mul', (A, B), 1600, (('', 0, [x * y for x, y in zip(a, b)]), (' operator', 400, [x * y for x, y in zip(a, b)]), (' operand', 800, a), (' operand 2', 1200, b)))
    run('addition', 'c_add', (A, B), 1600, (('', 0, [x + y for x, y in zip(a, b)]), (' operator', 400, [x + y for x, y in zip(a, b)]), (' operand', 800, a), (' operand 2', 1200, b)))
    run('E', 'c_e', (nodes([k]),), 1200, (('', 0, [k] * 400), (' default', 400, [1.0] * 400), ('/empty', 800, [0.0] * 400)))
    run('sum', 'c_sum', (A,), 2, (('', 0, [tot(a)]), (' member', 1, [tot(a)])))
    d = tot([x * y for x, y in zip(a, b)])
    run('dot', 'c_dot', (A, B), 2, (('', 0, [d]), (' member', 1, [d])))
    run('same operand', 'c_same', (A,), 2000, (('', 0, [x * x for x in a] * 2 + [x + x for x in a] * 2 + a),))
    run('same operand dot', 'c_same1', (A,), 3, (('', 0, [tot([x * x for x in a])] * 2 + [tot([x * x * x for x in a])]),))
    run('same operands dot3', 'c_same3', (A, B), 3, (('', 0, [tot([x * x * y for x, y in zip(a, b)])] * 3),))
    run('dot3', 'c_dot3', (A, B, Cn), 1, (('', 0, [tot([x * y * z for x, y, z in zip(a, b, c)])]),))
