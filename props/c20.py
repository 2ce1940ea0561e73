from harness import *
import lzma, struct
TEXT = ('Constant propagation of every named spectrum, sample list and observer through the IR initialisers and constructors; all 133 x 400 values are compared with the reference data '
        'in data/tables.bin.xz, lists element by element with their tables in order, observers with their three curves.')


def check(cx):
    m = cx.module('c20.cpp')
    names = json.load(open(os.path.join(ROOT, 'data', 'tables.json')))
    raw = lzma.decompress(open(os.path.join(ROOT, 'data', 'tables.bin.xz'), 'rb').read())
    ref = {n: struct.unpack_from('<400f', raw, 1600 * i) for i, n in enumerate(names)}
    ces = [n for n in names if n.startswith('CES')]; mac = [n for n in names if n.startswith('Mac')]

    def table(title, vals, want):
        bad = []
        und = 0
        for i, (v, w) in enumerate(zip(vals, want)):
            if v is UNDEF: bad.append((i, 'missing', w))
            elif not (v.__class__ is N and isc(v)): und += 1
            elif not abs(cv(v) - w) <= 2e-7 * abs(w) + 1e-30: bad.append((i, cv(v), w))
        if bad: cx.violation(title, '%d samples differ; first: sample %d (%d nm) is %s, published %s' % (len(bad), bad[0][0], 380 + bad[0][0], bad[0][1], bad[0][2]),
                             [('include/colorsystem.hpp', 0, title)])
        elif und: cx.undecided(title, '%d samples not constant' % und)
        else: cx.holds(title, 'constant propagation', samples=len(want))
        return not bad and not und
    tot = 0
    for n in names:
        R = cx.call(m, 'c_' + n, ('out', 400), title=n)
        if not R: continue
        if table('table %s' % n, R[0], ref[n]):
            tot += 400
            vs = [cv(v) for v in R[0]]
            cx.expect('%s non-negative%s' % (n, ' and at most one' if n in ces + mac else ''), min(vs) >= 0 and (n not in ces + mac or max(vs) <= 1.0), 'value out of range', how='constant propagation')
    R = cx.call(m, 'c_lists', ('out', 123 * 400), ('out', 2, 'i32'), title='sample lists')
    if R:
        sz = R[1]
        cx.expect('list sizes', list(sz) == [99, 24], 'list sizes are %r' % (list(sz),), how='constant propagation')
        for k in range(99): table('TM_30_15::sample[%d]' % k, R[0][400 * k:400 * k + 400], ref[ces[k]])
        for k in range(24): table('Macbeth::Patch[%d]' % k, R[0][400 * (99 + k):400 * (99 + k) + 400], ref[mac[k]])
    R = cx.call(m, 'c_obs', ('out', 3600), title='observers')
    if R:
        for j, o in enumerate(('CIE1931', 'CIE1931_JuddVos', 'CIE2012')):
            for i, c in enumerate('XYZ'): table('observer %s curve %s' % (o, c), R[0][400 * (3 * j + i):400 * (3 * j + i) + 400], ref['%s_%s' % (o, c)])
    cx.extra['table_values_compared'] = tot
