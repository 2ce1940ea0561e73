"""Random interpretation (Gulwani & Necula): value numbering of graphs modulo the field axioms.

Every node gets a value in GF(p) for random values of its inputs; non-rational
operations are uninterpreted functions of the values of their arguments, except
sqrt and cbrt, which are the field's own roots.  Two graphs with equal values
are equal as rational expressions over those atoms, except with probability < 2^-50.
"""
import hashlib
from fractions import Fraction
from expr import *


def _isprime(n):
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True


P = (1 << 61) + 1
while not (P % 4 == 3 and P % 3 == 2 and _isprime(P)): P += 2
INV3 = pow(3, -1, P - 1)


class RI:
    def __init__(self, seed=0):
        self.seed = seed
        self.memo = {}
        self.nonres = set()

    def rnd(self, *k):
        h = hashlib.blake2b(repr((self.seed,) + k).encode(), digest_size=16).digest()
        return int.from_bytes(h, 'little') % P

    def const(self, v):
        if v != v: return None
        if v in (float('inf'), float('-inf')): return None
        f = Fraction(v)
        return f.numerator * pow(f.denominator, -1, P) % P

    def __call__(self, root):
        m = self.memo
        r = m.get(root.id, 0)
        if root.id in m: return m[root.id]
        for n in topo([root]):
            if n.id in m: continue
            m[n.id] = self.ev(n)
        return m[root.id]

    def ev(self, n):
        op = n.op
        m = self.memo
        if op == 'c': return self.const(cv(n))
        if op == 'var': return self.rnd('var', n.args[0])
        if op == 'bits':
            return self.rnd('bits', tuple(b if b.__class__ is int else (m[b[0].id], b[1]) for b in n.args))
        ch = [m[a.id] for a in n.args if a.__class__ is N]
        if any(c is None for c in ch): return None
        if n.t == 'f' or op in ('add', 'sub', 'mul'):
            if op == 'add': return (ch[0] + ch[1]) % P
            if op == 'sub': return (ch[0] - ch[1]) % P
            if op == 'mul': return ch[0] * ch[1] % P
            if op == 'neg': return -ch[0] % P
            if op == 'div': return ch[0] * pow(ch[1], -1, P) % P if ch[1] else None
            if op in ('sqrt', 'newton'):
                t = pow(ch[0], (P + 1) // 4, P)
                if t * t % P != ch[0]: self.nonres.add(n.id)
                return min(t, P - t)
            if op == 'cbrt': return pow(ch[0], INV3, P)
            if op == 'pow' and isc(n.args[1]):
                e = cv(n.args[1])
                if e == int(e) and abs(e) <= 1000:
                    if e < 0 and ch[0] == 0: return None
                    return pow(ch[0], int(e), P)
                if e == 0.5:
                    t = pow(ch[0], (P + 1) // 4, P)
                    if t * t % P != ch[0]: self.nonres.add(n.id)
                    return min(t, P - t)
            # values and symmetries of elementary functions
            if op in ('sin', 'tan', 'atan', 'cbrt'):
                x = ch[0]
                if x == 0: return 0
                y = min(x, P - x)
                r = self.rnd(op, y)
                return r if y == x else -r % P
            if op == 'cos':
                if ch[0] == 0: return 1
                return self.rnd(op, min(ch[0], P - ch[0]))
            if op in ('exp', 'pow') and ch[-1] == 0: return 1
            if op in ('log', 'log10', 'log2') and ch[0] == 1: return 0
        if op in ('lt', 'le', 'eq'):
            d = (ch[0] - ch[1]) % P
            if op == 'eq': d = min(d, P - d)
            return self.rnd(op, d)
        if op in ('and', 'or'):
            return self.rnd(op, tuple(sorted(ch)))
        return self.rnd(op, tuple(ch), tuple(a for a in n.args if a.__class__ is not N))


_runs = [RI(i) for i in range(1, 6)]


def h(n):
    """value number of a node (independent values; several, because the sign of a square root is arbitrary)"""
    return tuple(r(n) for r in _runs)


def reset(seed):
    global _runs
    _runs = [RI((i, seed)) for i in range(5)]


def equal(a, b, seed=1, need=3):
    """True if a and b are equal rational expressions over their atoms"""
    if a is b: return True
    got = 0
    tries = 0
    while got < need and tries < 400:
        r = RI((seed, tries))
        tries += 1
        x, y = r(a), r(b)
        if x is None or y is None:
            return False
        if r.nonres:
            # a square root without value in this field instance: try another instance
            if x == y: got += 1
            continue
        if x != y: return False
        got += 1
    return got >= need
