"""Exact normal form: Laurent polynomials with rational coefficients over atoms."""
from fractions import Fraction
from expr import *
import math, time

# monomial: tuple of (atom, exponent) sorted by atom key; atom: ('v',name) | ('n', node id)
# poly: dict monomial -> Fraction
LIMIT = 4000


class TooBig(Exception):
    pass


_atoms = {}     # key -> node
_invs = {}      # atom key of an inverse -> poly it inverts
_sq = {}        # atom key of sqrt -> poly under the root
_memo = {}
_fail = set()
_dead = 0.0


def reset():
    _atoms.clear(); _invs.clear(); _sq.clear(); _memo.clear(); _fail.clear()


def mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        x = d.get(k, 0) + e
        if x: d[k] = x
        else: d.pop(k, None)
    return tuple(sorted(d.items(), key=lambda t: repr(t[0])))


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > LIMIT: raise TooBig()
    r = {}
    for m1, c1 in a.items():
        if time.time() > _dead: raise TooBig()
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            x = r.get(m, 0) + c1 * c2
            if x: r[m] = x
            else: r.pop(m, None)
    return reduce_sq(r)


def reduce_sq(r):
    for _ in range(64):
        if time.time() > _dead: raise TooBig()
        hit = None
        for m in r:
            for k, e in m:
                if k in _sq and e >= 2:
                    hit = (m, k, e)
                    break
            if hit: break
        if not hit: return r
        m, k, e = hit
        c = r.pop(m)
        rest = tuple(t for t in m if t[0] != k)
        if e % 2: rest = mono_mul(rest, ((k, 1),))
        p = {rest: c}
        for _ in range(int(e // 2)): p = pmul(p, _sq[k])
        r = padd(r, p)
    return r


def pkey(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=lambda t: repr(t[0])))


def pconst(p):
    if not p: return Fraction(0)
    if len(p) == 1 and () in p: return p[()]
    return None


def lead(p):
    return max(p, key=lambda m: (sum(e for _, e in m), repr(m)))


def pdivexact(a, b):
    """a / b if exact, else None (true polynomial division in the first atoms)"""
    lb = lead(b)
    cb = b[lb]
    q = {}
    r = dict(a)
    for _ in range(400):
        if time.time() > _dead: raise TooBig()
        if not r: return q
        lr = lead(r)
        m = mono_mul(lr, tuple((k, -e) for k, e in lb))
        if any(e < 0 for _, e in m): return None
        c = r[lr] / cb
        q[m] = q.get(m, 0) + c
        for mb, c2 in b.items():
            mm = mono_mul(m, mb)
            x = r.get(mm, 0) - c * c2
            if x: r[mm] = x
            else: r.pop(mm, None)
    return None


def nf(root):
    """normal form or None"""
    global _dead
    if root.id in _memo: return _memo[root.id]
    if root.id in _fail: return None
    _dead = time.time() + 0.7
    try:
        for n in topo([root]):
            if n.t != 'f' or n.id in _memo: continue
            cur = n
            if n.id in _fail: raise TooBig()
            _memo[n.id] = _nf1(n)
        return _memo[root.id]
    except TooBig:
        _fail.add(cur.id); _fail.add(root.id)
        return None


_ids = {}


def intern(key):
    return ('a', _ids.setdefault(key, len(_ids)))


def atom(n, key):
    k = intern(key)
    _atoms.setdefault(k, n)
    return {((k, 1),): Fraction(1)}


def _nf1(n):
    op = n.op
    if op == 'c':
        v = cv(n)
        if v != v or math.isinf(v): return atom(n, ('c', repr(v)))
        return {(): Fraction(v)} if v else {}
    if op == 'var':
        k = ('v', n.args[0])
        _atoms.setdefault(k, n)
        return {((k, 1),): Fraction(1)}
    ch = []
    for a in n.args:
        if a.__class__ is N:
            if a.t != 'f': return atom(n, ('id', n.id))
            p = _memo.get(a.id)
            if p is None: return atom(n, ('id', n.id))
            ch.append(p)
    if op == 'add': return padd(ch[0], ch[1])
    if op == 'sub': return padd(ch[0], ch[1], -1)
    if op == 'neg': return {m: -c for m, c in ch[0].items()}
    if op == 'mul':
        if len(ch[0]) * len(ch[1]) > LIMIT: return atom(n, ('id', n.id))
        return pmul(ch[0], ch[1])
    if op == 'div': return pdiv(n, ch[0], ch[1])
    if op == 'pow' and isc(n.args[1]):
        e = cv(n.args[1])
        if e == int(e) and 0 <= e <= 12 and len(ch[0]) ** int(e) < 3000:
            r = {(): Fraction(1)}
            for _ in range(int(e)): r = pmul(r, ch[0])
            return r
        if e == int(e) and -12 <= e < 0 and len(ch[0]) == 1:
            (m, c), = ch[0].items()
            return {tuple((k, int(e) * x) for k, x in m): c ** int(e)}
    if op in ('sqrt', 'newton'):
        k = intern(('sqrt', pkey(ch[0])))
        _atoms.setdefault(k, n)
        _sq[k] = ch[0]
        return {((k, 1),): Fraction(1)}
    if op == 'sel' or op == 'tab': return atom(n, ('id', n.id))
    if sum(map(len, ch)) > 200: return atom(n, ('id', n.id))
    return atom(n, (op,) + tuple(pkey(c) for c in ch) + tuple(repr(a) for a in n.args if a.__class__ is not N))


def pdiv(n, a, b):
    if not b: return atom(n, ('id', n.id))
    if len(b) == 1:
        (m, c), = b.items()
        inv = tuple((k, -e) for k, e in m)
        return reduce_sq({mono_mul(mm, inv): cc / c for mm, cc in a.items()})
    if not a: return {}
    q = pdivexact(a, b)
    if q is not None: return q
    # common monomial content of b
    lb = lead(b)
    c = b[lb]
    bn = {m: x / c for m, x in b.items()}
    k = intern(('inv', pkey(bn)))
    if k not in _atoms:
        _atoms[k] = fbin('div', C(1.0), tonode(bn), 'double')
        _invs[k] = bn
    return pmul({m: x / c for m, x in a.items()}, {((k, 1),): Fraction(1)})


def tonode(p):
    """rebuild a node from a polynomial"""
    r = None
    for m, c in sorted(p.items(), key=lambda t: repr(t[0])):
        t = None
        den = None
        for k, e in m:
            a = _atoms[k]
            if e < 0:
                x = a if e == -1 else fn('pow', a, C(float(-e)))
                den = x if den is None else fbin('mul', den, x, 'double')
            else:
                x = a if e == 1 else fn('pow', a, C(float(e)))
                t = x if t is None else fbin('mul', t, x, 'double')
        cf = C(float(c))
        t = cf if t is None else (t if c == 1 else fbin('mul', cf, t, 'double'))
        if den is not None: t = fbin('div', t, den, 'double')
        r = t if r is None else fbin('add', r, t, 'double')
    return r if r is not None else C(0.0)


def simp(n):
    p = nf(n)
    if p is None or len(p) > 60: return n
    return tonode(p)


def affine(n):
    """({var: Fraction}, const) if n is affine in variables, else None"""
    p = nf(n)
    if p is None: return None
    co = {}
    c0 = Fraction(0)
    for m, c in p.items():
        if m == (): c0 = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'v': co[m[0][0][1]] = c
        else: return None
    return co, c0


def factored(n):
    """node equal to n with the common monomial factor pulled out (or None)"""
    p = nf(n)
    if p is None or not 2 <= len(p) <= 40: return None
    ms = [dict(m) for m in p]
    com = []
    for k in ms[0]:
        es = [m.get(k, 0) for m in ms]
        e = min(es) if min(es) > 0 else (max(es) if max(es) < 0 else 0)
        if e: com.append((k, e))
    if not com: return None
    com = tuple(sorted(com, key=lambda t: repr(t[0])))
    inv = tuple((k, -e) for k, e in com)
    rest = {mono_mul(m, inv): c for m, c in p.items()}
    return fbin('mul', tonode({com: Fraction(1)}), tonode(rest), 'double')


def lin(n):
    """the normal form is a sum of multiples of single atoms"""
    p = nf(n)
    return p is not None and len(p) <= 20 and all(m == () or (len(m) == 1 and m[0][1] == 1 and m[0][0] not in _invs) for m in p)


def deep(root):
    """rebuild root with the arguments of every non-polynomial node in normal form"""
    memo = {}
    for n in topo([root]):
        k = [a for a in n.args if a.__class__ is N] if n.op != 'bits' else []
        if not k:
            memo[n.id] = n
            continue
        ch = [memo[a.id] for a in k]
        if n.t == 'f' and n.op not in ('add', 'sub', 'mul', 'neg', 'div', 'sel', 'tab', 'c', 'var'):
            ch = [simp(c) if c.t == 'f' and not isc(c) and lin(c) else c for c in ch]
        memo[n.id] = n if all(x is y for x, y in zip(ch, k)) else rebuild(n, ch)
    return memo[root.id]
