"""Hash-consed value graph (gated SSA form) over reals, integers, bits and truth values.

A node is a term; equal terms are the same object.  Children always have smaller
ids than their parents, so ascending id is a topological order.
Constants are folded with the arithmetic of their machine type; everything that
depends on an input stays symbolic.
"""
import math, struct
from fractions import Fraction
import numpy as np

_f32 = struct.Struct('<f')


def f32(x):
    try:
        return _f32.unpack(_f32.pack(x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


class N:
    __slots__ = ('op', 'args', 'id', 't', 'loc', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def reset():
    _tab.clear()


def mk(op, args, t='f', loc=None):
    key = (op, t) + tuple(a.id if a.__class__ is N else ('k', a, a.__class__) for a in args)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op = op
        n.args = tuple(args)
        _cnt[0] += 1
        n.id = _cnt[0]
        n.t = t
        n.loc = loc
        _tab[key] = n
    return n


def C(v):
    """real constant"""
    v = float(v) if not isinstance(v, float) else v
    if v != v: return mk('c', ('nan',))
    if v == 0: v = 0.0   # sign of zero is not tracked
    return mk('c', (v,))


def isc(n):
    return n.op == 'c'


def cv(n):
    v = n.args[0]
    return math.nan if v == 'nan' else v


def var(name):
    return mk('var', (name,))


def ivar(name, width):
    return mk('ivar', (name, width), 'i')


def bconst(b):
    return mk('b', (1 if b else 0,), 'b')


TRUE = bconst(True)
FALSE = bconst(False)
UNDEF = mk('undef', (), 'u')


def _r(x, ty):
    return f32(x) if ty == 'float' else x


def _div(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a)
    return a / b


def fbin(op, a, b, ty='float', loc=None):
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        try:
            if op == 'add': v = x + y
            elif op == 'sub': v = x - y
            elif op == 'mul': v = x * y
            elif op == 'div': v = _div(x, y)
        except OverflowError:
            v = math.inf
        return C(_r(v, ty))
    if op == 'add':
        if isc(a) and cv(a) == 0: return b
        if isc(b) and cv(b) == 0: return a
    elif op == 'sub':
        if isc(b) and cv(b) == 0: return a
    elif op == 'mul':
        if isc(a) and cv(a) == 1: return b
        if isc(b) and cv(b) == 1: return a
    elif op == 'div':
        if isc(b) and cv(b) == 1: return a
    return mk(op, (a, b), 'f', loc)


def fneg(a, loc=None):
    if isc(a): return C(-cv(a))
    if a.op == 'neg': return a.args[0]
    return mk('neg', (a,), 'f', loc)


def _pw(x, y):
    try:
        v = math.pow(x, y)
        return v
    except ValueError:
        if x == 0 and y < 0: return math.inf
        return math.nan
    except OverflowError:
        return math.inf


def _lg(f):
    def g(x):
        if x != x: return x
        if x == 0: return -math.inf
        if x < 0: return math.nan
        return f(x)
    return g


def _ov(f):
    def g(*x):
        try: return f(*x)
        except OverflowError: return math.inf
        except ValueError: return math.nan
    return g


def _cbrt(x):
    if x != x or math.isinf(x): return x
    return math.copysign(abs(x) ** (1.0 / 3.0), x)


FN1 = {
    'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan,
    'cbrt': _cbrt,
    'exp': _ov(math.exp), 'exp2': _ov(lambda x: 2.0 ** x), 'exp10': _ov(lambda x: 10.0 ** x), 'expm1': _ov(math.expm1),
    'log': _lg(math.log), 'log10': _lg(math.log10), 'log2': _lg(math.log2),
    'log1p': lambda x: math.nan if x < -1 else (-math.inf if x == -1 else math.log1p(x)),
    'sin': _ov(math.sin), 'cos': _ov(math.cos), 'tan': _ov(math.tan), 'atan': _ov(math.atan),
    'fabs': abs,
    'floor': lambda x: x if math.isinf(x) or x != x else float(math.floor(x)),
    'ceil': lambda x: x if math.isinf(x) or x != x else float(math.ceil(x)),
    'trunc': lambda x: x if math.isinf(x) or x != x else float(math.trunc(x)),
    'round': lambda x: x if math.isinf(x) or x != x else float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1),
}
FN2 = {
    'pow': _pw, 'atan2': math.atan2, 'fmod': _ov(math.fmod), 'hypot': math.hypot,
    'fmin': lambda a, b: b if a != a else (a if b != b else min(a, b)),
    'fmax': lambda a, b: b if a != a else (a if b != b else max(a, b)),
    'copysign': math.copysign,
}


def fn(name, *args, ty='double', loc=None):
    if all(isc(a) for a in args):
        vals = [cv(a) for a in args]
        f = FN1.get(name) if len(args) == 1 else FN2.get(name)
        if f:
            return C(_r(f(*vals), ty))
    if name == 'pow' and isc(args[1]):
        e = cv(args[1])
        if e == 1: return args[0]
    if name == 'fmin': return select(lt(args[1], args[0]), args[1], args[0])
    if name == 'fmax': return select(lt(args[0], args[1]), args[1], args[0])
    if name == 'fabs': return select(lt(args[0], C(0.0)), fneg(args[0]), args[0])
    if name == 'hypot':
        return fn('sqrt', fbin('add', fbin('mul', args[0], args[0]), fbin('mul', args[1], args[1])), ty=ty, loc=loc)
    if name == 'exp10': return fn('pow', C(10.0), args[0], ty=ty, loc=loc)
    if name == 'exp2': return fn('pow', C(2.0), args[0], ty=ty, loc=loc)
    return mk(name, args, 'f', loc)


# ------------------------------------------------------------ truth values
def not_(a):
    if a.op == 'b': return bconst(not a.args[0])
    if a.op == 'not': return a.args[0]
    if a.op == 'lt': return mk('le', (a.args[1], a.args[0]), 'b', a.loc)
    if a.op == 'le': return mk('lt', (a.args[1], a.args[0]), 'b', a.loc)
    return mk('not', (a,), 'b')


def _cc(a, b):
    return isc(a) and isc(b)


def lt(a, b, loc=None):
    if _cc(a, b): return bconst(cv(a) < cv(b))
    if a is b: return FALSE
    return mk('lt', (a, b), 'b', loc)


def le(a, b, loc=None):
    if _cc(a, b): return bconst(cv(a) <= cv(b))
    if a is b: return TRUE
    return mk('le', (a, b), 'b', loc)


def eq(a, b, loc=None):
    if _cc(a, b): return bconst(cv(a) == cv(b))
    if a is b: return TRUE
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'b', loc)


def and_(a, b):
    if a.op == 'b': return b if a.args[0] else a
    if b.op == 'b': return a if b.args[0] else b
    if a is b: return a
    return mk('and', (a, b), 'b')


def or_(a, b):
    if a.op == 'b': return a if a.args[0] else b
    if b.op == 'b': return b if b.args[0] else a
    if a is b: return a
    return mk('or', (a, b), 'b')


def xor_(a, b):
    if a.op == 'b': return not_(b) if a.args[0] else b
    if b.op == 'b': return not_(a) if b.args[0] else a
    return or_(and_(a, not_(b)), and_(not_(a), b))


def fcmp(pred, a, b, loc=None):
    if _cc(a, b):
        x, y = cv(a), cv(b)
        nan = x != x or y != y
        p = pred[1:] if pred not in ('ord', 'uno', 'true', 'false') else pred
        if pred == 'ord': return bconst(not nan)
        if pred == 'uno': return bconst(nan)
        if pred == 'true': return TRUE
        if pred == 'false': return FALSE
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        if nan: return bconst(pred[0] == 'u')
        return bconst(r)
    # a NaN constant operand decides every comparison
    for z in (a, b):
        if isc(z) and cv(z) != cv(z):
            if pred in ('ord', 'false'): return FALSE
            if pred in ('uno', 'true'): return TRUE
            return bconst(pred[0] == 'u')
    if pred == 'ord': return TRUE
    if pred == 'uno': return FALSE
    if pred == 'true': return TRUE
    if pred == 'false': return FALSE
    p = pred[1:]
    if p == 'lt': return lt(a, b, loc)
    if p == 'le': return le(a, b, loc)
    if p == 'gt': return lt(b, a, loc)
    if p == 'ge': return le(b, a, loc)
    if p == 'eq': return eq(a, b, loc)
    return not_(eq(a, b, loc))


def select(c, a, b, loc=None):
    if c.op == 'b': return a if c.args[0] else b
    if a is b: return a
    if c.op == 'not': return select(c.args[0], b, a, loc)
    if c.op == 'le': return select(mk('lt', (c.args[1], c.args[0]), 'b', c.loc), b, a, loc)
    if a.op == 'sel' and a.args[0] is c: a = a.args[1]
    if b.op == 'sel' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if a.t == 'b':
        return or_(and_(c, a), and_(not_(c), b))
    return mk('sel', (c, a, b), a.t if a.t != 'u' else b.t, loc)


# ------------------------------------------------------------ integers (symbolic)
def iconst(v, width):
    """integer constant as node (signed value)"""
    return mk('ic', (v, width), 'i')


def bits_of(n, width):
    """tuple of bit atoms, least significant first, of a symbolic integer node"""
    if n.op == 'bits': return n.args
    if n.op == 'ic': return tuple((n.args[0] >> i) & 1 for i in range(width))
    return tuple((n, i) for i in range(width))


def mkbits(bs):
    """bit vector -> python int if all known, the original node if unchanged, else a bits node"""
    if all(b.__class__ is int for b in bs):
        return sum(b << i for i, b in enumerate(bs))
    b0 = bs[0]
    if b0.__class__ is tuple:
        src = b0[0]
        w = width_of(src)
        if w == len(bs) and all(b.__class__ is tuple and b[0] is src and b[1] == i for i, b in enumerate(bs)) and src.t == 'i':
            return src
    key = []
    for b in bs:
        key.append(b if b.__class__ is int else (b[0].id, b[1]))
    k = ('bits', tuple(key))
    n = _tab.get(k)
    if n is None:
        n = N(); n.op = 'bits'; n.args = tuple(bs); _cnt[0] += 1; n.id = _cnt[0]; n.t = 'i'; n.loc = None
        _tab[k] = n
    return n


def width_of(n):
    if n.op == 'ivar': return n.args[1]
    if n.op == 'bits': return len(n.args)
    if n.op == 'ic': return n.args[1]
    return None


# ------------------------------------------------------------ traversal
def kids(n):
    if n.op == 'bits':
        return [b[0] for b in n.args if b.__class__ is tuple]
    return [a for a in n.args if a.__class__ is N]


def topo(roots):
    seen = set()
    st = list(roots)
    out = []
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen.add(n.id)
        out.append(n)
        st.extend(kids(n))
    out.sort(key=lambda n: n.id)
    return out


def vars_of(roots):
    return sorted({n.args[0] for n in topo(roots) if n.op == 'var'})


def rebuild(n, ch):
    """node like n with children ch (folding)"""
    op = n.op
    if op in ('add', 'sub', 'mul', 'div') and n.t == 'f': return fbin(op, ch[0], ch[1], 'double', n.loc)
    if op == 'neg' and n.t == 'f': return fneg(ch[0], n.loc)
    if op == 'lt': return lt(ch[0], ch[1], n.loc)
    if op == 'le': return le(ch[0], ch[1], n.loc)
    if op == 'eq': return eq(ch[0], ch[1], n.loc)
    if op == 'not': return not_(ch[0])
    if op == 'and': return and_(ch[0], ch[1])
    if op == 'or': return or_(ch[0], ch[1])
    if op == 'sel': return select(ch[0], ch[1], ch[2], n.loc)
    if op in FN1 or op in FN2: return fn(op, *ch, loc=n.loc)
    if op == 'fptosi':
        if isc(ch[0]): return C(FN1['trunc'](cv(ch[0])))
        return mk(op, ch, n.t, n.loc)
    if op == 'idiv':
        if isc(ch[0]) and isc(ch[1]) and cv(ch[1]) != 0: return C(float(math.trunc(Fraction(cv(ch[0])) / Fraction(cv(ch[1])))))
        return mk(op, ch, n.t, n.loc)
    if op == 'irem':
        if isc(ch[0]) and isc(ch[1]) and cv(ch[1]) != 0: return C(math.fmod(cv(ch[0]), cv(ch[1])))
        return mk(op, ch, n.t, n.loc)
    if op == 'tab':
        i = ch[0]
        if isc(i):
            k = int(cv(i)) - n.args[-1]
            if 0 <= k < len(ch) - 1: return ch[1 + k]
            return mk('oob', (int(cv(i)),), 'f', n.loc)
        return mk('tab', tuple(ch) + (n.args[-1],), n.t, n.loc)
    if op == 'newton' and isc(ch[0]):
        return fn('sqrt', ch[0])
    return mk(op, tuple(ch) + tuple(a for a in n.args if a.__class__ is not N), n.t, n.loc)


def subst(root, env, memo=None):
    """replace nodes by id (env: id -> node)"""
    if memo is None: memo = {}
    for n in topo([root]):
        if n.id in memo: continue
        r = env.get(n.id)
        if r is None:
            if n.op == 'bits': r = n
            else:
                k = [a for a in n.args if a.__class__ is N]
                if not k: r = n
                else:
                    ch = [memo[a.id] for a in k]
                    if all(x is y for x, y in zip(ch, k)): r = n
                    else: r = rebuild(n, ch)
        memo[n.id] = r
    return memo[root.id]


def show(n, depth=6):
    if n.__class__ is not N: return repr(n)
    if n.op == 'c': return '%.9g' % cv(n)
    if n.op in ('var', 'ivar'): return str(n.args[0])
    if n.op == 'b': return 'true' if n.args[0] else 'false'
    if depth == 0: return '..'
    if n.op == 'bits': return 'bits%d' % len(n.args)
    a = [show(x, depth - 1) for x in n.args]
    inf = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'eq': '=='}
    if n.op in inf: return '(%s %s %s)' % (a[0], inf[n.op], a[1])
    if n.op == 'sel': return '(%s ? %s : %s)' % tuple(a)
    if n.op == 'tab': return 'tab[%s]' % a[0]
    return '%s(%s)' % (n.op, ', '.join(a))


# ------------------------------------------------------------ operator sugar for specifications
class E:
    """thin wrapper so that specifications can be written with Python operators"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n if isinstance(n, N) else C(float(n))

    def _b(self, op, o, sw=False):
        o = o if isinstance(o, E) else E(o)
        a, b = (o, self) if sw else (self, o)
        return E(fbin(op, a.n, b.n, 'double'))

    def __add__(s, o): return s._b('add', o)
    def __radd__(s, o): return s._b('add', o, True)
    def __sub__(s, o): return s._b('sub', o)
    def __rsub__(s, o): return s._b('sub', o, True)
    def __mul__(s, o): return s._b('mul', o)
    def __rmul__(s, o): return s._b('mul', o, True)
    def __truediv__(s, o): return s._b('div', o)
    def __rtruediv__(s, o): return s._b('div', o, True)
    def __neg__(s): return E(fneg(s.n))
    def __pow__(s, o): return E(fn('pow', s.n, (o if isinstance(o, E) else E(o)).n))
    def __lt__(s, o): return lt(s.n, E.of(o).n)
    def __le__(s, o): return le(s.n, E.of(o).n)
    def __gt__(s, o): return lt(E.of(o).n, s.n)
    def __ge__(s, o): return le(E.of(o).n, s.n)

    @staticmethod
    def of(o): return o if isinstance(o, E) else E(o)


def V(name): return E(var(name))
def sel(c, a, b): return E(select(c, E.of(a).n, E.of(b).n))
def F(name, *a): return E(fn(name, *[E.of(x).n for x in a]))
