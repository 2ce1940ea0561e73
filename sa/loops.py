"""Natural loops of a function and a ranking argument for each: an exit that is taken on every iteration's path, whose
condition compares an induction variable (constant non-zero step on every back edge) with a loop-invariant bound."""
import ir


def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == 'br': return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
    if t.op == 'switch': return [t.a[1]] + [x for _, x in t.a[2]]
    if t.op == 'invoke': return [t.a[2]] + ([t.a[3]] if len(t.a) > 3 and isinstance(t.a[3], str) else [])
    return []


def dominators(f):
    pred = {b: [] for b in f.order}
    for b in f.order:
        for s in succs(f, b):
            if s in pred: pred[s].append(b)
    seen = []
    mark = set()
    st = [(f.order[0], iter(succs(f, f.order[0])))]
    mark.add(f.order[0])
    while st:
        n, it = st[-1]
        for s in it:
            if s in pred and s not in mark:
                mark.add(s); st.append((s, iter(succs(f, s))))
                break
        else: seen.append(n); st.pop()
    rpo = seen[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    return idom, pred, rpo


def dominates(idom, a, b):
    while True:
        if a == b: return True
        p = idom.get(b)
        if p is None or p == b: return False
        b = p


def natural(f):
    """header -> set of blocks"""
    idom, pred, rpo = dominators(f)
    out = {}
    for b in rpo:
        for s in succs(f, b):
            if s in idom and dominates(idom, s, b):
                body = out.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st += [p for p in pred[x] if p in idom]
    return out, idom, pred, rpo


class Loops:
    lenient = False      # accept a != exit without showing that the counter starts on the right side (loops of the standard library)

    def __init__(self, f):
        self.f = f
        self.loops, self.idom, self.pred, self.rpo = natural(f)
        self.defb = {}; self.defs = {}
        for b in f.order:
            for i in f.blocks[b]:
                if i.dst is not None: self.defb[i.dst] = b; self.defs[i.dst] = i

    def irreducible(self):
        """a cycle without a dominating header"""
        num = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in succs(self.f, b):
                if s in num and num[s] <= num[b] and not dominates(self.idom, s, b): return b
        return None

    def inv(self, body, op):
        if op[0] != 'loc': return True
        b = self.defb.get(op[1])
        if b is None or b not in body: return True
        i = self.defs[op[1]]
        # re-computation from invariant operands (not memory)
        if i.op in ('add', 'sub', 'mul', 'sext', 'zext', 'trunc', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor', 'sdiv', 'udiv', 'ptrtoint', 'getelementptr', 'freeze'):
            return all(self.inv(body, o) for o in self.ops(i))
        return False

    @staticmethod
    def ops(i):
        if i.op == 'getelementptr': return [o for _, o in i.a]
        return [o for o in i.a if o.__class__ is tuple and o and o[0] in ('loc', 'int', 'glob', 'null', 'zero')]

    def strip(self, op):
        while op[0] == 'loc' and op[1] in self.defs and self.defs[op[1]].op in ('sext', 'zext', 'trunc', 'freeze', 'ptrtoint'):
            i = self.defs[op[1]]
            if i.op == 'trunc': self.narrow = min(self.narrow, i.ty.n if i.ty.k == 'int' else 64)
            op = self.ops(i)[0]
        return op

    def start(self, h, body, op):
        """(induction phi, its start operands) when op is that phi up to extensions"""
        op = self.strip(op)
        if op[0] != 'loc' or op[1] not in self.defs or self.defs[op[1]].op != 'phi' or self.defb[op[1]] != h: return None
        return self.defs[op[1]], [v for v, p in self.defs[op[1]].a if p not in body]

    def step(self, op):
        """(base operand, constant step) of an increment"""
        if op[0] != 'loc' or op[1] not in self.defs: return None
        i = self.defs[op[1]]
        if i.op in ('add', 'sub') and i.a[1][0] == 'int':
            k = i.a[1][1]
            w = i.ty.n
            if k >> (w - 1) & 1: k -= 1 << w
            return i.a[0], (k if i.op == 'add' else -k)
        if i.op == 'getelementptr' and len(i.a) == 2 and i.a[1][1][0] == 'int':
            k = i.a[1][1][1]
            if k >> 63 & 1: k -= 1 << 64
            return i.a[0][1], k * ir.size(i.ty)
        return None

    def induction(self, h, body, op):
        """constant step of the induction variable behind op, or None"""
        op = self.strip(op)
        for _ in range(4):
            if op[0] == 'loc' and self.defb.get(op[1]) == h and self.defs[op[1]].op == 'phi': break
            s = self.step(op)
            if s is None: 
                # affine: combination of an induction variable with invariants
                i = self.defs.get(op[1]) if op[0] == 'loc' else None
                if i is not None and i.op in ('add', 'sub') and self.defb[op[1]] in body:
                    a, b = i.a[0], i.a[1]
                    if self.inv(body, b): op = self.strip(a); continue
                    if self.inv(body, a):
                        r = self.induction(h, body, b)
                        return None if r is None else (r if i.op == 'add' else -r)
                return None
            op = self.strip(s[0])
        else: return None
        phi = self.defs[op[1]]
        if phi.ty.k == 'int': self.narrow = min(self.narrow, phi.ty.n)
        st = None
        for v, p in phi.a:
            if p not in body: continue
            v = self.strip(v)
            tot = 0
            for _ in range(4):
                if v == ('loc', phi.dst): break
                s = self.step(v)
                if s is None: return None
                tot += s[1]; v = self.strip(s[0])
            else: return None
            if v != ('loc', phi.dst): return None
            if tot == 0 or (st is not None and (st > 0) != (tot > 0)): return None
            st = tot
        return st

    def counted_cond(self, h, body, op, stay):
        """the condition op (stay: value of op for which the loop continues) is eventually not `stay`"""
        if op[0] != 'loc' or op[1] not in self.defs: return False
        i = self.defs[op[1]]
        if i.op == 'icmp':
            pred, a, b = i.a
            if not stay: pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
            for x, y, p in ((a, b, pred), (b, a, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred))):
                if not self.inv(body, y): continue
                self.narrow = 64
                s = self.induction(h, body, x)
                if s is None: continue
                # a counter of 8 or 16 bits wraps before it reaches a bound that may be larger
                if self.narrow < 32 and not (y[0] == 'int' and y[1] < 1 << (self.narrow - 1)): continue
                if p in ('ult', 'ule') and not self.lenient and self.wraps(y): continue
                if p == 'ne' and not self.lenient and not self.meets(h, body, x, y, s): continue
                if self.fromfloat(y) or self.fromfloat(x): continue    # the number of iterations is a float argument's value
                if p == 'ne': return True      # step of one element towards the end (library iteration)
                if p == 'eq': return True
                if p in ('slt', 'ult', 'sle', 'ule') and s > 0: return True
                if p in ('sgt', 'ugt', 'sge', 'uge') and s < 0: return p != 'uge' or (y[0] == 'int' and y[1] > 0)
            return False
        if i.op == 'xor': return self.counted_cond(h, body, i.a[0], not stay)
        if i.op == 'and' and stay or i.op == 'or' and not stay: return any(self.counted_cond(h, body, o, stay) for o in i.a[:2])
        if i.op == 'and' or i.op == 'or': return all(self.counted_cond(h, body, o, stay) for o in i.a[:2])
        if i.op == 'select':
            c, a, b = i.a[:3]
            if stay and b[0] in ('int', 'zero') and not (b[0] == 'int' and b[1]): return self.counted_cond(h, body, c, True) or self.counted_cond(h, body, a, True)
            if not stay and a[0] == 'int' and a[1]: return self.counted_cond(h, body, c, False) or self.counted_cond(h, body, b, False)
        return False

    def wraps(self, y):
        """an unsigned bound n - c, huge for n < c"""
        y = self.strip(y)
        i = self.defs.get(y[1]) if y[0] == 'loc' else None
        if i is None or i.op not in ('add', 'sub') or i.ty.k != 'int' or i.ty.n < 32: return False
        if i.op == 'sub': return i.a[1][0] == 'int' and i.a[1][1] > 0
        return i.a[1][0] == 'int' and bool(i.a[1][1] >> (i.ty.n - 1) & 1)

    def meets(self, h, body, x, y, s):
        """a loop left when x == y: the counter must really get there"""
        r = self.start(h, body, x)
        o = self.strip(x)
        ptr = o[0] == 'loc' and o[1] in self.defs and self.defs[o[1]].ty.k == 'ptr'
        if ptr: return True                    # iteration over a container
        if r is None: # tested after the increment
            t = self.step(o)
            r = self.start(h, body, t[0]) if t else None
        if r is None: return False
        w = r[0].ty.n
        sg = lambda v: v - (1 << w) if v >> (w - 1) & 1 else v
        if abs(s) != 1: return y[0] == 'int' and all(v[0] == 'int' and (sg(y[1]) - sg(v[1])) % s == 0 and (sg(y[1]) - sg(v[1])) // s >= 0 for v in r[1])
        if y[0] == 'int': return all(v[0] == 'int' and (sg(y[1]) - sg(v[1])) * s >= 0 for v in r[1]) or (y[1] == 0 and s == -1 and w == 64)
        if w == 64: return all(v[0] == 'int' and v[1] in (0, 1) for v in r[1]) and s == 1      # from 0 up to a size
        return False

    def fromfloat(self, op, seen=None):
        seen = seen if seen is not None else set()
        if op[0] != 'loc' or op[1] in seen or op[1] not in self.defs: return False
        seen.add(op[1])
        i = self.defs[op[1]]
        if i.op in ('fptosi', 'fptoui'): return True
        if i.op == 'phi': return any(self.fromfloat(v, seen) for v, _ in i.a)
        if i.op in ('load', 'call', 'invoke'): return False
        return any(self.fromfloat(o, seen) for o in self.ops(i))

    def left(self, h):
        """some edge or return leads out of the loop (a call that may throw counts only as its edge)"""
        body = self.loops[h]
        return any(s not in body for b in body for s in succs(self.f, b)) or any(self.f.blocks[b][-1].op in ('ret', 'resume', 'unreachable') for b in body)

    def classify(self, h):
        """'counted' | 'float' | 'other' with the deciding instruction"""
        body = self.loops[h]
        latches = [b for b in body if h in succs(self.f, b)]
        why = 'other'; at = self.f.blocks[h][-1].dbg
        for b in body:
            t = self.f.blocks[b][-1]
            ex = [s for s in succs(self.f, b) if s not in body]
            if not ex: continue
            if t.op == 'br' and len(t.a) == 3:
                c = t.a[0]
                stay = t.a[1] in body
                if all(dominates(self.idom, b, l) for l in latches) and self.counted_cond(h, body, c, stay): return 'counted', t.dbg
                if self.floaty(body, c): why = 'float'; at = t.dbg
        return why, at

    def floaty(self, body, op, depth=0):
        if op[0] != 'loc' or op[1] not in self.defs or depth > 12: return False
        i = self.defs[op[1]]
        if i.op == 'fcmp': return True
        if i.op in ('and', 'or', 'xor', 'select', 'zext', 'icmp'): return any(self.floaty(body, o, depth + 1) for o in i.a if o.__class__ is tuple)
        return False
