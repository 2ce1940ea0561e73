"""Whole-program effect analysis over the IR: which memory roots (parameters, globals, locals) every function may write,
which external functions it can reach, and what initialises its local statics."""
import re
import ir
from interp import FLOATFN

LIB = re.compile(r'^_ZN?K?(?:N?K?)11ColorSystem')


def islib(n): return n.startswith('_Z') and '11ColorSystem' in n.split('St6vector')[0][:24]


class Effects:
    def __init__(self, mod):
        self.m = mod
        self.writes = {}      # function -> {root: (dbg, via)}   root: ('p',i) or ('g',name)
        self.rets = {}        # function -> set of roots of the returned pointer
        self.sites = {}       # function -> list of (dbg, callee)
        self.calls = {}
        self._bases = {}
        self.init = {}        # function -> blocks that initialise a local static: block -> guard

    # ------------------------------------------------------------ per function
    def fn(self, name):
        f = self.m.funcs[name].decode()
        return f

    def guards(self, f):
        """blocks executed only while a local static is being initialised"""
        r = self.init.get(f.name)
        if r is not None: return r
        r = self.init[f.name] = {}
        succ = {}
        for b in f.order:
            ins = f.blocks[b][-1] if f.blocks[b] else None
            s = []
            if ins is not None:
                if ins.op == 'br': s = [x for x in (ins.a if len(ins.a) == 1 else ins.a[1:])]
                elif ins.op == 'switch': s = [ins.a[1]] + [x for _, x in ins.a[2]]
                elif ins.op == 'invoke': s = [ins.a[2], ins.a[3]]
            succ[b] = s
        for b in f.order:
            for i, ins in enumerate(f.blocks[b]):
                if ins.op in ('call', 'invoke') and ins.a[0] == ('glob', '__cxa_guard_acquire'):
                    g = ins.a[1][0][1]
                    term = f.blocks[b][-1]
                    tgt = term.a[1] if term.op == 'br' and len(term.a) == 3 else None
                    if tgt is None: continue
                    todo = [tgt]
                    while todo:
                        x = todo.pop()
                        if x in r: continue
                        r[x] = g
                        if any(j.op in ('call', 'invoke') and j.a[0] in (('glob', '__cxa_guard_release'), ('glob', '__cxa_guard_abort')) for j in f.blocks[x]): continue
                        todo += succ.get(x, [])
        return r

    def defs(self, f):
        d = getattr(f, '_defs', None)
        if d is None:
            d = f._defs = {}
            for i, (t, n) in enumerate(f.params): d[n] = ('param', i)
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.dst is not None: d[ins.dst] = ins
        return d

    def bases(self, f, op, seen=None):
        """memory roots an operand may point to"""
        k = op[0]
        if k == 'glob': return {('g', op[1])}
        if k == 'ce':
            out = set()
            def walk(x):
                if x.__class__ is tuple:
                    if x and x[0] == 'glob': out.add(('g', x[1]))
                    for y in x: walk(y)
                elif x.__class__ is list:
                    for y in x: walk(y)
            walk(op)
            return out
        if k != 'loc': return set()
        key = (f.name, op[1])
        r = self._bases.get(key)
        if r is not None: return r
        seen = seen or set()
        if key in seen: return set()
        seen.add(key)
        d = self.defs(f).get(op[1])
        out = set()
        if d is None: pass
        elif d.__class__ is tuple: out = {('p', d[1])}
        elif d.op == 'alloca': out = {('a', op[1])}
        elif d.op == 'getelementptr': out = self.bases(f, d.a[0][1], seen)
        elif d.op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint'): out = self.bases(f, d.a[1], seen)
        elif d.op == 'phi':
            for v, _ in d.a: out |= self.bases(f, v, seen)
        elif d.op == 'select': out = self.bases(f, d.a[1], seen) | self.bases(f, d.a[2], seen)
        elif d.op == 'freeze': out = self.bases(f, d.a[0], seen)
        elif d.op == 'load': out = {('mem',)}
        elif d.op in ('call', 'invoke'):
            c = d.a[0]
            if c[0] == 'glob':
                if c[1].startswith('llvm.threadlocal') or c[1].startswith('llvm.launder') or c[1].startswith('llvm.strip'): out = self.bases(f, d.a[1][0][1], seen)
                elif c[1] in self.m.funcs:
                    for q in self.rets.get(c[1], ()):
                        if q[0] == 'p':
                            if q[1] < len(d.a[1]): out |= self.bases(f, d.a[1][q[1]][1], seen)
                        elif q[0] == 'g': out.add(q)
                else: out = {('new',)}
            else: out = {('mem',)}
        else: out = {('mem',)}
        if len(seen) == 1: self._bases[key] = out
        return out

    EXTW = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'llvm.memcpy': (0,), 'llvm.memmove': (0,), 'llvm.memset': (0,), 'frexp': (1,), 'frexpf': (1,), 'modf': (1,),
            'modff': (1,), 'sincos': (1, 2), 'sincosf': (1, 2), 'remquo': (2,), 'remquof': (2,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'snprintf': (0,), 'sprintf': (0,)}

    def extw(self, n):
        if n.startswith('llvm.'): n = '.'.join(n.split('.')[:2])
        return self.EXTW.get(n, ())

    def reach(self, roots):
        """functions reachable through direct calls and taken addresses"""
        seen = {}
        todo = [(r, None) for r in roots]
        ext = {}
        indirect = []
        while todo:
            n, par = todo.pop()
            if n in seen: continue
            seen[n] = par
            f = self.fn(n)
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op in ('call', 'invoke'):
                        c = ins.a[0]
                        if c[0] == 'glob':
                            if c[1] in self.m.funcs: todo.append((c[1], n))
                            else: ext.setdefault(c[1], []).append((n, ins.dbg))
                        elif c[0] == 'loc': indirect.append((n, ins.dbg))
                    elif ins.op == 'asm': ext.setdefault('inline assembly', []).append((n, ins.dbg))
                    for o in refs(ins):
                        if o in self.m.funcs: todo.append((o, n))
                        elif o in self.m.decls and not (ins.op in ('call', 'invoke') and ins.a[0] == ('glob', o)): ext.setdefault(o, []).append((n, ins.dbg))
        return seen, ext, indirect

    def solve(self, names):
        """fixpoint of return roots and write sets"""
        names = list(names)
        self.rets = {n: set() for n in names}
        while True:
            self._bases = {}
            ch = False
            for n in names:
                f = self.fn(n)
                if f.ret is None and not any(i.op == 'ret' for b in f.order for i in f.blocks[b][-1:]): continue
                for b in f.order:
                    ins = f.blocks[b][-1] if f.blocks[b] else None
                    if ins is not None and ins.op == 'ret' and ins.a and ins.ty.k == 'ptr':
                        s = {q for q in self.bases(f, ins.a[0]) if q[0] in ('p', 'g')}
                        if not s <= self.rets[n]: self.rets[n] |= s; ch = True
            if not ch: break
        self.writes = {n: {} for n in names}
        while True:
            ch = False
            for n in names:
                f = self.fn(n)
                W = self.writes[n]
                G = self.guards(f)
                for b in f.order:
                    for ins in f.blocks[b]:
                        for ptr, via in self.wsites(ins):
                            for q in self.bases(f, ptr):
                                if q[0] not in ('p', 'g') or q in W: continue
                                if q[0] == 'g' and b in G: continue      # initialisation of a local static
                                W[q] = (ins.dbg, via); ch = True
            if not ch: break

    def wsites(self, ins):
        """(pointer operand, callee or None) written by an instruction"""
        if ins.op == 'store': yield ins.a[1], None
        elif ins.op in ('atomicrmw', 'cmpxchg'): yield ins.a[0], None
        elif ins.op in ('call', 'invoke'):
            c = ins.a[0]
            if c[0] != 'glob': return
            args = ins.a[1]
            if c[1] in self.m.funcs:
                for q in self.writes.get(c[1], {}):
                    if q[0] == 'p' and q[1] < len(args): yield args[q[1]][1], c[1]
                    elif q[0] == 'g': yield ('glob', q[1]), c[1]
            else:
                for i in self.extw(c[1]):
                    if i < len(args): yield args[i][1], c[1]

    def tainted(self, f):
        """values depending on the function's parameters (flow-insensitive)"""
        T = {n for _, n in f.params}
        A = set()       # allocas holding dependent data
        while True:
            n0 = (len(T), len(A))
            for b in f.order:
                for ins in f.blocks[b]:
                    ops = [o for o in oprefs(ins)]
                    dep = any(o in T for o in ops)
                    if ins.op == 'load':
                        dep = dep or any(q[0] == 'a' and q[1] in A for q in self.bases(f, ins.a[0]))
                    if ins.op in ('call', 'invoke'):
                        dep = dep or any(q[0] == 'a' and q[1] in A for _, o in ins.a[1] if o and o[0] == 'loc' for q in self.bases(f, o))
                        if dep:
                            for ptr, _ in self.wsites(ins):
                                for q in self.bases(f, ptr):
                                    if q[0] == 'a': A.add(q[1])
                    if ins.op == 'store' and ins.a[0][0] == 'loc' and ins.a[0][1] in T:
                        for q in self.bases(f, ins.a[1]):
                            if q[0] == 'a': A.add(q[1])
                    if dep and ins.dst is not None: T.add(ins.dst)
            if (len(T), len(A)) == n0: return T, A


def walk(x, out, kind):
    if x.__class__ is tuple:
        if len(x) == 2 and x[0] == kind and x[1].__class__ is str: out.append(x[1])
        else:
            for y in x: walk(y, out, kind)
    elif x.__class__ is list:
        for y in x: walk(y, out, kind)


def refs(ins):
    out = []
    walk(ins.a, out, 'glob')
    return out


def oprefs(ins):
    out = []
    walk(ins.a, out, 'loc')
    return out
