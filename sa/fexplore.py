"""Exploration of one function (callees inlined) that keeps integers and pointers exact and abstracts every float to
{constant, not NaN, anything}: states with equal integer parts are joined, so the set of states is finite and the result
covers all float data of the given sizes. Every memory access of every reachable state is checked; an acyclic state graph
additionally shows that the function terminates whatever the data."""
import math
from interp import *
import interp as IP
import ir
from expr import N, C, isc, cv, UNDEF, f32
from ir import size as tsize


class AF:
    """an unknown float; nn: known not to be NaN; identity of the object is identity of the value"""
    __slots__ = ('nn',)

    def __init__(self, nn): self.nn = nn
    def __repr__(self): return 'NN' if self.nn else 'T'


class Fork(Exception):
    pass


class FX(Interp):
    def conv(self, v, n, kind, loc):
        if v.__class__ is AF:
            if kind == 'f': return v
            raise Abstain('integer view of an unknown float', self.where(loc))
        if kind == 'p' and v.__class__ is N and isc(v) and cv(v) == 0: return NULL
        return Interp.conv(self, v, n, kind, loc)

    def load_byte(self, o, off, loc):
        c = self._cell_at(o, off)
        if c is not None and c[2].__class__ is AF: raise Abstain('bytes of an unknown float', self.where(loc))
        return Interp.load_byte(self, o, off, loc)

    def memset(self, d, val, n, loc):
        if n and val == 0 and n % 4 == 0 and d.off % 4 == 0:
            do = self.wobj(d.o, loc)
            self.check(do, d.off, n, 'write', loc)
            for k in range(0, n, 4): self.put(do, d.off + k, 4, C(0.0), loc)
            return
        Interp.memset(self, d, val, n, loc)


def isf(v): return v.__class__ is AF or (v.__class__ is N and v.t == 'f')


def join(a, b):
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    ca, cb = a.__class__ is N, b.__class__ is N
    if ca and cb:
        x, y = cv(a), cv(b)
        if x == y and math.copysign(1, x) == math.copysign(1, y): return a
        return AF(x == x and y == y)
    na = (cv(a) == cv(a)) if ca else a.nn
    nb = (cv(b) == cv(b)) if cb else b.nn
    if not ca and a.nn == (na and nb): return a
    return AF(na and nb)


def uses(x, out):
    if x.__class__ is tuple:
        if len(x) == 2 and x[0] == 'loc' and isinstance(x[1], str): out.add(x[1]); return
        for y in x: uses(y, out)
    elif x.__class__ is list:
        for y in x: uses(y, out)


def liveness(f):
    use, deff, succ, phiuse = {}, {}, {}, {}
    for b in f.order:
        u, d = set(), set()
        for i in f.blocks[b]:
            if i.op == 'phi':
                for v, p in i.a:
                    q = set(); uses(v, q)
                    phiuse.setdefault((p, b), set()).update(q)
                d.add(i.dst)
                continue
            q = set()
            uses(tuple(i.a), q)
            u |= q - d
            if i.dst is not None: d.add(i.dst)
        use[b], deff[b] = u, d
        t = f.blocks[b][-1]
        succ[b] = [t.a[0]] if t.op == 'br' and len(t.a) == 1 else [t.a[1], t.a[2]] if t.op == 'br' else [t.a[1]] + [x for _, x in t.a[2]] if t.op == 'switch' else [t.a[2]] if t.op == 'invoke' else []
    live = {b: set(use[b]) for b in f.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            o = set()
            for s in succ[b]:
                phis = {i.dst for i in f.blocks[s] if i.op == 'phi'}
                o |= (live[s] - phis) | phiuse.get((b, s), set())
            n = use[b] | (o - deff[b])
            if n != live[b]: live[b] = n; ch = True
    # values needed when entering b after its phis were evaluated
    return {b: sorted(live[b] | {i.dst for i in f.blocks[b] if i.op == 'phi'}) for b in f.order}


NEG = {'oeq': 'une', 'one': 'ueq', 'olt': 'uge', 'ole': 'ugt', 'ogt': 'ule', 'oge': 'ult', 'ueq': 'one', 'une': 'oeq', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'ord': 'uno', 'uno': 'ord'}


class Explorer:
    def __init__(self, mod, fname, max_states=2_000_000, max_seconds=600):
        self.f = mod.funcs[fname].decode()
        self.I = FX(mod)
        self.I.ctors()
        self.live = liveness(self.f)
        self.max_states = max_states; self.max_seconds = max_seconds
        self.states = {}; self.edges = {}
        self.keyids = {}; self.iks = {}
        self.results = []
        self.inlined = True

    # -------------------------------------------------- states
    def ik(self, o):
        k = self.iks.get(id(o))
        if k is not None and k[0] is o: return k[1]
        t = tuple(sorted((off, c[0], ('f' if isf(c[1]) or c[1] is UNDEF else c[1])) if c[1].__class__ is not Ptr else (off, c[0], 'p', c[1].o, c[1].off) for off, c in o.cells.items()))
        try: i = self.keyids.setdefault((o.size, t), len(self.keyids))
        except TypeError: raise Abstain('memory content not representable')
        self.iks[id(o)] = (o, i)
        return i

    def skey(self, blk, env, mem):
        e = []
        for n in self.live[blk]:
            v = env.get(n, UNDEF)
            if isf(v): e.append('f')
            elif v.__class__ is AF: e.append('f')
            elif v.__class__ is tuple: e.append(tuple('f' if isf(x) else x for x in v))
            else: e.append(v)
        return (blk, tuple(e), tuple((o, self.ik(ob)) for o, ob in sorted(mem.items()) if ob.kind != 'global'))

    def add(self, blk, env, mem, nobj, src):
        env = {n: env[n] for n in self.live[blk] if n in env}
        env['$allocas'] = ()
        k = self.skey(blk, env, mem)
        i = self.states.get(k)
        if i is None:
            i = self.states[k] = len(self.recs)
            self.recs.append([blk, env, dict(mem), nobj])
            self.work.append(i); self.inq.add(i)
            if len(self.recs) > self.max_states: raise Abstain('too many states')
        else:
            r = self.recs[i]
            ch = False
            for n, v in env.items():
                if isf(v):
                    j = join(r[1][n], v)
                    if j is not r[1][n]: r[1][n] = j; ch = True
            for o, ob in mem.items():
                ro = r[2].get(o)
                if ro is ob or ob.kind == 'global': continue
                new = None
                for off, c in ob.cells.items():
                    q = ro.cells[off]
                    if q[1] is c[1] or not (isf(c[1]) or c[1] is UNDEF): continue
                    j = join(q[1], c[1])
                    if j is not q[1]:
                        if new is None: new = ro.copy(-2)
                        new.cells[off] = (c[0], j)
                if new is not None:
                    ki = self.ik(ro)
                    r[2][o] = new; self.iks[id(new)] = (new, ki)
                    ch = True
            if ch and i not in self.inq: self.work.append(i); self.inq.add(i)
        if src is not None: self.edges.setdefault(src, set()).add(i)

    def run(self, args):
        import time, collections
        t0 = time.time()
        I = self.I
        f = self.f
        self.recs = []; self.work = collections.deque(); self.inq = set()
        env = {nm: v for (t, nm), v in zip(f.params, args)}
        self.blocks_run = 0
        self.add(f.order[0], env, I.st.mem, I.nobj, None)
        while self.work:
            i = self.work.popleft(); self.inq.discard(i)
            self.edges[i] = set()
            pend = [()]
            while pend:
                dec = pend.pop()
                r = self.step(i, dec)
                if r is not None: pend += [dec + (0,), dec + (1,)]
            self.blocks_run += 1
            if self.blocks_run % 512 == 0 and time.time() - t0 > self.max_seconds: raise Abstain('time limit')

    def step(self, i, dec):
        """run one block with the given outcomes of unknown comparisons; returns True when one more outcome is needed"""
        I = self.I
        f = self.f
        blk, env0, mem0, nobj = self.recs[i]
        I._ep = getattr(I, '_ep', 0) + 1
        st = IP.State(); st.mem = dict(mem0); st.epoch = I._ep
        I.st = st; I.nobj = nobj
        env = dict(env0); env['$allocas'] = []
        self.dec = list(dec); self.need = False
        try:
            for ins in f.blocks[blk]:
                op = ins.op
                if op == 'phi': continue
                I.steps += 1
                h = self.FD.get(op)
                if h is not None: env[ins.dst] = h(self, env, ins)
                elif op == 'br':
                    if len(ins.a) == 1: t = ins.a[0]
                    else:
                        c = I.val(env, ins.a[0], ir.I1)
                        if c is UNDEF: raise Abstain('branch on an uninitialised value', I.where(ins.dbg))
                        t = ins.a[1] if c & 1 else ins.a[2]
                    self.goto(blk, t, env, i)
                elif op == 'switch':
                    c = I.val(env, ins.a[0], ins.ty)
                    if c.__class__ is not int: raise Abstain('switch', I.where(ins.dbg))
                    t = ins.a[1]
                    for v, b in ins.a[2]:
                        if v == c: t = b; break
                    self.goto(blk, t, env, i)
                elif op == 'invoke':
                    v = self.call(env, ins)
                    if ins.dst is not None: env[ins.dst] = v
                    self.goto(blk, ins.a[2], env, i)
                elif op == 'ret':
                    self.results.append(I.val(env, ins.a[0], ins.ty) if ins.a else None)
                elif op in ('unreachable', 'resume'): pass
                else:
                    h = IP.DISPATCH.get(op)
                    if h is None: raise Abstain('instruction %s' % op, I.where(ins.dbg))
                    v = h(I, env, ins)
                    if ins.dst is not None: env[ins.dst] = v
        except Fork:
            return True
        except Dead:
            return None
        return None

    def goto(self, blk, t, env, i):
        pv = self.I.phis(self.f, env, t, blk)
        if pv:
            for d, v in pv: env[d] = v
        self.add(t, env, self.I.st.mem, self.I.nobj, i)

    def choose(self):
        if not self.dec: raise Fork()
        return self.dec.pop(0)

    def refine(self, env, v):
        """v is known not to be NaN on this path"""
        if v.__class__ is not AF or v.nn: return
        w = AF(True)
        for n, x in list(env.items()):
            if x is v: env[n] = w
        for oid, o in list(self.I.st.mem.items()):
            if o.kind == 'global': continue
            for off, c in list(o.cells.items()):
                if c[1] is v:
                    self.I.wobj(oid).cells[off] = (c[0], w)
                    o = self.I.st.mem[oid]

    # -------------------------------------------------- float operations
    def fop(self, env, o, ty):
        v = self.I.val(env, o, ty)
        if v is UNDEF: return AF(False)
        return v

    def h_bin(op):
        def h(self, env, ins):
            k = ins.ty.k
            if k not in ('float', 'double'): raise Abstain('vector arithmetic')
            a = self.fop(env, ins.a[0], ins.ty); b = self.fop(env, ins.a[1], ins.ty)
            ca, cb = a.__class__ is N, b.__class__ is N
            if ca and cb:
                x, y = cv(a), cv(b)
                try:
                    r = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else x / y if op == 'div' else math.fmod(x, y)
                except (ZeroDivisionError, OverflowError, ValueError):
                    r = float('nan') if (x != x or x == 0 or y != y) else math.copysign(math.inf, x) * math.copysign(1, y)
                return C(f32(r) if k == 'float' else r)
            if op == 'add' and ca and cv(a) == 0: return b
            if op in ('add', 'sub') and cb and cv(b) == 0: return a
            if op in ('mul', 'div') and cb and cv(b) == 1: return a
            if op == 'mul' and ca and cv(a) == 1: return b
            return AF(False)
        return h

    def h_neg(self, env, ins):
        a = self.fop(env, ins.a[0], ins.ty)
        if a.__class__ is N: return C(-cv(a))
        return AF(a.nn)

    def h_cmp(self, env, ins):
        pred, a, b = ins.a
        a = self.fop(env, a, ins.ty); b = self.fop(env, b, ins.ty)
        ca, cb = a.__class__ is N, b.__class__ is N
        na = (cv(a) == cv(a)) if ca else a.nn
        nb = (cv(b) == cv(b)) if cb else b.nn
        o, k = pred[0] == 'o', pred[1:]
        if pred == 'true': return 1
        if pred == 'false': return 0
        if ca and cb:
            x, y = cv(a), cv(b)
            un = x != x or y != y
            if pred in ('ord', 'uno'): return int(un == (pred == 'uno'))
            if un: return int(not o)
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k])
        if (ca and not na) or (cb and not nb):
            if pred in ('ord', 'uno'): return int(pred == 'uno')
            return int(not o)
        if pred in ('ord', 'uno'):
            if na and nb: return int(pred == 'ord')
        elif a is b:
            refl = k in ('eq', 'le', 'ge')
            if na: return int(refl)
            if not o and refl: return 1
            if o and not refl: return 0
        # constant bounds: |x| against negative constants and the like are not tracked
        r = self.choose()
        if (r and (o or pred == 'ord')) or (not r and (pred[0] == 'u')):
            self.refine(env, a); self.refine(env, b)
        return r

    def h_sel(self, env, ins):
        c = self.I.val(env, ins.a[0], ir.I1)
        a = self.I.val(env, ins.a[1], ins.ty); b = self.I.val(env, ins.a[2], ins.ty)
        if c is UNDEF: raise Abstain('select on an uninitialised value')
        return a if c & 1 else b

    def h_fpcast(op):
        def h(self, env, ins):
            v = self.fop(env, ins.a[1], ins.a[0])
            if v.__class__ is N: return C(f32(cv(v)) if op == 'fptrunc' else cv(v))
            if op == 'fpext': return v      # exact, so the identity of the value is kept
            return AF(v.nn)
        return h

    def h_toint(self, env, ins):
        v = self.fop(env, ins.a[1], ins.a[0])
        if v.__class__ is AF: raise Abstain('integer made from unknown data', self.I.where(ins.dbg))
        return self.I.cast(ins.op, v, ins.a[0], ins.ty, ins.dbg)

    def call(self, env, ins):
        I = self.I
        c = ins.a[0]
        name = c[1] if c[0] == 'glob' else None
        if name is None: raise Abstain('indirect call', I.where(ins.dbg))
        base = IP.FLOATFN.get(name)
        fnm = base[0] if base else None
        if name.startswith('llvm.') and name.split('.')[1] in IP.INTRFN: fnm = IP.INTRFN[name.split('.')[1]]
        if name.startswith(('llvm.fmuladd', 'llvm.fma')): return AF(False)
        if fnm:
            vs = [self.fop(env, o, t) for t, o in ins.a[1]]
            if all(v.__class__ is N for v in vs):
                if fnm == 'fabs': return C(abs(cv(vs[0])))
                if fnm == 'sqrt' and cv(vs[0]) >= 0 and cv(vs[0]) < math.inf: return C(f32(math.sqrt(cv(vs[0]))) if ins.ty.k == 'float' else math.sqrt(cv(vs[0])))
            nn = [(cv(v) == cv(v)) if v.__class__ is N else v.nn for v in vs]
            if fnm in ('fabs', 'floor', 'ceil', 'trunc', 'round', 'exp', 'atan', 'cbrt'): return AF(nn[0])
            if fnm in ('fmin', 'fmax'): return AF(any(nn))
            if fnm == 'copysign': return AF(nn[0])
            return AF(False)
        if name in I.m.funcs and name not in IP.DEADFN: raise Abstain('call of %s not inlined' % name, I.where(ins.dbg))
        return IP.do_call(I, env, ins)

    FD = {'fadd': h_bin('add'), 'fsub': h_bin('sub'), 'fmul': h_bin('mul'), 'fdiv': h_bin('div'), 'frem': h_bin('rem'), 'fneg': h_neg, 'fcmp': h_cmp, 'select': h_sel,
          'fpext': h_fpcast('fpext'), 'fptrunc': h_fpcast('fptrunc'), 'fptosi': h_toint, 'fptoui': h_toint, 'call': call}

    # -------------------------------------------------- state graph
    def acyclic(self):
        col = {}
        for s in list(self.edges):
            if s in col: continue
            st = [(s, iter(self.edges.get(s, ())))]
            col[s] = 1
            while st:
                n, it = st[-1]
                for t in it:
                    c = col.get(t, 0)
                    if c == 1: return False
                    if c == 0:
                        col[t] = 1
                        st.append((t, iter(self.edges.get(t, ()))))
                        break
                else:
                    col[n] = 2; st.pop()
        return True
