"""Check driver: compiles a witness translation unit against /repo's current header to LLVM IR,
builds value graphs of the library functions it names, and decides claims about them."""
import sys, os, json, time, subprocess, tempfile, shutil, random, re, traceback
sys.setrecursionlimit(400000)
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
import ir
from expr import *
import expr as X
from interp import Interp, Abstain, Fault, Dead, Ptr, NULL, SInt
import interp as IP
import decide as D
import rint

CLANG = 'clang++-18'
OPT = 'opt-18'
FLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-S', '-emit-llvm', '-std=c++14', '-Wno-everything',
         '-ffp-contract=off', '-fconstexpr-depth=4096', '-fconstexpr-steps=100000000', '-D_GLIBCXX_EXTERN_TEMPLATE=0']


class CheckError(Exception):
    pass


class Lazy:
    """output block read on demand"""
    def __init__(self, I, p, n, es, k): self.I = I; self.p = p; self.n = n; self.es = es; self.k = k

    def __getitem__(self, i): return self.I.load_raw(self.I.obj(self.p.o), self.p.off + i * self.es, self.es, self.k, None)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.claims = []          # dicts
        self.viol = []
        self.undec = []
        self.known = []
        self.stats = dict(ir_instructions=0, functions_analysed=set(), external_calls=set(), memory_accesses_checked=0, symbolic_branches=0,
                          parts=0, boxes=0, identities=0, interval_proofs=0, index_obligations=0)
        self.mods = {}
        self.assumptions = []
        self.extra = {}
        self.deep = tier == 'thorough'

    # ------------------------------------------------------------ compiling
    maxsteps = 20_000_000
    xflags = ()
    tag = ''

    def module(self, src, flags=(), opt='sroa', text=None, optargs=(), keepall=False):
        key = (src, tuple(flags), opt, tuple(optargs), keepall)
        if key in self.mods: return self.mods[key]
        path = os.path.join(ROOT, 'w', src)
        if text is not None:
            path = os.path.join(self.tmp, src)
            open(path, 'w').write(text)
        a = os.path.join(self.tmp, 'a%d.ll' % len(self.mods)); b = os.path.join(self.tmp, 'b%d.ll' % len(self.mods))
        cmd = [CLANG] + FLAGS + list(flags) + list(self.xflags) + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'w'), path, '-ferror-limit=0', '-o', a]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and text is None:
            # an operation that is not available in this form: drop the witness functions that name it and decide the rest
            L = open(path).read().split('\n')
            for _ in range(4):
                bad = {int(x) for x in re.findall(r'(?m)^' + re.escape(path) + r':(\d+):\d+: (?:error|note: in instantiation)', r.stderr)}
                cut = [drop(L, k - 1) for k in sorted(bad)]
                if not cut or None in cut: break
                for a_, b_ in cut:
                    self.undecided('witness %s' % L[a_][:100], 'not available in this form')
                    for k in range(a_, b_ + 1): L[k] = ''
                p2 = os.path.join(self.tmp, 'cut_' + src)
                open(p2, 'w').write('\n'.join(L))
                r = subprocess.run(cmd[:cmd.index(path) if path in cmd else -1] + [p2, '-ferror-limit=0', '-o', a], capture_output=True, text=True)
                if r.returncode == 0: break
                r.stderr = r.stderr.replace(p2, path)
        if r.returncode: raise CheckError('witness %s does not compile: %s' % (src, r.stderr[:1500]))
        if keepall:      # no definition may be dropped once its callers have inlined it
            t = open(a).read()
            t = re.sub(r'^define (linkonce_odr|linkonce|available_externally) ', 'define weak_odr ', t, flags=re.M)
            open(a, 'w').write(re.sub(r'^define internal ', 'define ', t, flags=re.M))
        r = subprocess.run([OPT, '-S', '-passes=' + opt] + list(optargs) + [a, '-o', b], capture_output=True, text=True)
        if r.returncode: raise CheckError('opt failed: ' + r.stderr[:1500])
        m = ir.Module(open(b).read())
        self.mods[key] = m
        return m

    # ------------------------------------------------------------ value graphs
    def call(self, mod, fn, *args, title=None, cuts=None, keep=None, soft=False, kind=None, setup=None, ends=None):
        """args: ('in',name,n[,ty]) symbolic inputs; ('out',n[,ty]) outputs; int / float / node scalars; list of constants.
        returns list of output lists (+ return value last) or None when the analysis abstains."""
        I = Interp(mod, max_steps=ends or self.maxsteps)
        if cuts: I.cuts.update(cuts)
        I.cuts.update(self.summaries(mod))
        I.ctors()
        I.accesses = 0
        I.gwrites = []
        av = []; outs = []
        for a in args:
            if isinstance(a, tuple) and a[0] == 'in':
                av.append(I.input(a[1], a[2], a[3] if len(a) > 3 else 'float'))
            elif isinstance(a, tuple) and a[0] == 'out':
                ty = a[2] if len(a) > 2 else 'float'
                es = {'float': 4, 'double': 8, 'u8': 1, 'i32': 4, 'i64': 8}[ty]
                p = Ptr(I.new(a[1] * es, 'result', 'out'), 0)
                outs.append((p, a[1], es, 'f' if ty in ('float', 'double') else 'i', len(a) > 3))
                av.append(p)
            elif a.__class__.__name__ == 'bytesarg':
                p = Ptr(I.new(len(a), 'data', 'in'), 0)
                o = I.wobj(p.o)
                o.cells = {i: (1, v) for i, v in enumerate(a)}
                av.append(p)
            elif isinstance(a, list):
                p = Ptr(I.new(4 * len(a), 'data', 'in'), 0)
                o = I.wobj(p.o)
                for i, v in enumerate(a): I.put(o, 4 * i, 4, v if v.__class__ is N else C(f32(v)), None)
                av.append(p)
            elif isinstance(a, bytes):
                p = Ptr(I.new(len(a), 'data', 'in'), 0)
                o = I.wobj(p.o)
                for i, v in enumerate(a): I.put(o, i, 1, v, None)
                av.append(p)
            elif isinstance(a, float): av.append(C(f32(a)))
            elif isinstance(a, E): av.append(a.n)
            else: av.append(a)
        title = title or fn
        if keep is not None: keep.append(I)
        try:
            r = I.call(fn, av)
            res = [Lazy(I, p, n, es, k) if lz else I.vals(p, n, es, k) for p, n, es, k, lz in outs]
        except Abstain as e:
            if 'budget' in str(e) and ends and not I.symbr:
                self.violation(title, 'the call does not end: more than %d steps on definite control flow' % ends, [e.loc] if e.loc else [])
                return None
            if 'budget' in str(e): self.maxsteps = max(self.maxsteps // 10, 200_000)      # code that runs away: do not spend the budget again and again
            self.undecided(title, 'analysis abstains: %s%s' % (e, self.at(e.loc)))
            return None
        except Fault as e:
            if soft: return ('fault', e)
            self.violation(title, '%s: %s' % (e.kind, e), [e.loc])
            return None
        except Dead as e:
            if soft: return ('dead', e)
            self.violation(title, 'the call does not return for any analysed input: %s' % e, [e.loc] if e.loc else [])
            return None
        finally:
            self.stats['ir_instructions'] += I.steps
            self.stats['functions_analysed'] |= set(I.calls)
            self.stats['external_calls'] |= set(I.extern)
            self.stats['memory_accesses_checked'] += I.accesses
            self.stats['symbolic_branches'] += I.symbr
        self.last = I
        return res + [r]

    def summaries(self, mod):
        return {}

    @staticmethod
    def at(loc):
        return ' at %s:%s (%s)' % (os.path.basename(loc[0]), loc[1], loc[2]) if loc else ''

    # ------------------------------------------------------------ recording
    def undecided(self, title, why):
        title += self.tag
        self.claims.append(dict(claim=title, verdict='undecided', why=str(why)[:400]))

    def holds(self, title, how, **kw):
        title += self.tag
        self.claims.append(dict(claim=title, verdict='holds', how=how, **kw))

    def violation(self, title, msg, locs=(), detail=None):
        title += self.tag
        ls = []
        for l in locs:
            if l and (l[0], l[1], l[2]) not in ls: ls.append((l[0], l[1], l[2]))
        self.claims.append(dict(claim=title, verdict='violated', why=msg))
        self.viol.append(dict(claim=title, message=msg, constructs=[dict(file=a, line=b, function=c) for a, b, c in ls[:12]], detail=detail))

    def locs(self, node, limit=12):
        out = []
        ns = topo([node])
        for n in reversed(ns):
            if n.loc and n.loc[0].endswith('colorsystem.hpp'):
                k = (n.loc[0], n.loc[1], n.loc[2])
                if k not in out: out.append(k)
            if len(out) >= limit: break
        return out

    def expect(self, title, cond, msg, locs=(), how='syntactic', **kw):
        if cond: self.holds(title, how, **kw)
        else: self.violation(title, msg, locs)
        return cond

    # ------------------------------------------------------------ deciding
    def claim(self, title, impl, spec, box=None, atol=1e-6, rtol=0.0, **kw):
        """the value graph impl equals spec (within tolerance) for all inputs in the box"""
        if impl is None:
            return None
        spec = E.of(spec).n if not isinstance(spec, N) else spec
        if impl is UNDEF:
            self.violation(title, 'the result is never written')
            return None
        if not isinstance(impl, N):
            self.undecided(title, 'unexpected value %r' % (impl,))
            return None
        if impl is spec:
            self.holds(title, 'same term'); self.stats['identities'] += 1; self.stats['parts'] += 1
            return True
        bx = dict(box or {})
        wide = kw.pop('wide', None); hrt = kw.pop('hunt', 1e-4); hat = kw.pop('huntabs', 0.0)
        wb = dict(bx); wb.update(wide or {})
        for v in vars_of([impl, spec]):
            if v not in bx: bx[v] = (-2.0, 2.0)
            if v not in wb: wb[v] = (-1e9, 1e9)
        if self.deep:
            kw['budget'] = kw.get('budget', 20.0) * 5
            kw['max_boxes'] = kw.get('max_boxes', 200000) * 5
        if time.time() - self.t0 > (600 if not self.deep else 3000):
            self.undecided(title, 'time limit of the check'); return None
        try:
            R = D.compare(impl, spec, bx, atol, rtol, seed=self.seed, **kw)
        except RecursionError:
            self.undecided(title, 'graph too deep')
            return None
        self.stats['parts'] += R.parts; self.stats['boxes'] += R.boxes
        self.stats['identities'] += R.identity; self.stats['interval_proofs'] += R.byint
        if R.refuted is not None:
            w = dict(R.refuted)
            nd = w.pop('impl_node')
            self.violation(title, 'on inputs %s the code gives %s, the specification %s (tolerance %s)' % (w['box'], w['impl'], w['spec'], w['tol']),
                           self.locs(nd) or self.locs(impl), w)
            return False
        if hrt is not None and (R.identity < R.parts or gated([impl, spec])):
            # second pass over the whole domain: relative to the value and to rounding, not to the absolute tolerance
            try: w, same, tot, npts = D.hunt(impl, spec, wb, hrt, filters=kw.get('filters', ()), seed=self.seed, budget=3.0 if not self.deep else 30.0,
                                             nprobe=256 if not self.deep else 4096, atol=hat)
            except (RecursionError, OverflowError, ZeroDivisionError): w = None; npts = 0
            self.stats['boxes'] += npts
            if w is not None:
                nd = w.pop('impl_node')
                self.violation(title, 'on inputs %s the code gives %s, the specification %s (beyond rounding)' % ({k: v[0] for k, v in w['box'].items()}, w['impl'], w['spec']),
                               self.locs(nd) or self.locs(impl), w)
                return False
        if R.undecided:
            self.undecided(title, '%d of %d input regions undecided (%d proved)%s' % (R.undecided, R.parts, R.proved, ''.join('; ' + x for x in R.notes)))
            return None
        self.holds(title, 'value numbering' if R.byint == 0 else 'interval enclosure', regions=R.parts, by_identity=R.identity, by_interval=R.byint, empty=R.empty)
        return True

    def claims_vec(self, title, impl, spec, box=None, atol=1e-6, rtol=0.0, **kw):
        if impl is None: return
        for i, (a, b) in enumerate(zip(impl, spec)):
            self.claim('%s [%d]' % (title, i), a, b, box, atol, rtol, **kw)

    def bounds(self, title, I, box, **kw):
        """index obligations collected by interpreter I hold on the box"""
        for k, o in enumerate(I.oblig):
            self.stats['index_obligations'] += 1
            t = '%s: %s within bounds%s' % (title, o['what'], self.at(o['loc']))
            if o.get('idx') is None:
                v, w = o['conv'] if o['conv'].__class__ is tuple and len(o['conv']) == 2 else (None, None)
                if v is None: continue
                node = v; lo, hi = -(2.0 ** (w - 1)) - 0.999, 2.0 ** (w - 1) - 0.001
                t = '%s: float to int conversion in range%s' % (title, self.at(o['loc']))
            else:
                node = o['idx']; lo, hi = o['lo'], o['hi']
            fl = [(f, True) for f in o['facts']]
            self.in_range(t, node, lo, hi, box, fl, o['loc'], **kw)

    def in_range(self, title, node, lo, hi, box, facts=(), loc=None, budget=10.0):
        bx = dict(box)
        sp = select(lt(node, C(lo)), C(1.0), select(lt(C(hi), node), C(1.0), C(0.0)))
        for f, pol in facts:
            f = f if pol else not_(f)
            sp = select(f, sp, C(0.0))
        for v in vars_of([sp]):
            if v not in bx: bx[v] = (-1e6, 1e6)
        R = D.compare(sp, C(0.0), bx, 0.5, 0.0, seed=self.seed, budget=budget)
        self.stats['parts'] += R.parts; self.stats['boxes'] += R.boxes
        if R.refuted is not None:
            w = dict(R.refuted); w.pop('impl_node')
            self.violation(title, 'index or value out of [%g,%g] on inputs %s' % (lo, hi, w['box']), [loc] if loc else self.locs(node), w)
        elif R.undecided: self.undecided(title, '%d of %d regions undecided' % (R.undecided, R.parts))
        else: self.holds(title, 'interval enclosure', regions=R.parts)

    def monotone(self, title, node, v, lo, hi, tol=1e-3, slope=1e-6, budget=10.0, n0=64):
        """node (a function of v alone) is non-decreasing on [lo,hi]: enclosures of the derivative on every smooth region, no drop at joints"""
        import numpy as np
        parts, over = D.partition([node], {v: (lo, hi)}, (), 400, D.Budget(budget))
        parts = sorted((p for p in parts if p is not None and v in p.box), key=lambda p: p.box[v])
        und = over
        ends = []
        t_end = time.time() + budget
        for p in parts:
            a, b = p.box[v]
            r = p.roots[0]
            if p.filters: und += 1; continue
            ea = D.scalar_range(r, {v: (a, a)}); eb = D.scalar_range(r, {v: (b, b)})
            ends.append((a, b, ea, eb, r))
            if isc(r) or a == b: continue
            L = np.linspace(a, b, n0 + 1) if not (a >= 0 and b > 1e3 * max(a, 1e-30)) else np.concatenate([[a], np.geomspace(max(a, b * 1e-12), b, n0)])
            LO, HI = L[:-1], L[1:]
            for depth in range(40):
                if not len(LO) or time.time() > t_end: break
                R, _ = D.evalg([r], {v: LO}, {v: HI}, [v], size=len(LO))
                self.stats['boxes'] += len(LO)
                g = R[r.id].g
                gl, gh = (g[0] if g and g[0] is not None else (np.zeros(len(LO)), np.zeros(len(LO))))
                bad = (gh < -slope) & (R[r.id].bad == 0)
                if bad.any():
                    i = int(np.argmax(bad))
                    self.violation(title, 'decreasing for %s in [%g,%g]: slope in [%g,%g]' % (v, LO[i], HI[i], gl[i], gh[i]), self.locs(r))
                    return False
                keep = ~(gl >= -slope)
                LO, HI = LO[keep], HI[keep]
                M_ = np.where((LO > 0) & (HI > 2 * LO), np.sqrt(np.maximum(LO, 0) * np.maximum(HI, 0)), 0.5 * (LO + HI))
                LO, HI = np.concatenate([LO, M_]), np.concatenate([M_, HI])
                if len(LO) > 20000: break
            if len(LO): und += 1
        self.stats['parts'] += len(parts)
        for p, q in zip(ends, ends[1:]):
            # value at the end of one region against the start of the next
            if p[3][2] == 0 and q[2][2] == 0 and q[0] >= p[1] and q[2][1] < p[3][0] - tol:
                self.violation(title, 'drops from %g to %g at %s=%g' % (p[3][0], q[2][1], v, q[0]), self.locs(q[4]) or self.locs(node))
                return False
        if und: self.undecided(title, '%d regions undecided' % und)
        else: self.holds(title, 'derivative enclosure', regions=len(parts))
        return True

    # ------------------------------------------------------------ end
    def finish(self, technique_text):
        shutil.rmtree(self.tmp, ignore_errors=True)
        known = load_known(self.pid)
        out = []
        left = []
        for v in self.viol:
            k = next((k for k in known if k['claim'] == v['claim']), None)
            if k is not None: out.append('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
            else: left.append(v)
        n = len(self.claims); d = sum(c['verdict'] == 'holds' for c in self.claims)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='other', wall_s=round(time.time() - self.t0, 3), violations=len(left),
                  assumptions=self.assumptions,
                  coverage=dict(explanation=technique_text, obligations=n, discharged=d,
                                undecided=[c for c in self.claims if c['verdict'] == 'undecided'],
                                claims=[c for c in self.claims if c['verdict'] != 'undecided'][:400],
                                functions_analysed=sorted(demangle(x for x in self.stats['functions_analysed'] if not x.startswith('c'))),
                                external_functions=sorted(self.stats['external_calls'])))
        for k in ('ir_instructions', 'memory_accesses_checked', 'symbolic_branches', 'parts', 'boxes', 'identities', 'interval_proofs', 'index_obligations'):
            if self.stats[k]: ev['coverage'][k] = self.stats[k]
        ev['coverage'].update(self.extra)
        os.makedirs(EVID, exist_ok=True)
        rp = os.path.join(EVID, '%s.violation.json' % self.pid)
        if os.path.exists(rp): os.unlink(rp)
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1, default=str)
        for l in out: print(l)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' % (
            self.pid, n, d, sum(c['verdict'] == 'undecided' for c in self.claims), len(left), time.time() - self.t0))
        if left:
            json.dump(left, open(rp, 'w'), indent=1, default=str)
            for v in left[:8]:
                c = v['constructs'][0] if v['constructs'] else None
                print('  %s: %s%s' % (v['claim'], v['message'][:500], ' [%s:%s %s]' % (os.path.basename(c['file']), c['line'], c['function']) if c else ''))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def drop(L, k):
    """lines of the witness function that line k belongs to, or None when it is a helper others need"""
    a = k
    while a >= 0 and (not L[a] or L[a][0] in ' \t{}'): a -= 1
    if a < 0 or not re.match(r'(?:W|T|I|extern "C"|[A-Z][A-Z0-9]*\() ?', L[a]) or L[a].startswith('#'): return None
    b = a
    if L[a].count('{') != L[a].count('}') or '{' not in L[a] and not L[a].rstrip().endswith(')'):
        while b < len(L) and not L[b].startswith('}'): b += 1
    return (a, b) if b < len(L) else None


def gated(roots):
    """does any comparison or integer conversion occur"""
    return any(n.t == 'b' or n.op in D.INTOPS or n.op in ('fmod', 'irem', 'idiv', 'sel', 'tab') for n in topo(roots))


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def build_dependent(pid):
    """does the header's text depend on NDEBUG, directly or through an assertion that matters to this property"""
    s = open(os.path.join(REPO, 'include', 'colorsystem.hpp')).read()
    s = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', s, flags=re.S)
    if re.search(r'(?m)^\s*#\s*(?:if|ifdef|ifndef|elif)\b.*\b(?:NDEBUG|_DEBUG|DEBUG)\b', s): return True
    a = re.findall(r'\bassert\s*\((.*?)\)\s*;', s, flags=re.S)
    if any(re.search(r'(?<![=<>!])=(?!=)|\+\+|--', x) for x in a): return True
    if pid in ('C24', 'C25', 'C26'): return True
    i = s.find('class MemoryStream')
    return len(re.findall(r'\bassert\s*\(', s[:i] if i > 0 else s)) > 0


def demangle(names):
    names = list(names)
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    o = r.stdout.split('\n') if r.returncode == 0 else names
    return {x for x in o if 'ColorSystem' in x}


def main(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    sys.path.insert(0, os.path.join(ROOT, 'props'))
    import importlib
    mod = importlib.import_module(pid.lower())
    import numpy
    numpy.seterr(all='ignore')
    cx = Ctx(pid, tier, seed)
    rint.seed(seed) if hasattr(rint, 'seed') else None
    try:
        mod.check(cx)
        if pid not in ('C27', 'C29') and not cx.viol and build_dependent(pid):
            # the header reads a standard build-mode macro, or asserts: the release build has to satisfy the property too
            cx.xflags = ('-DNDEBUG',); cx.tag = ' (NDEBUG)'; cx.mods = {}
            if hasattr(mod, '_memo'): mod._memo.clear()
            mod.check(cx)
        return cx.finish(mod.TEXT)
    except CheckError as e:
        if any(c['verdict'] != 'undecided' for c in cx.claims):
            cx.undecided('remaining obligations', str(e)[:300])
            return cx.finish(mod.TEXT)
        print('ERROR %s: %s' % (pid, e))
        shutil.rmtree(cx.tmp, ignore_errors=True)
        return 2
    except Exception as e:
        traceback.print_exc()
        if any(c['verdict'] != 'undecided' for c in cx.claims):
            # the analysis met something it cannot model: what it decided so far stands, the rest is reported as undecided
            cx.undecided('remaining obligations', 'analysis stopped: %s: %s' % (type(e).__name__, e))
            return cx.finish(mod.TEXT)
        shutil.rmtree(cx.tmp, ignore_errors=True)
        return 2
