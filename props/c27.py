from harness import *
from effects import *
TEXT = ('Effect analysis over the IR of every function of the header (emitted whether used or not): the external functions reachable from each (no input/output, time, environment, random numbers, exit), '
        'every object with static storage (constant, or written only by its own initialiser, which does not depend on a call\'s arguments), and for every function the set of memory roots it can write, '
        'compared with the constness of its parameters and of the object it is called on.')

DENY = re.compile(r'''^(?:v?f?printf|v?dprintf|puts|fputs|putchar|putc|fputc|putchar_unlocked|perror|fwrite|fread|fopen|fopen64|freopen|fclose|fflush|fgets|getc|getchar|scanf|fscanf|open|open64|close|read|write|
 pread|pwrite|creat|remove|unlink|rename|mkdir|socket|send|recv|system|popen|fork|execve?|kill|raise|signal|sigaction|syslog|
 time|clock|gettimeofday|clock_gettime|localtime|gmtime|strftime|ctime|
 rand|srand|rand_r|random|srandom|drand48|srand48|lrand48|erand48|arc4random|getrandom|getentropy|
 getenv|secure_getenv|setenv|putenv|unsetenv|setlocale|fesetround|fesetenv|feenableexcept|fedisableexcept|
 exit|_exit|_Exit|quick_exit|abort|longjmp|pthread_.*|getpid|gettid|sleep|usleep|nanosleep|mmap|dlopen|
 _ZSt9terminatev|_ZNSt6chrono.*3nowEv|_ZNSt13random_device.*|_ZNSo.*|_ZNSi.*|_ZStls.*|_ZStrs.*|_ZSt16__ostream_insert.*|_ZSt4endl.*|_ZSt5flush.*|_ZNSt14basic_[io]?f?stream.*|_ZNSt14basic_ofstream.*|
 _ZNSt13basic_filebuf.*|_ZNSt6thread.*|_ZNSt18condition_variable.*|inline\ assembly)$''', re.X)
ALLOW = re.compile(r'''^(?:llvm\..*|mem(?:cpy|move|set|cmp|chr)|bcmp|str(?:len|cmp|ncmp|chr)|_Zn[wa]m.*|_Zd[la]Pv.*|malloc|free|realloc|__cxa_.*|_ZSt\d+__throw_.*|__assert_fail|__gxx_personality_v0|_Unwind_Resume|
 _ZNSt\d+[a-z_]+(?:error|alloc|length|argument|range|exception).*|_ZNKSt.*exception.*|_ZSt21__glibcxx_assert_fail.*|__errno_location|_ZNKSt5ctype.*|_ZNSt8ios_base4Init[CD].*|
 frexpf?|ldexpf?|modff?|sincosf?|remquof?|scalbnf?|ilogbf?|logbf?|nextafterf?|lgammaf?|tgammaf?|erfc?f?|sinhf?|coshf?|tanhf?|asinf?|acosf?|asinhf?|acoshf?|atanhf?|rintf?|nearbyintf?|lrintf?|lroundf?|llroundf?|fdimf?|fmaf?|_ZTV.*|_ZTI.*)$''', re.X)


def params(dem):
    """parameter types and constness of a demangled signature"""
    if '(' not in dem: return None
    # last top-level parenthesised list
    depth = 0
    end = dem.rfind(')')
    const = dem[end + 1:].strip().startswith('const')
    i = end
    while i >= 0:
        if dem[i] == ')': depth += 1
        elif dem[i] == '(':
            depth -= 1
            if depth == 0: break
        i -= 1
    s = dem[i + 1:end]
    out = []
    d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        elif ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out, const, dem[:i]


ADDR = ('urem', 'srem', 'udiv', 'sdiv', 'mul', 'xor', 'lshr', 'shl', 'uitofp', 'sitofp', 'trunc')
SCALAR = re.compile(r'^(?:unsigned |signed )?(?:float|double|int|long|short|char|bool|unsigned|long long|unsigned long|unsigned int|unsigned char|unsigned short|std::nullptr_t)$')


def check(cx):
    text = '#include <cstddef>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE -1\n#include "colorsystem.hpp"\n'
    m = cx.module('header.cpp', flags=['-femit-all-decls'], text=text)
    # the library is also pure when assertions are compiled out
    effects(cx, m, '')
    m2 = cx.module('header_ndebug.cpp', flags=['-femit-all-decls', '-DNDEBUG'], text=text)
    effects(cx, m2, ' (NDEBUG)')


def effects(cx, m, tag):
    E_ = Effects(m)
    lib = [n for n in m.funcs if islib(n)]
    inits = [n for n in m.funcs if n.startswith('__cxx_global_var_init') or n.startswith('__tls_init') or n.startswith('_GLOBAL__')]
    seen, ext, indirect = E_.reach(lib + inits)
    E_.solve(seen)
    dem = dict(zip(list(seen) + list(ext), demall(list(seen) + list(ext))))
    cx.stats['functions_analysed'] |= set(seen)
    cx.stats['external_calls'] |= set(ext)
    for n in seen: cx.stats['ir_instructions'] += sum(len(b) for b in m.funcs[n].blocks.values())
    cx.extra['call_edges' + tag.strip(' ()')] = sum(len(v) for v in ext.values())

    def libloc(n, dbg):
        """position inside the library: the call site in the nearest library function on the way here"""
        l = m.loc(dbg)
        path = [n]
        while not l[0].endswith('colorsystem.hpp') and seen.get(path[-1]) is not None:
            c, p = path[-1], seen[path[-1]]
            path.append(p)
            f = m.funcs[p]
            for b in f.order:
                for ins in f.blocks[b]:
                    if c in refs(ins): l = m.loc(ins.dbg)
        return l, ' <- '.join(dem.get(x, x) for x in path[:5])
    # 1. external effects
    bad = False
    for x in sorted(ext):
        t = 'reachable external function %s%s' % (dem.get(x, x), tag)
        if x in FLOATFN or (ALLOW.match(x) and not DENY.match(x)):
            continue
        if DENY.match(x):
            sites = [(n, d) for n, d in ext[x] if n != '__clang_call_terminate' and not (n in inits and 'ios_base' in x)]
            if x == '_ZSt9terminatev' or x == '__clang_call_terminate': sites = [(n, d) for n, d in sites if n in lib]
            if not sites: continue
            l, path = libloc(*sites[0])
            bad = True
            cx.violation(t, 'called from %s' % path, [l])
        else:
            bad = True
            cx.undecided(t, 'effects unknown; called from %s' % dem.get(ext[x][0][0], '?'))
    for n, d in ext.get('__errno_location', ()):
        if not islib(n): continue
        # errno read by a library function which never sets it: left over from whatever ran before
        f = m.funcs[n]
        regs, ld, st = set(), [], False
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op in ('call', 'invoke') and ins.a[0] == ('glob', '__errno_location'): regs.add("'%s'" % ins.dst)
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'load' and ins.a and any(r and r in str(ins.a) for r in regs): ld.append(ins)
                if ins.op == 'store' and any(r and r in str(ins.a) for r in regs): st = True
        if ld and not st:
            bad = True
            cx.violation('hidden state errno%s' % tag, 'read in %s, which does not set it first' % dem.get(n, n), [m.loc(ld[0].dbg)])
    for n in lib:
        # an address turned into a number that enters arithmetic other than the distance of two addresses
        f = m.funcs[n].decode()
        A = {}
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'ptrtoint': A[ins.dst] = ins
                elif ins.op in ('zext', 'add', 'freeze') and any(o.__class__ is tuple and o[0] == 'loc' and o[1] in A for o in ins.a): A[ins.dst] = ins
        if not A: continue
        for b in f.order:
            for ins in f.blocks[b]:
                h = [o for o in ins.a if o.__class__ is tuple and len(o) > 1 and o[0] == 'loc' and o[1] in A] if ins.op in ADDR or ins.op == 'and' else []
                if not h: continue
                k = ins.a[1][1] if len(ins.a) > 1 and ins.a[1].__class__ is tuple and ins.a[1][0] == 'int' else None
                if ins.op in ('and', 'urem') and k is not None and k <= 64: continue       # alignment
                bad = True
                cx.violation('result of %s depends on values, not addresses%s' % (dem.get(n, n), tag), 'an object\'s address is used as a number (%s)' % ins.op, [m.loc(ins.dbg)])
                break
    if not bad: cx.holds('no input/output, clock, environment, random or exit function is reachable%s' % tag, 'call graph', library_functions=len(lib), reachable=len(seen), externals=len(ext))
    for n, d in indirect[:20]:
        if islib(n): cx.undecided('indirect call%s' % tag, 'in %s' % dem.get(n, n))
    # 2. objects with static storage
    gl = [g for g in m.gtext if '11ColorSystem' in g and not g.startswith(('_ZTV', '_ZTI', '_ZTS', '_ZGV', '_ZGR'))]
    gwritten = {}
    for n in seen:
        for q, (d, via) in E_.writes[n].items():
            if q[0] == 'g': gwritten.setdefault(q[1], []).append((n, d))
    nconst = 0
    ok = True
    allg = set(gl) | {g for g in gwritten if not g.startswith('_ZGV')}
    gdem = dict(zip(sorted(allg), demall(sorted(allg))))
    for g in sorted(allg):
        txt = m.gtext.get(g, '')
        const = re.match(r'[^"\[{(]*\bconstant\b', txt) is not None
        t = 'static object %s%s' % (gdem[g], tag)
        w = [(n, d) for n, d in gwritten.get(g, []) if not (n in inits or n.startswith(('__cxx_global', '_GLOBAL__', '__tls')))]
        w = [(n, d) for n, d in w if not only_from_inits(seen, E_, m, n, inits)]
        if w:
            ok = False
            l, path = libloc(*w[0])
            cx.violation(t, 'is written after initialisation, in %s' % path, [l])
            continue
        if g not in gl: continue
        if const: nconst += 1; continue
        dyn = [(n, d) for n, d in gwritten.get(g, [])]
        local = guarded(E_, seen, g, m)
        if local:
            n, dep, dbg = local
            if dep:
                ok = False
                cx.violation(t, 'keeps the value computed from the first call\'s arguments in %s' % dem.get(n, n), [m.loc(dbg)])
            continue
        if dyn: continue
        ok = False
        cx.violation(t, 'is not constant', [])
    if ok: cx.holds('static objects are constant%s' % tag, 'global variables and write sets', objects=len(gl), in_constant_memory=nconst)
    # 3. writes through const
    nf = 0; sk = 0
    ok = True
    for n in lib:
        d = dem.get(n)
        P = params(d) if d else None
        f = m.funcs[n]
        if P is None: sk += 1; continue
        ty, cthis, nm = P
        sret = 1 if re.search(r'\bsret\b', f.header) else 0
        byval = any(not (SCALAR.match(x) or x.endswith(('&', '*')) or x.endswith('...') or '::ENDIAN' in x or '::CURSOR' in x or '::TYPE' in x) for x in ty)
        k = len(f.params) - sret
        W_ = E_.writes[n]
        nf += 1
        idx = []
        if cthis: idx.append((sret, 'the object it is called on'))
        if not byval and k in (len(ty), len(ty) + 1):
            off = sret + (k - len(ty))
            for i, x in enumerate(ty):
                if re.search(r'const[&*]$', x.replace(' ', '')): idx.append((off + i, 'its const parameter %d (%s)' % (i + 1, x)))
        elif not cthis and ty: sk += 1
        for i, what in idx:
            if ('p', i) in W_:
                ok = False
                dbg, via = W_[('p', i)]
                l, _ = libloc(n, dbg)
                cx.violation('%s writes only what it is given to modify%s' % (d, tag), 'writes %s%s' % (what, ' through ' + dem.get(via, via) if via else ''), [l])
    if ok: cx.holds('no function writes through a const parameter or const object%s' % tag, 'write sets', functions=nf, parameters_not_mapped=sk)


def demall(names):
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return r.stdout.split('\n')[:len(names)]


def only_from_inits(seen, E_, m, n, inits):
    """n is called only from initialisers of namespace-scope objects (constructors etc. are context dependent, so follow callers)"""
    return False


def guarded(E_, seen, g, m):
    """g is a local static initialised under a guard: (function, initial value depends on arguments?, position)"""
    for n in seen:
        f = m.funcs[n]
        G = E_.guards(f)
        if not G: continue
        hit = None
        for b in G:
            for ins in f.blocks[b]:
                for ptr, via in list(E_.wsites(ins)) + [(a[1], None) for a in (ins.a[1] if ins.op in ('call', 'invoke') and ins.a[0][0] == 'glob' and not ins.a[0][1].startswith('__cxa') else [])]:
                    if ptr and ptr[0] in ('glob', 'loc', 'ce') and ('g', g) in E_.bases(f, ptr):
                        T, A = E_.tainted(f)
                        ops = [o for o in oprefs(ins)]
                        dep = any(o in T for o in ops) or any(q[0] == 'a' and q[1] in A for o in ops for q in E_.bases(f, ('loc', o)))
                        if hit is None or dep: hit = (n, dep, ins.dbg)
        if hit: return hit
    return None
