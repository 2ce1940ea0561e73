"""Parser for the subset of textual LLVM-18 IR that clang emits for C++.

Functions are indexed when the module is read and decoded on first use.
Nothing here executes anything: the result is a data structure (types, global
initialisers, functions as lists of basic blocks of decoded instructions with
their source location).
"""
import re, struct

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
  (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>![a-zA-Z0-9_.]*)|
  (?P<attr>\#\d+)|
  (?P<num>0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[-+]?\d+)?|-?\d+)|
  (?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)|
  (?P<dots>\.\.\.)|
  (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'packed', '_sz', '_al')

    def __init__(self, k, n=None, el=None, els=None, packed=False):
        self.k = k; self.n = n; self.el = el; self.els = els; self.packed = packed
        self._sz = None; self._al = None

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k in ('arr', 'vec'): return '%s[%d x %r]' % (self.k, self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.els))
        return self.k


I1 = Ty('int', 1); I8 = Ty('int', 8); I16 = Ty('int', 16); I32 = Ty('int', 32); I64 = Ty('int', 64)
FLOAT = Ty('float'); DOUBLE = Ty('double'); PTR = Ty('ptr'); VOID = Ty('void'); LABEL = Ty('label'); META = Ty('metadata')
FP80 = Ty('fp80')
_INTS = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}


def intty(n):
    t = _INTS.get(n)
    if t is None:
        t = _INTS[n] = Ty('int', n)
    return t


def align(t):
    if t._al is None: size(t)
    return t._al


def size(t):
    if t._sz is not None: return t._sz
    k = t.k
    if k == 'int':
        s = 1
        while s * 8 < t.n: s *= 2
        a = s
        if t.n == 128: a = 16
    elif k == 'float': s = a = 4
    elif k == 'double' or k == 'ptr': s = a = 8
    elif k == 'fp80': s = a = 16
    elif k == 'arr': s = size(t.el) * t.n; a = align(t.el)
    elif k == 'vec':
        s = size(t.el) * t.n
        a = 1
        while a < s: a *= 2
        s = a
        if a == 0: a = 1
    elif k == 'struct':
        s = 0; a = 1
        for e in t.els:
            ea = 1 if t.packed else align(e)
            a = max(a, ea)
            s = (s + ea - 1) // ea * ea
            s += size(e)
        s = (s + a - 1) // a * a
    elif k == 'opaque': s = 0; a = 1
    else:
        raise IRError('size of %r' % t)
    t._sz = s; t._al = a
    return s


def field_offset(t, i):
    s = 0
    for j, e in enumerate(t.els):
        ea = 1 if t.packed else align(e)
        s = (s + ea - 1) // ea * ea
        if j == i: return s
        s += size(e)
    raise IRError('field')


# ---------------------------------------------------------------- operands
# ('loc',name) ('glob',name) ('int',v) ('f',pyfloat) ('null',) ('undef',) ('zero',)
# ('agg',[(ty,op)...]) ('cstr',bytes) ('ce',opcode,...)  each paired with its type
class Lex:
    __slots__ = ('toks', 'i')

    def __init__(self, s):
        self.toks = []
        pos = 0
        n = len(s)
        tk = self.toks
        m = TOK.match
        while pos < n:
            r = m(s, pos)
            if not r:
                if not s[pos:].strip(): break
                raise IRError('lex: %r' % s[pos:pos + 60])
            k = r.lastgroup
            tk.append((k, r.group(k)))
            pos = r.end()
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.toks[j] if j < len(self.toks) else (None, None)

    def next(self):
        t = self.toks[self.i] if self.i < len(self.toks) else (None, None)
        self.i += 1
        return t

    def accept(self, v):
        if self.i < len(self.toks) and self.toks[self.i][1] == v and self.toks[self.i][0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        t = self.next()
        if t[1] != v: raise IRError('expected %r got %r in %r' % (v, t, self.toks[max(0, self.i - 8):self.i + 4]))


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
               'returned', 'inreg', 'nest', 'swiftself', 'immarg', 'dead_on_unwind', 'writable', 'nofree', 'allocalign',
               'allocptr', 'noinline', 'inrange'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'range', 'nofpclass',
                   'preallocated', 'inalloca', 'elementtype', 'byref', 'initializes', 'allocsize', 'memory'}


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'dbg', 'line')

    def __init__(self, op, dst, ty, a, dbg, line):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.dbg = dbg; self.line = line

    def __repr__(self):
        return '%s = %s %r %r' % (self.dst, self.op, self.ty, self.a)


class Func:
    def __init__(self, mod, name, header, body, attrs):
        self.mod = mod; self.name = name; self.header = header; self.body = body
        self.attrs = attrs
        self._dec = False
        self.params = None; self.blocks = None; self.order = None; self.ret = None

    def decode(self):
        if self._dec: return self
        self._dec = True
        self.mod._decode(self)
        return self


class Module:
    def __init__(self, text):
        self.types = {}
        self.tdefs = {}
        self.gtext = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.meta = {}
        self.aliases = {}
        self._loccache = {}
        self._read(text)

    # ------------------------------------------------------------ reading
    def _read(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', L)
                name = unq(m.group(1))
                self.funcs[name] = Func(self, name, L, lines[i + 1:j], L)
                i = j + 1
                continue
            if L.startswith('%'):
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)', L)
                if m: self.tdefs[unq(m.group(1))] = m.group(2)
            elif L.startswith('@'):
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)', L)
                self.gtext[unq(m.group(1))] = m.group(2)
            elif L.startswith('declare'):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', L)
                self.decls[unq(m.group(1))] = L
            elif L.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', L)
                if m: self.meta[int(m.group(1))] = m.group(2)
            i += 1

    # ------------------------------------------------------------ types
    def named(self, name):
        t = self.types.get(name)
        if t is None:
            t = Ty('struct', els=[])
            self.types[name] = t
            d = self.tdefs.get(name)
            if d is None or d.startswith('opaque'):
                t.k = 'opaque'
            else:
                r = self.ptype(Lex(d))
                t.k = r.k; t.n = r.n; t.el = r.el; t.els = r.els; t.packed = r.packed
        return t

    def ptype(self, lx):
        k, v = lx.next()
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit(): t = intty(int(v[1:]))
            elif v == 'float': t = FLOAT
            elif v == 'double': t = DOUBLE
            elif v == 'ptr':
                t = PTR
                if lx.peek()[1] == 'addrspace':
                    lx.next(); lx.expect('('); lx.next(); lx.expect(')')
            elif v == 'void': t = VOID
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'x86_fp80': t = FP80
            elif v == 'opaque': t = Ty('opaque')
            elif v == 'token': t = Ty('token')
            else: raise IRError('type %r' % v)
        elif k == 'loc': t = self.named(unq(v))
        elif v == '[':
            n = int(lx.next()[1]); lx.expect('x'); el = self.ptype(lx); lx.expect(']')
            t = Ty('arr', n, el)
        elif v == '<':
            if lx.peek()[1] == '{':
                lx.next()
                els = []
                if not lx.accept('}'):
                    while True:
                        els.append(self.ptype(lx))
                        if lx.accept('}'): break
                        lx.expect(',')
                lx.expect('>')
                t = Ty('struct', els=els, packed=True)
            else:
                n = int(lx.next()[1]); lx.expect('x'); el = self.ptype(lx); lx.expect('>')
                t = Ty('vec', n, el)
        elif v == '{':
            els = []
            if not lx.accept('}'):
                while True:
                    els.append(self.ptype(lx))
                    if lx.accept('}'): break
                    lx.expect(',')
            t = Ty('struct', els=els)
        else:
            raise IRError('type tok %r' % v)
        # function type suffix  "ret (args...)" used in calls
        if lx.peek()[1] == '(' and lx.peek()[0] == 'p' and self._looks_fnty(lx):
            depth = 0
            while True:
                kk, vv = lx.next()
                if vv == '(' and kk == 'p': depth += 1
                elif vv == ')' and kk == 'p':
                    depth -= 1
                    if depth == 0: break
        return t

    def _looks_fnty(self, lx):
        # after a type, '(' starts a function type (only in call position)
        return True

    def skip_attrs(self, lx):
        while True:
            k, v = lx.peek()
            if k == 'id' and v in PARAM_ATTRS: lx.next()
            elif k == 'id' and v in PARAM_ATTRS_ARG:
                lx.next()
                if lx.peek()[1] == '(':
                    d = 0
                    while True:
                        kk, vv = lx.next()
                        if kk == 'p' and vv == '(': d += 1
                        elif kk == 'p' and vv == ')':
                            d -= 1
                            if d == 0: break
                elif v == 'align': lx.next()
            elif k == 'attr' or k == 'str': lx.next()
            else: return

    def pval(self, lx, ty):
        k, v = lx.next()
        if k == 'loc': return ('loc', unq(v))
        if k == 'glob': return ('glob', unq(v))
        if k == 'num':
            if ty.k in ('float', 'double', 'fp80'): return ('f', fconst(v))
            return ('int', int(v) & ((1 << ty.n) - 1) if ty.k == 'int' else int(v))
        if k == 'id':
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'null': return ('null',)
            if v == 'undef' or v == 'poison': return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('null',)
            if v in ('getelementptr',):
                while lx.peek()[1] in ('inbounds', 'nuw', 'nusw'): lx.next()
                if lx.peek()[1] == 'inrange':
                    lx.next()
                    if lx.accept('('):
                        while lx.next()[1] != ')': pass
                lx.expect('(')
                t = self.ptype(lx); lx.expect(',')
                ops = []
                while True:
                    lx.accept('inrange')
                    ot = self.ptype(lx)
                    ops.append((ot, self.pval(lx, ot)))
                    if lx.accept(')'): break
                    lx.expect(',')
                return ('ce', 'gep', t, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                lx.expect('(')
                st = self.ptype(lx); sv = self.pval(lx, st); lx.expect('to'); dt = self.ptype(lx); lx.expect(')')
                return ('ce', v, st, sv, dt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while lx.peek()[1] in ('nuw', 'nsw'): lx.next()
                lx.expect('(')
                t1 = self.ptype(lx); a = self.pval(lx, t1); lx.expect(','); t2 = self.ptype(lx); b = self.pval(lx, t2); lx.expect(')')
                return ('ce', v, t1, a, b)
            if v == 'asm': raise IRError('inline asm')
        if k == 'str' and v[0] == 'c': return ('cstr', cbytes(v[2:-1]))
        if v in ('[', '{', '<') and k == 'p':
            packed = False
            if v == '<' and lx.peek()[1] == '{':
                lx.next(); packed = True; close = '}'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[v]
            els = []
            if not lx.accept(close):
                while True:
                    et = self.ptype(lx)
                    els.append((et, self.pval(lx, et)))
                    if lx.accept(close): break
                    lx.expect(',')
            if packed: lx.expect('>')
            return ('agg', els)
        if k == 'meta':
            return ('meta', v)
        raise IRError('value %r %r near %r' % (k, v, lx.toks[max(0, lx.i - 6):lx.i + 6]))

    def tv(self, lx):
        t = self.ptype(lx)
        self.skip_attrs(lx)
        if t.k == 'metadata':
            # skip metadata operand
            d = 0
            while True:
                k, v = lx.peek()
                if k is None: break
                if d == 0 and v in (',', ')'): break
                if v in ('(', '{'): d += 1
                if v in (')', '}'): d -= 1
                lx.next()
            return (t, ('meta', None))
        return (t, self.pval(lx, t))

    # ------------------------------------------------------------ globals
    def gdef(self, name):
        """(type, init operand or None, is_constant, linkage text)"""
        g = self.globals.get(name)
        if g is not None: return g
        s = self.gtext.get(name)
        if s is None: return None
        if re.match(r'.*?\balias\b', s) and ' alias ' in (' ' + s):
            m = re.search(r'alias\s+(.*)', s)
            lx = Lex(m.group(1))
            self.ptype(lx); lx.expect(',')
            self.ptype(lx)
            op = self.pval(lx, PTR)
            g = self.globals[name] = ('alias', op)
            return g
        m = re.match(r'(.*?)\b(global|constant)\s+(.*)$', s, re.S)
        pre, kind, rest = m.groups()
        ext = 'external' in pre.split() or 'extern_weak' in pre.split()
        fast = self._fast_init(rest)
        if fast is not None:
            g = (fast[0], fast[1], kind == 'constant', pre)
        else:
            lx = Lex(rest)
            t = self.ptype(lx)
            init = None
            if not ext and lx.peek()[1] not in (',', None):
                init = self.pval(lx, t)
            g = (t, init, kind == 'constant', pre)
        self.globals[name] = g
        return g

    def _fast_init(self, rest):
        return None

    # ------------------------------------------------------------ functions
    def _decode(self, f):
        m = f.header
        # params: take the parenthesised list after the name
        lx = Lex(m.split(' personality ')[0])
        # skip to glob
        while lx.peek()[0] != 'glob': lx.next()
        retpos = lx.i
        lx.next(); lx.expect('(')
        f.params = []
        f.vararg = False
        idx = 0
        if not lx.accept(')'):
            while True:
                if lx.peek()[0] == 'dots':
                    lx.next(); f.vararg = True
                else:
                    t = self.ptype(lx); self.skip_attrs(lx)
                    if lx.peek()[0] == 'loc': nm = unq(lx.next()[1])
                    else: nm = str(idx)
                    f.params.append((t, nm))
                    idx += 1
                if lx.accept(')'): break
                lx.expect(',')
        mm = re.search(r'!dbg !(\d+)', f.header)
        f.dbg = int(mm.group(1)) if mm else None
        blocks = {}
        order = []
        cur = None
        entry_name = str(idx)
        lines = f.body
        i = 0
        n = len(lines)
        while i < n:
            L = lines[i]
            i += 1
            if not L: continue
            if L[0] not in ' \t':
                mb = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', L)
                if mb:
                    nm = mb.group(1)
                    if nm[0] == '"': nm = nm[1:-1]
                    cur = []
                    blocks[nm] = cur
                    order.append(nm)
                    continue
            S = L.strip()
            if not S or S[0] == ';': continue
            if cur is None:
                cur = []
                blocks[entry_name] = cur
                order.append(entry_name)
            if S.startswith('switch') and ']' not in S:
                while ']' not in lines[i]:
                    S += ' ' + lines[i].strip(); i += 1
                S += ' ' + lines[i].strip(); i += 1
            elif 'landingpad' in S or (S.startswith('invoke') or ' = invoke ' in S):
                while i < n and re.match(r'\s+(cleanup|catch |filter |to label)', lines[i]):
                    S += ' ' + lines[i].strip(); i += 1
            ins = self._pinstr(S)
            if ins is not None: cur.append(ins)
        f.blocks = blocks
        f.order = order

    def _pinstr(self, S):
        dbg = None
        j = S.find(', !')
        if j >= 0:
            mm = re.search(r'!dbg !(\d+)', S[j:])
            if mm: dbg = int(mm.group(1))
            S = S[:j]
        # strip trailing comments
        lx = Lex(S)
        dst = None
        if lx.peek()[0] == 'loc' and lx.peek(1)[1] == '=':
            dst = unq(lx.next()[1]); lx.next()
        k, op = lx.next()
        while op in ('tail', 'musttail', 'notail'):
            k, op = lx.next()
        T = lambda t, a: Instr(op, dst, t, a, dbg, None)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr',
                  'ashr', 'and', 'or', 'xor'):
            while lx.peek()[0] == 'id' and lx.peek()[1] in FMF: lx.next()
            t = self.ptype(lx)
            a = self.pval(lx, t); lx.expect(','); b = self.pval(lx, t)
            return T(t, (a, b))
        if op == 'fneg' or op == 'freeze':
            while lx.peek()[0] == 'id' and lx.peek()[1] in FMF: lx.next()
            t = self.ptype(lx)
            return T(t, (self.pval(lx, t),))
        if op in ('icmp', 'fcmp'):
            while lx.peek()[1] in FMF: lx.next()
            pred = lx.next()[1]
            t = self.ptype(lx)
            a = self.pval(lx, t); lx.expect(','); b = self.pval(lx, t)
            return T(t, (pred, a, b))
        if op == 'alloca':
            lx.accept('inalloca')
            t = self.ptype(lx)
            cnt = ('int', 1)
            if lx.accept(',') and lx.peek()[1] != 'align':
                ct, cnt = self.tv(lx)
            return T(t, (cnt,))
        if op == 'load':
            lx.accept('atomic'); lx.accept('volatile')
            t = self.ptype(lx); lx.expect(',')
            pt = self.ptype(lx)
            return T(t, (self.pval(lx, pt),))
        if op == 'store':
            lx.accept('atomic'); lx.accept('volatile')
            t, v = self.tv(lx); lx.expect(',')
            pt, p = self.tv(lx)
            return T(t, (v, p))
        if op == 'getelementptr':
            while lx.peek()[1] in ('inbounds', 'nuw', 'nusw'): lx.next()
            t = self.ptype(lx); lx.expect(',')
            ops = []
            while True:
                ops.append(self.tv(lx))
                if not lx.accept(','): break
            return T(t, ops)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint',
                  'inttoptr', 'addrspacecast'):
            while lx.peek()[1] in ('nneg', 'nuw', 'nsw'): lx.next()
            st, v = self.tv(lx); lx.expect('to'); dt = self.ptype(lx)
            return T(dt, (st, v))
        if op == 'br':
            if lx.peek()[1] == 'label':
                lx.next()
                return T(None, (unq(lx.next()[1]),))
            t, c = self.tv(lx); lx.expect(','); lx.expect('label'); a = unq(lx.next()[1]); lx.expect(','); lx.expect('label')
            b = unq(lx.next()[1])
            return T(None, (c, a, b))
        if op == 'switch':
            t, c = self.tv(lx); lx.expect(','); lx.expect('label'); d = unq(lx.next()[1]); lx.expect('[')
            cases = []
            while not lx.accept(']'):
                ct, cv = self.tv(lx); lx.expect(','); lx.expect('label'); cases.append((cv[1], unq(lx.next()[1])))
            return T(t, (c, d, cases))
        if op == 'ret':
            if lx.peek()[1] == 'void': return T(VOID, ())
            t, v = self.tv(lx)
            return T(t, (v,))
        if op == 'phi':
            while lx.peek()[0] == 'id' and lx.peek()[1] in FMF: lx.next()
            t = self.ptype(lx)
            inc = []
            while True:
                lx.expect('['); v = self.pval(lx, t); lx.expect(','); b = unq(lx.next()[1]); lx.expect(']')
                inc.append((v, b))
                if not lx.accept(','): break
            return T(t, inc)
        if op == 'select':
            while lx.peek()[0] == 'id' and lx.peek()[1] in FMF: lx.next()
            ct, c = self.tv(lx); lx.expect(','); t, a = self.tv(lx); lx.expect(','); t, b = self.tv(lx)
            return T(t, (c, a, b))
        if op in ('call', 'invoke'):
            while lx.peek()[0] == 'id' and (lx.peek()[1] in FMF or lx.peek()[1] in ('fastcc', 'ccc', 'coldcc')): lx.next()
            self.skip_attrs(lx)
            while lx.peek()[0] == 'id' and lx.peek()[1] in ('zeroext', 'signext'): lx.next()
            rt = self.ptype(lx)
            self.skip_attrs(lx)
            if lx.peek()[1] == 'asm':
                return Instr('asm', dst, rt, (), dbg, None)
            callee = self.pval(lx, PTR)
            lx.expect('(')
            args = []
            if not lx.accept(')'):
                while True:
                    args.append(self.tv(lx))
                    if lx.accept(')'): break
                    lx.expect(',')
            normal = None
            if op == 'invoke':
                while lx.peek()[1] != 'to': lx.next()
                lx.next(); lx.expect('label'); normal = unq(lx.next()[1])
                lx.expect('unwind'); lx.expect('label'); unw = unq(lx.next()[1])
                return T(rt, (callee, args, normal, unw))
            return T(rt, (callee, args))
        if op in ('extractvalue',):
            t, v = self.tv(lx)
            idx = []
            while lx.accept(','): idx.append(int(lx.next()[1]))
            return T(t, (v, idx))
        if op == 'insertvalue':
            t, v = self.tv(lx); lx.expect(',')
            et, e = self.tv(lx)
            idx = []
            while lx.accept(','): idx.append(int(lx.next()[1]))
            return T(t, (v, et, e, idx))
        if op == 'extractelement':
            t, v = self.tv(lx); lx.expect(','); it, i = self.tv(lx)
            return T(t, (v, i))
        if op == 'insertelement':
            t, v = self.tv(lx); lx.expect(','); et, e = self.tv(lx); lx.expect(','); it, i = self.tv(lx)
            return T(t, (v, e, i))
        if op == 'shufflevector':
            t, v = self.tv(lx); lx.expect(','); t2, v2 = self.tv(lx); lx.expect(','); mt, mk = self.tv(lx)
            return T(t, (v, v2, mt, mk))
        if op in ('cmpxchg', 'atomicrmw'):
            while lx.peek()[1] in ('volatile', 'weak'): lx.next()
            if op == 'atomicrmw':
                lx.next()
            pt, pp = self.tv(lx)
            return T(None, (pp,))
        if op in ('unreachable', 'resume', 'landingpad', 'fence', 'va_arg'):
            return T(None, ())
        raise IRError('instr %r' % S)

    # ------------------------------------------------------------ debug info
    def loc(self, dbg):
        """(file, line, function) for a !dbg id"""
        if dbg is None: return ('?', 0, '?')
        r = self._loccache.get(dbg)
        if r is not None: return r
        s = self.meta.get(dbg, '')
        line = 0
        m = re.search(r'line: (\d+)', s)
        if m: line = int(m.group(1))
        file, fn = '?', '?'
        if 'DILocation' in s:
            m = re.search(r'scope: !(\d+)', s)
            sc = int(m.group(1)) if m else None
        else: sc = dbg
        guard = 0
        while sc is not None and guard < 20:
            guard += 1
            t = self.meta.get(sc, '')
            if file == '?':
                m = re.search(r'file: !(\d+)', t)
                if m:
                    ft = self.meta.get(int(m.group(1)), '')
                    mf = re.search(r'filename: "([^"]*)"', ft)
                    if mf: file = mf.group(1)
            if 'DISubprogram' in t:
                m = re.search(r'\bname: "([^"]*)"', t)
                if m: fn = m.group(1)
                if not line:
                    m = re.search(r'\bline: (\d+)', t)
                    if m: line = int(m.group(1))
                break
            m = re.search(r'scope: !(\d+)', t)
            sc = int(m.group(1)) if m else None
        r = (file, line, fn)
        self._loccache[dbg] = r
        return r


FMF = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'samesign', 'nneg'}


def unq(s):
    s = s[1:] if s[0] in '%@' else s
    if s and s[0] == '"': return s[1:-1]
    return s


def cbytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(c)); i += 1
    return bytes(out)


def fconst(v):
    if v.startswith('0x'):
        if v[2] in 'KLMHR':
            if v[2] == 'K':
                b = int(v[3:], 16)
                s = b >> 79; e = (b >> 64) & 0x7fff; m = b & ((1 << 64) - 1)
                if e == 0x7fff: return float('inf') if (m << 1) & ((1 << 64) - 1) == 0 else float('nan')
                from fractions import Fraction
                try: return float(Fraction(m) * Fraction(2) ** (e - 16383 - 63)) * (-1 if s else 1)
                except OverflowError: return float('-inf' if s else 'inf')
            raise IRError('fp const ' + v)
        return struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]
    return float(v)
