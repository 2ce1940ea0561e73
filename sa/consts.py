"""Integer constants and conversion widths of the library functions reachable from a witness: sizes at which a size-dependent
branch, mask or narrowing could first behave differently, so concrete-size instances are chosen on either side of them."""
import re

CALL = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
NUM = re.compile(r'\bi(?:8|16|32|64) (-?\d+)|, (-?\d+)(?=,|$| )')
SKIP = ('getelementptr', 'alloca', 'call void @llvm.lifetime', 'phi ', 'br ', '!')


def constants(mod, roots, lo=2, hi=1 << 21, pat='11ColorSystem'):
    seen = set(); st = list(roots); out = set(); widths = set(); fns = []
    while st:
        f = st.pop()
        if f in seen or f not in mod.funcs: continue
        seen.add(f)
        own = pat in f
        if own: fns.append(f)
        for L in mod.funcs[f].body:
            S = L.strip()
            for c in CALL.findall(S):
                c = c.strip('"')
                if c in mod.funcs and c not in seen: st.append(c)
            if not own or not S: continue
            S = re.sub(r', (align \d+|!.*)', '', S)
            if any(k in S for k in SKIP): continue
            m = re.search(r'= trunc i\d+ .* to i(\d+)', S)
            if m:
                if int(m.group(1)) in (8, 16): widths.add(int(m.group(1)))
                continue
            if not re.search(r'\b(icmp|and|or|urem|srem|udiv|sdiv|sub|add|mul|shl|lshr|ashr|store|call|invoke|select|switch)\b', S): continue
            for a, b in NUM.findall(S):
                v = abs(int(a or b))
                if lo <= v <= hi: out.add(v)
            m = re.search(r'\b(lshr|shl|ashr)\b.* (\d+)$', S)
            if m and 2 <= int(m.group(2)) <= 20: out.add(1 << int(m.group(2)))
    return out, widths, fns


def near(vals, hi, cap):
    """K-1, K, K+1 for every constant, largest last, at most cap constants (the largest are kept: small sizes are covered anyway)"""
    ks = sorted(v for v in vals if v <= hi)[-cap:]
    return sorted({k + d for k in ks for d in (-1, 0, 1) if k + d > 0})
