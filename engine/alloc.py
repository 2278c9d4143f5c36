"""Allocation obligations: what is asked of the allocator is a constant, at most
`most` bytes, or bounded by the length of something already in memory."""
from .dom import *

MOST = 64 << 20

def tsize(I, ty, depth=0):
    t = I.T[ty]
    k = t['k']
    s = t['s']
    for n, z in (('u8', 1), ('i8', 1), ('bool', 1), ('u16', 2), ('i16', 2), ('u32', 4), ('i32', 4), ('f32', 4), ('char', 4), ('u64', 8), ('i64', 8), ('usize', 8), ('isize', 8), ('f64', 8), ('u128', 16), ('i128', 16)):
        if s == n: return z
    if k in ('ref', 'ptr'): return 16
    if depth > 4: return 32
    if k == 'tuple': return sum(tsize(I, a, depth + 1) for a in t.get('elems') or ())
    if I.is_vec(t) or s == 'std::string::String': return 24
    if k in ('struct', 'enum') and t.get('variants'):
        return max([sum(tsize(I, f[1], depth + 1) for f in v[2]) for v in t['variants']] + [0]) + (8 if k == 'enum' else 0)
    return 32

def kinds(lin, seen=None):
    """kinds of the symbols a number is made of: 'len' (length of a sequence in memory) or something else"""
    out = set()
    seen = set() if seen is None else seen
    for s, _ in lin[2]:
        if s in seen: continue
        seen.add(s)
        k = SKEY[s]
        if s in PHIS:
            for x in PHIS[s]: out |= kinds(x, seen)
        elif k[0] == 'b':
            p = KINFO[k[1][1]][0]
            out.add('len' if p[0] == 'len' or own(k[1][1]) else 'phi' if p[0] != 'at' and phi(k[1][1]) else 'data')
        else:
            subs = [x for x in k[1:] if type(x) is tuple and x and x[0] == 'lin']
            for x in subs: out |= kinds(x, seen)
            if not subs: out.add('data')
    return out

def own(k, seen=None):
    """made only of numbers of the program or the configuration (statics, the arguments of the entry)"""
    p = KINFO[k][0]
    if p[0] in ('static', 'lazy', 'up', 'cfg', 'pktf'): return True
    subs = [x[1] for x in p if type(x) is tuple and len(x) == 2 and x[0] == 'k']
    return bool(subs) and all(own(x) for x in subs)

def phi(k):
    p = KINFO[k][0]
    return p[0] == 'phi' or any(phi(x[1]) for x in p if type(x) is tuple and len(x) == 2 and x[0] == 'k')

class Allocs:
    """mixin"""
    def on_alloc(self, I, st, ctx, n, elty, what, sp):
        self.nalloc = getattr(self, 'nalloc', 0) + 1
        if isconst(n): return
        z = max(1, tsize(I, elty))
        hi = st.f.bounds(n)[1]
        if hi * z <= MOST: return
        ks = kinds(n)
        if ks == {'len'}: return
        for o, v in st.m.items():
            if type(v) is tuple and v[0] == 'q' and not isconst(v[2]) and st.f.entails(p_le(n, mulc(v[2], 8))): return
        if contradictory(st.f): return
        c, s = I.subj_site(ctx, sp)
        key = (I.p.insts[c.inst]['path'], what)
        d = self.allocs = getattr(self, 'allocs', {})
        old = d.get(key)
        sure = 'data' in ks and not (TAINT and st.sw)
        if old is None or sure and not old['sure']:
            d[key] = dict(where=I.where(c, s), chain=I.chain_of(ctx), sure=sure, hi=hi)
