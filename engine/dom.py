"""Numeric domain: linear expressions over interned symbols, interval + linear facts."""
INF = 1 << 200

# ---- interned keys (origin of an unknown value) -------------------------
KEYS = {}
KINFO = []   # id -> (tuple, roots frozenset)

def K(*parts, root=False):
    """parts: atoms, ('k',id) references, lins."""
    i = KEYS.get(parts)
    if i is None:
        i = len(KINFO)
        KEYS[parts] = i
        if root:
            r = frozenset((i,))
        else:
            r = _roots(parts)
        KINFO.append((parts, r))
    return i

def _roots(p):
    out = set()
    st = [p]
    while st:
        x = st.pop()
        if type(x) is tuple:
            if len(x) == 2 and x[0] == 'k' and type(x[1]) is int:
                out |= KINFO[x[1]][1]
            elif len(x) == 3 and x[0] == 'lin':
                for s, _ in x[2]:
                    out |= SROOTS[s]
            else:
                st.extend(x)
    return frozenset(out)

def kr(i):
    return ('k', i)

PHIS = {}    # joined number -> the numbers it may have been

# roots / symbols whose value the analysis had to forget (unmodelled external call,
# unsupported operation): findings that hinge on them are reported as undecided
TAINT = set()
TSYM = set()
def taint_key(k):
    TAINT.update(KINFO[k][1])
def tainted(lin_or_pred):
    """does the expression depend on a forgotten value?"""
    st = [lin_or_pred]
    while st:
        x = st.pop()
        if type(x) is not tuple: continue
        if len(x) == 3 and x[0] == 'lin':
            for s, _ in x[2]:
                if s in TSYM or not TAINT.isdisjoint(SROOTS[s]): return True
        else: st.extend(x)
    return False

# record on every path whether a decision was taken on a value that is not exact: a value joined
# at a merge point, read from a sequence whose content was forgotten, or unmodelled
STICKY = []
_inex = {}
def _inexact_key(i):
    r = _inex.get(('k', i))
    if r is None:
        _inex['k', i] = False
        parts = KINFO[i][0]
        r = _inex['k', i] = (bool(parts) and parts[0] in ('phi', 'pn', 'qx', 'qs', 'qr', 'qw', 'seqeq', 'u', 'const')) or _inexact_parts(parts)
    return r
def _inexact_parts(parts):
    st = list(parts)
    while st:
        x = st.pop()
        if type(x) in (tuple, frozenset):
            if len(x) == 2 and type(x) is tuple and x[0] == 'k' and type(x[1]) is int:
                if _inexact_key(x[1]): return True
            elif type(x) is tuple and len(x) == 3 and x[0] == 'lin':
                for s, _ in x[2]:
                    if inexact_sym(s): return True
            else: st.extend(x)
    return False
def inexact_sym(s):
    if s in TSYM: return True
    r = _inex.get(s)
    if r is None:
        _inex[s] = False
        r = _inex[s] = _inexact_parts(SKEY[s])
    return r
def inexact(p):
    return tainted(p) or _inexact_parts(p)

# ---- symbols -----------------------------------------------------------
SYMS = {}
SKEY = []    # id -> key
SLO = []
SHI = []
SDEF = []    # id -> list of (terms, lo, hi) always true
SROOTS = []

def sym(key, lo, hi, defs=()):
    k = (key, lo, hi)
    i = SYMS.get(k)
    if i is None:
        i = len(SKEY)
        SYMS[k] = i
        SKEY.append(key)
        SLO.append(lo)
        SHI.append(hi)
        SDEF.append([])
        SROOTS.append(_roots(key))
        if callable(defs):
            defs = defs(i)
        for lin, lo_, hi_ in defs:
            add_def(i, lin, lo_, hi_)
    return i

def add_def(i, lin, lo, hi):
    t, s, g = norm(lin[2])
    lo = -INF if lo is None else lo - lin[1]
    hi = INF if hi is None else hi - lin[1]
    if s < 0:
        lo, hi = -hi, -lo
    if t:
        SDEF[i].append((t, lo if lo <= -INF else -((-lo) // g), hi if hi >= INF else hi // g))

# ---- linear expressions --------------------------------------------------
def C(n):
    return ('lin', n, ())

ZERO = C(0)
ONE = C(1)

def S(s):
    return ('lin', 0, ((s, 1),))

def lin_add(a, b, ka=1, kb=1):
    c = a[1] * ka + b[1] * kb
    ta, tb = a[2], b[2]
    if not tb or kb == 0:
        if ka == 1:
            return ('lin', c, ta)
        return ('lin', c, tuple((s, k * ka) for s, k in ta)) if ka else C(c)
    if not ta or ka == 0:
        if kb == 1:
            return ('lin', c, tb)
        return ('lin', c, tuple((s, k * kb) for s, k in tb))
    d = {}
    for s, k in ta:
        d[s] = k * ka
    for s, k in tb:
        d[s] = d.get(s, 0) + k * kb
    return ('lin', c, tuple(sorted((s, k) for s, k in d.items() if k)))

def sub(a, b):
    return lin_add(a, b, 1, -1)

def add(a, b):
    return lin_add(a, b)

def mulc(a, k):
    if k == 0:
        return ZERO
    return ('lin', a[1] * k, tuple((s, c * k) for s, c in a[2]))

def addc(a, k):
    return ('lin', a[1] + k, a[2])

def isconst(a):
    return not a[2]

from math import gcd
_norm = {}
def norm(terms):
    """-> (normalised terms, sign, gcd)"""
    r = _norm.get(terms)
    if r is None:
        if not terms:
            r = (terms, 1, 1)
        else:
            g = 0
            for _, k in terms:
                g = gcd(g, k)
            s = 1 if terms[0][1] > 0 else -1
            r = (tuple((x, k * s // g) for x, k in terms), s, g) if (g != 1 or s != 1) else (terms, 1, 1)
        _norm[terms] = r
    return r

class Infeasible(Exception):
    pass

# ---- facts ---------------------------------------------------------------
class Facts:
    __slots__ = ('f', 'ne', 'idx', 'dim')
    def __init__(self, f=None, ne=None, idx=None, dim=False):
        self.dim = dim      # some decision taken on this path is not exact (only kept if STICKY)
        self.f = f if f is not None else {}
        self.ne = ne if ne is not None else {}
        self.idx = idx if idx is not None else {}

    def copy(self):
        return Facts(dict(self.f), dict(self.ne), dict(self.idx), self.dim)

    def setf(self, t, lo, hi):
        if t not in self.f:
            for s, _ in t:
                self.idx[s] = self.idx.get(s, ()) + (t,)
        self.f[t] = (lo, hi)

    def srange(self, s):
        lo, hi = SLO[s], SHI[s]
        r = self.f.get(((s, 1),))
        if r:
            if r[0] > lo: lo = r[0]
            if r[1] < hi: hi = r[1]
        if lo < hi:
            key = SKEY[s]
            if key[0] == 'div' and len(key) == 3 and type(key[1]) is tuple and type(key[2]) is int and key[2] > 0 and len(key[1][2]) <= 3:
                a, b = self.interval(key[1][2])
                a += key[1][1]; b += key[1][1]
                if a >= 0:
                    if a // key[2] > lo: lo = a // key[2]
                    if b // key[2] < hi: hi = b // key[2]
        return lo, hi

    def interval(self, terms):
        lo = hi = 0
        for s, k in terms:
            a, b = self.srange(s)
            if k > 0:
                lo += a * k
                hi += b * k
            else:
                lo += b * k
                hi += a * k
        if lo < -INF: lo = -INF
        if hi > INF: hi = INF
        return lo, hi

    def tbounds(self, terms, depth=2, seen=()):
        lo, hi = self.interval(terms)
        if not terms or len(terms) > 12:
            return lo, hi
        t, s, g = norm(terms)
        r = self.f.get(t)
        if r:
            a, b = r
            if s < 0:
                a, b = -b, -a
            a, b = a * g, b * g
            if a > lo: lo = a
            if b < hi: hi = b
        if depth <= 0:
            return lo, hi
        # combine with one fact mentioning one of the symbols
        done = set()
        for sy, k in terms:
            cands = self.idx.get(sy, ())
            defs = SDEF[sy]
            for i in range(len(cands) + len(defs)):
                if i < len(cands):
                    ft = cands[i]
                    flo, fhi = self.f[ft]
                else:
                    ft, flo, fhi = defs[i - len(cands)]
                if len(ft) == 1 or (ft == t and i < len(cands)) or (ft, i < len(cands)) in done or ft in seen:
                    continue
                done.add((ft, i < len(cands)))
                for fs, fk in ft:
                    if fs == sy:
                        break
                # fk*lin = k*ft + rest
                m = abs(fk)
                kk = k if fk > 0 else -k
                # m*terms - kk*ft
                d = {}
                for a, b in terms:
                    d[a] = b * m
                for a, b in ft:
                    d[a] = d.get(a, 0) - kk * b
                rest = tuple(sorted((a, b) for a, b in d.items() if b))
                if len(rest) > len(terms) + 1 and (len(terms) > 1 or len(rest) > 12):
                    continue
                rlo, rhi = self.tbounds(rest, depth - 1, seen + (ft,)) if rest else (0, 0)
                if kk > 0:
                    nlo, nhi = kk * flo + rlo, kk * fhi + rhi
                else:
                    nlo, nhi = kk * fhi + rlo, kk * flo + rhi
                if nlo > -INF // 2:
                    nlo = -((-nlo) // m)
                    if nlo > lo: lo = nlo
                if nhi < INF // 2:
                    nhi = nhi // m
                    if nhi < hi: hi = nhi
        return lo, hi

    def bounds(self, lin, depth=2):
        c = lin[1]
        if not lin[2]:
            return c, c
        lo, hi = self.tbounds(lin[2], depth)
        return (lo + c if lo > -INF else lo), (hi + c if hi < INF else hi)

    def const(self, lin):
        if not lin[2]:
            return lin[1]
        lo, hi = self.bounds(lin)
        return lo if lo == hi else None

    # predicates: ('c',bool) ('le',lin) ('eq',lin) ('ne',lin) ('and',p,q) ('or',p,q)
    def entails(self, p):
        """True / False / None"""
        k = p[0]
        if k == 'c':
            return p[1]
        if k == 'le':
            lo, hi = self.bounds(p[1])
            if hi <= 0: return True
            if lo > 0: return False
            return None
        if k in ('eq', 'ne'):
            lo, hi = self.bounds(p[1])
            r = None
            if lo > 0 or hi < 0:
                r = False
            elif lo == hi == 0:
                r = True
            else:
                t, s, g = norm(p[1][2])
                v = -p[1][1] * s
                if v % g:
                    r = False
                elif v // g in self.ne.get(t, ()):
                    r = False
            if r is None:
                return None
            return r if k == 'eq' else not r
        if k == 'and':
            a, b = self.entails(p[1]), self.entails(p[2])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if k == 'or':
            a, b = self.entails(p[1]), self.entails(p[2])
            if a or b: return True
            if a is False and b is False: return False
            return None
        raise Exception(p)

    def assume(self, p):
        k = p[0]
        if k == 'c':
            if not p[1]: raise Infeasible
            return
        if k == 'and':
            self.assume(p[1]); self.assume(p[2])
            # second pass helps orderings
            self.assume(p[1]) if p[1][0] != 'and' else None
            return
        if k == 'or':
            a = self.entails(p[1]); b = self.entails(p[2])
            if a is False: return self.assume(p[2])
            if b is False: return self.assume(p[1])
            # common atoms: le/le over same terms
            if p[1][0] == p[2][0] == 'le' and p[1][1][2] == p[2][1][2]:
                c = min(p[1][1][1], p[2][1][1])
                return self.assume(('le', ('lin', c, p[1][1][2])))
            f1 = self.copy(); f2 = self.copy()
            ok1 = ok2 = True
            try: f1.assume(p[1])
            except Infeasible: ok1 = False
            try: f2.assume(p[2])
            except Infeasible: ok2 = False
            if not ok1 and not ok2: raise Infeasible
            if STICKY and not self.dim and inexact(p): self.dim = True
            if ok1 and not ok2:
                self.f, self.ne, self.idx = f1.f, f1.ne, f1.idx
            elif ok2 and not ok1:
                self.f, self.ne, self.idx = f2.f, f2.ne, f2.idx
            else:
                for t, (lo, hi) in f1.f.items():
                    r = f2.tbounds(t, 1)
                    lo, hi = min(lo, r[0]), max(hi, r[1])
                    if (lo > -INF or hi < INF) and self.f.get(t) != (lo, hi):
                        self.setf(t, lo, hi)
            return
        e = self.entails(p)
        if e is False: raise Infeasible
        if e is True: return
        if STICKY and not self.dim and inexact(p): self.dim = True
        lin = p[1]
        if k == 'le':
            self._add(lin, -INF, 0)
        elif k == 'eq':
            self._add(lin, 0, 0)
        elif k == 'ne':
            t, s, g = norm(lin[2])
            v = -lin[1] * s
            if v % g: return
            v //= g
            lo, hi = self.tbounds(t)
            ch = True
            ex = self.ne.get(t, frozenset()) | {v}
            nlo, nhi = lo, hi
            while nlo in ex: nlo += 1
            while nhi in ex: nhi -= 1
            if nlo > nhi: raise Infeasible
            if len(ex) <= 64:
                self.ne[t] = ex
                if t not in self.f:
                    pass
            if (nlo, nhi) != (lo, hi):
                self.setf(t, nlo, nhi)
        for sy, _ in lin[2]:
            kk = SKEY[sy]
            if kk[0] in ('min', 'max'):
                self._minmax(sy, kk)

    def _minmax(self, sy, kk):
        # min(x,y) < y  =>  min(x,y) = x   (and dually)
        m = S(sy)
        for x, y in ((kk[1], kk[2]), (kk[2], kk[1])):
            st = p_lt(m, y) if kk[0] == 'min' else p_lt(y, m)
            if self.entails(st) is True:
                d = sub(m, x)
                if self.bounds(d) != (0, 0):
                    self._add(d, 0, 0)
                return

    def _add(self, lin, lo, hi):
        t, s, g = norm(lin[2])
        c = lin[1]
        lo = lo - c if lo > -INF else lo
        hi = hi - c if hi < INF else hi
        if s < 0:
            lo, hi = -hi, -lo
        if lo > -INF: lo = -((-lo) // g)
        if hi < INF: hi = hi // g
        r = self.f.get(t)
        if r:
            if r[0] > lo: lo = r[0]
            if r[1] < hi: hi = r[1]
        ex = self.ne.get(t)
        if ex:
            while lo in ex: lo += 1
            while hi in ex: hi -= 1
        if lo > hi: raise Infeasible
        self.setf(t, lo, hi)
        for sy, _ in t:
            a, b = self.bounds(S(sy))
            if a > b: raise Infeasible
            if len(t) > 1:
                base = self.srange(sy)
                if (a, b) != base and (a > base[0] or b < base[1]):
                    self.setf(((sy, 1),), max(a, base[0]), min(b, base[1]))
            if SKEY[sy][0] == 'div':
                # bounds of a quotient bound the dividend
                for dt, dlo, dhi in SDEF[sy]:
                    if len(dt) != 2: continue
                    (x, kx), (y, ky) = dt
                    if y == sy: z, kz, ks = x, kx, ky
                    else: z, kz, ks = y, ky, kx
                    l, h = self.srange(sy)
                    q = sorted((ks * l, ks * h))
                    if kz != 1: continue
                    nlo, nhi = dlo - q[1], dhi - q[0]
                    base = self.srange(z)
                    if nlo > base[0] or nhi < base[1]:
                        if max(nlo, base[0]) > min(nhi, base[1]): raise Infeasible
                        self.setf(((z, 1),), max(nlo, base[0]), min(nhi, base[1]))

def neg(p):
    k = p[0]
    if k == 'c': return ('c', not p[1])
    if k == 'le': return ('le', ('lin', 1 - p[1][1], tuple((s, -c) for s, c in p[1][2])))
    if k == 'eq': return ('ne', p[1])
    if k == 'ne': return ('eq', p[1])
    if k == 'and': return ('or', neg(p[1]), neg(p[2]))
    if k == 'or': return ('and', neg(p[1]), neg(p[2]))

TRUE = ('c', True)
FALSE = ('c', False)

def p_le(a, b):
    l = sub(a, b)
    if not l[2]: return ('c', l[1] <= 0)
    return ('le', l)
def p_lt(a, b):
    return p_le(addc(a, 1), b)
def p_eq(a, b):
    l = sub(a, b)
    if not l[2]: return ('c', l[1] == 0)
    return ('eq', l)
def p_ne(a, b):
    return neg(p_eq(a, b))
def p_and(a, b):
    if a == TRUE: return b
    if b == TRUE: return a
    if a == FALSE or b == FALSE: return FALSE
    return a if a == b else ('and', a, b)
def p_or(a, b):
    return neg(p_and(neg(a), neg(b)))

# ---- derived symbols -----------------------------------------------------
def d_div(f, lin, k):
    """floor(lin / k), lin >= 0"""
    if k == 1: return lin
    if not lin[2]: return C(lin[1] // k)
    # pull out multiples
    mt = tuple((s, c) for s, c in lin[2] if c % k == 0)
    rt = tuple((s, c) for s, c in lin[2] if c % k)
    q, r0 = divmod(lin[1], k)
    rest = ('lin', r0, rt)
    main = ('lin', q, tuple((s, c // k) for s, c in mt))
    lo, hi = f.bounds(rest)
    if lo >= 0 and hi < k: return main
    if lo // k == hi // k: return addc(main, lo // k)
    if len(rt) == 1 and rt[0][1] == 1 and SKEY[rt[0][0]][0] == 'div':
        # floor((floor(x / a) + c) / k) = floor((x + c * a) / (a * k))
        _, x, a = SKEY[rt[0][0]]
        if a * k < 1 << 130 and a % 256 == 0 and k % 256 == 0: return add(main, d_div(f, addc(x, r0 * a), a * k))
    if lo < 0 or hi > (1 << 130):
        rest, main = lin, ZERO
        lo, hi = f.bounds(rest)
    glo, ghi = Facts().interval(rest[2])
    glo = (glo + rest[1]) // k; ghi = (ghi + rest[1]) // k
    glo = max(glo, 0)
    s = sym(('div', rest, k), glo, ghi, lambda i: [(lin_add(rest, S(i), 1, -k), 0, k - 1)])
    return add(main, S(s))

def d_rem(f, lin, k):
    return lin_add(lin, d_div(f, lin, k), 1, -k)

# symbols that are the value of a decimal number with (at most) that many digits
DIGITS = {}

def d_mul(f, a, b):
    if not a[2]: return mulc(b, a[1])
    if not b[2]: return mulc(a, b[1])
    c = f.const(a)
    if c is not None: return mulc(b, c)
    c = f.const(b)
    if c is not None: return mulc(a, c)
    x, y = (a, b) if a <= b else (b, a)
    F0 = Facts()
    al, ah = F0.bounds(x, 0); bl, bh = F0.bounds(y, 0)
    ps = [al * bl, al * bh, ah * bl, ah * bh]
    s = sym(('mul', x, y), max(min(ps), -INF), min(max(ps), INF))
    al, ah = f.bounds(x); bl, bh = f.bounds(y)
    ps = [al * bl, al * bh, ah * bl, ah * bh]
    lo, hi = min(ps), max(ps)
    for u, w in ((x, y), (y, x)):
        # an n-digit number times 10^m, n + m <= c
        if u[1] == 0 and w[1] == 0 and len(u[2]) == 1 and len(w[2]) == 1 and u[2][0][1] == w[2][0][1] == 1 and al >= 0:
            ku, kw = SKEY[u[2][0][0]], SKEY[w[2][0][0]]
            dg = DIGITS.get(u[2][0][0])
            if dg is not None and kw[0] == 'pow' and kw[1] == 10:
                e = f.bounds(add(dg, kw[2]))[1]
                if 0 <= e <= 40: hi = min(hi, 10 ** e - 1)
    if lo > SLO[s] or hi < SHI[s]:
        r = f.srange(s)
        f.setf(((s, 1),), max(lo, r[0]), min(hi, r[1]))
    return S(s)

def d_min(f, a, b):
    e = f.entails(p_le(a, b))
    if e: return a
    if e is False: return b
    x, y = (a, b) if a <= b else (b, a)
    al, ah = Facts().bounds(x, 0); bl, bh = Facts().bounds(y, 0)
    s = sym(('min', x, y), min(al, bl), min(ah, bh), lambda i: [(sub(S(i), x), None, 0), (sub(S(i), y), None, 0)])
    lo = min(f.bounds(x)[0], f.bounds(y)[0])
    r = f.srange(s)
    if lo > r[0]: f.setf(((s, 1),), lo, r[1])
    return S(s)

def d_max(f, a, b):
    e = f.entails(p_le(a, b))
    if e: return b
    if e is False: return a
    x, y = (a, b) if a <= b else (b, a)
    al, ah = Facts().bounds(x, 0); bl, bh = Facts().bounds(y, 0)
    s = sym(('max', x, y), max(al, bl), max(ah, bh), lambda i: [(sub(S(i), x), 0, None), (sub(S(i), y), 0, None)])
    hi = max(f.bounds(x)[1], f.bounds(y)[1])
    r = f.srange(s)
    if hi < r[1]: f.setf(((s, 1),), r[0], hi)
    return S(s)

def contradictory(f, rounds=24):
    """interval propagation through all facts and symbol definitions; True if they exclude each other"""
    cons, todo, seen = [], [], set()
    for t, (lo, hi) in f.f.items(): cons.append([t, lo, hi])
    for t in f.ne: cons.append([t, -INF, INF])
    for t, _, _ in cons: todo += [s for s, _ in t]
    while todo:
        s = todo.pop()
        if s in seen: continue
        seen.add(s)
        for t, lo, hi in SDEF[s]:
            cons.append([t, lo, hi])
            todo += [x for x, _ in t]
    lo_ = {s: SLO[s] for s in seen}; hi_ = {s: SHI[s] for s in seen}
    for _ in range(rounds):
        change = False
        for c in cons:
            t, lo, hi = c
            l = h = 0
            for s, k in t:
                a, b = (lo_[s], hi_[s]) if k > 0 else (hi_[s], lo_[s])
                l += k * a; h += k * b
            ne = f.ne.get(t, ())
            if l > lo: lo = l
            if h < hi: hi = h
            while lo in ne and lo <= hi: lo += 1
            while hi in ne and lo <= hi: hi -= 1
            if lo > hi: return True
            if (lo, hi) != (c[1], c[2]): c[1], c[2] = lo, hi; change = True
            for s, k in t:
                # k*s in [lo - (h - own max), hi - (l - own min)]
                a, b = (lo_[s], hi_[s])
                own_lo, own_hi = (k * a, k * b) if k > 0 else (k * b, k * a)
                u, v = lo - (h - own_hi), hi - (l - own_lo)
                if k > 0: na, nb = -((-u) // k), v // k
                else: na, nb = -(v // -k), (-u) // -k
                if na > a: lo_[s] = na; change = True
                if nb < b: hi_[s] = nb; change = True
                if lo_[s] > hi_[s]: return True
                if na > a or nb < b:
                    l = h = 0
                    for s2, k2 in t:
                        x, y = (lo_[s2], hi_[s2]) if k2 > 0 else (hi_[s2], lo_[s2])
                        l += k2 * x; h += k2 * y
        if not change: return False
    return False
