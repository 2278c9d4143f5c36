"""Running synchronous functions of the subject on symbolic bytes and inspecting what they return."""
from engine.base import Base, run_fn, NotConverged
from engine.dom import *
from engine.absint import Interp, State
from engine import models as M

class Src:
    """a named byte string of symbolic length with symbolic content"""
    def __init__(self, I, st, name, lo=0, hi=None, prefix=()):
        self.I = I
        self.key = K('pkt', name, root=True)
        self.obj = ('A', 'pkt', name)
        if hi is not None and hi == lo: self.n = C(lo)
        else: self.n = S(sym(('b', kr(K('pktlen', name, root=True))), lo, hi if hi is not None else (1 << 40)))
        st.m[self.obj] = ('q', I.u8(), self.n, (('src', self.key, ZERO, self.n),))
    def ref(self): return ('l', self.obj, (), ZERO, self.n)
    def at(self, i):
        """linear expression of byte i (int or linear)"""
        off = C(i) if isinstance(i, int) else i
        return self.I.el_from_src(self.I.u8(), self.key, off)[1]
    def le(self, i, n):
        r = ZERO
        for j in range(n): r = add(r, mulc(self.at(addc(i, j) if not isinstance(i, int) else i + j), 256 ** j))
        return r
    def seg(self, start, ln): return ('q', self.I.u8(), ln, (('src', self.key, start, ln),))

def parsebuf(I, ty, src):
    """value for a parameter of type ty (a slice, ParseBuf, or references to them) holding src"""
    t = I.T[ty]
    if t['k'] in ('ref', 'ptr'):
        o = I.T[t['of']]
        if o['k'] in ('slice', 'str'): return src.ref()
        inner = parsebuf(I, t['of'], src)
        return ('BOX', inner)
    if t['k'] == 'struct':
        fs = t['variants'][0][2]
        return ('a', ty, 0, tuple(parsebuf(I, f[1], src) if I.T[f[1]]['k'] in ('ref', 'struct') else I.mk(f[1], K('pbf', i)) for i, f in enumerate(fs)))
    raise KeyError(t['s'])

def place(I, st, v, name):
    if v[0] == 'BOX':
        o = ('A', 'box', name)
        st.m[o] = v[1]
        return ('r', o, ())
    return v

class Mon(Base):
    """no-op monitor; utf8: assume text is valid UTF-8; opaque calls by predicate"""
    utf8 = False
    ok_conv = ()
    def __init__(self, **kw):
        super().__init__()
        for k, v in kw.items(): setattr(self, k, v)
    def on_call(self, I, st, ctx, bb, t, inst, args):
        if self.utf8 and inst['name'] in ('from_utf8',) and inst['krate'] in ('core', 'alloc', 'std'):
            r = M.EXACT.get(inst['path'])
            out = r(I, st, ctx, bb, t, inst, args) if r else None
            if out is not None:
                return [(s, v) for s, v in out if not (v[0] == 'a' and I.T[v[1]]['variants'][v[2]][0] == 'Err')]
        return None
    def timer(self, *a): raise Exception('timer')

def variant(I, v):
    return I.T[v[1]]['variants'][v[2]][0] if v[0] == 'a' and I.T[v[1]]['k'] == 'enum' else None

def field(I, v, name):
    if v[0] == 's': v = I.expand(v)
    if v[0] != 'a': return None
    fs = I.T[v[1]]['variants'][v[2]][2]
    for i, f in enumerate(fs):
        if f[0] == name: return v[3][i]
    return None

def unwrap1(I, v):
    """single-field newtype chains (bitflags) down to an integer"""
    while True:
        if v is None: return None
        if v[0] == 's':
            w = I.expand(v)
            if w == v: return v
            v = w
        if v[0] == 'a' and I.T[v[1]]['k'] == 'struct' and len(v[3]) == 1: v = v[3][0]
        else: return v

def eq_int(I, st, v, lin):
    """True / False (provably different) / None"""
    v = unwrap1(I, v)
    if v is None or v[0] != 'i': return None
    e = st.f.entails(p_eq(v[1], lin))
    return False if e is None and may_differ(st, v[1], lin) else e

def free(st, s):
    """is s a free input (a byte of the packet, a length) that no relation on this path constrains?"""
    k = SKEY[s]
    if k[0] != 'b': return False
    parts = KINFO[k[1][1]][0]
    if parts[0] == 'at':
        parts = KINFO[parts[1][1]][0]
        if parts[0] == '*': return False
    if parts[0] not in ('pktf', 'pkt', 'pktlen', 'arg', 'cd', 'f', 't', 'in'): return False
    if any(len(t) > 1 for t in st.f.idx.get(s, ())): return False
    lo, hi = st.f.srange(s)
    return hi - lo > len(st.f.ne.get(((s, 1),), ()))

def may_differ(st, a, b):
    """a and b are linear in free inputs and not the same expression: some input tells them apart"""
    d = sub(a, b)
    return not st.f.dim and bool(d[2]) and all(free(st, s) for s, _ in d[2])

def seq(I, st, v):
    try: return I.seq_of(st, v)
    except Exception: return None

def _old_eq_seq(I, st, v, q):
    """is the byte content of v exactly q?"""
    x = seq(I, st, v)
    if x is None: return None
    if st.f.entails(p_eq(x[2], q[2])) is not True:
        return False if st.f.entails(p_eq(x[2], q[2])) is False else None
    return M.segs_eq(I, st, x, q)

def _content(key):
    """is this the content of a free input string?"""
    return KINFO[key][0][0] in ('pktf', 'pkt', 'arg', 'in')

def _pieces(q):
    return [s for s in q[3] if s[-1] != ZERO]

def _items(I, st, q):
    """byte values (linear expressions) and symbolic stretches"""
    out = []
    for seg in I.compact(tuple(q[3])):
        ln = seg[-1]
        c = st.f.const(ln)
        if c == 0: continue
        if c is not None and c <= 4096 and (seg[0] != 'src' or c <= 64):
            one = ('q', q[1], ln, (seg,))
            for i in range(c):
                v = I.qget(st, one, C(i))
                out.append(('b', v[1]) if v[0] == 'i' else ('?',))
        elif seg[0] == 'src': out.append(('s', seg[1], seg[2], ln))
        else: out.append(('x', seg, ln))
    return out

def eq_content(I, st, x, q):
    """byte sequences x and q: True / False (some input tells them apart) / None"""
    e = st.f.entails(p_eq(x[2], q[2]))
    if e is None and may_differ(st, x[2], q[2]): return False
    if e is not True: return e
    if tuple(x[3]) == tuple(q[3]) or st.f.entails(p_eq(q[2], ZERO)): return True
    a, b = _items(I, st, x), _items(I, st, q)
    res = True
    i = j = 0
    while i < len(a) and j < len(b):
        s, r = a[i], b[j]
        i += 1; j += 1
        if s == r: continue
        if s[0] == 'b' and r[0] == 'b':
            e = st.f.entails(p_eq(s[1], r[1]))
            if e is False or e is None and may_differ(st, s[1], r[1]): return False
            if e is None: res = None
        elif s[0] == 's' and r[0] == 's':
            same = st.f.entails(p_eq(s[3], r[3]))
            if same is not True:
                # the stretches have different lengths: content is free, so some input tells them apart
                if (same is False or may_differ(st, s[3], r[3])) and _content(s[1]) and _content(r[1]) and not st.f.dim and len(a) == len(b) == 1: return False
                return None
            if s[1] != r[1]:
                if _content(s[1]) and _content(r[1]) and not st.f.dim and st.f.bounds(s[3])[1] > 0: return False
                return None
            e = st.f.entails(p_eq(s[2], r[2]))
            if e is True: continue
            if _content(s[1]) and not st.f.dim and st.f.bounds(s[3])[1] > 0 and (e is False or may_differ(st, s[2], r[2])): return False
            res = None
        else:
            # a byte against the first byte of a stretch
            if s[0] in 'bs' and r[0] in 'bs' and not st.f.dim:
                y, z = (s, r) if s[0] == 's' else (r, s)
                if _content(y[1]) and st.f.bounds(y[3])[0] > 0:
                    at = I.el_from_src(I.u8(), y[1], y[2])[1]
                    if may_differ(st, at, z[1]): return False
            return None
    return res if i == len(a) and j == len(b) else None

class Pkt:
    """packet built from a grammar: literal bytes and symbolic fields"""
    def __init__(self, I, st, name='p'):
        self.I, self.st, self.name = I, st, name
        self.segs, self.n, self.f = [], ZERO, {}
        self.obj = ('A', 'pkt', name)
    def _k(self, what): return K('pktf', self.name, what, root=True)
    fix = None      # constant pattern for the bytes instead of free inputs
    def sym(self, what, lo, hi):
        if self.fix is not None and hi <= 255:
            h = (sum(map(ord, str(what))) * 37 + 11) % 256
            v = (hi, 0x80 | h, h)[self.fix]
            return C(min(hi, max(lo, v)))
        return S(sym(('b', kr(self._k(what))), lo, hi))
    def _seg(self, s):
        self.segs.append(s); self.n = add(self.n, s[-1])
        return self
    def lit(self, *bs):
        b = b''.join(bytes([x]) if isinstance(x, int) else x for x in bs)
        return self._seg(('k', b, C(len(b)))) if b else self
    def int(self, n, name, lo=0, hi=255):
        """n little endian bytes; lo..hi bounds the last byte"""
        v = ZERO
        for i in range(n):
            x = self.sym((name, i), lo if i == n - 1 else 0, hi if i == n - 1 else 255)
            self._seg(('el', ('i', x), ONE))
            v = add(v, mulc(x, 256 ** i))
        self.f[name] = ('int', v)
        return self
    def byte(self, lin):
        return self._seg(('el', ('i', lin), ONE))
    def lenenc(self, name, cls=0):
        """cls 0: one byte, 2/3/8: prefixed"""
        if cls == 0: return self.int(1, name, 0, 0xFA)
        self.lit({2: 0xFC, 3: 0xFD, 8: 0xFE}[cls])
        return self.int(cls, name)
    def raw(self, name, ln, field=True):
        s = ('src', self._k(('raw', name)), ZERO, ln)
        if field: self.f[name] = ('seq', ('q', self.I.u8(), ln, (s,)))
        return self._seg(s)
    def lenstr(self, name, cls=0, lo=0):
        if cls == 0:
            ln = self.sym(('len', name), lo, 0xFA)
            self.byte(ln)
        else:
            self.lit({2: 0xFC, 3: 0xFD, 8: 0xFE}[cls])
            ln = ZERO
            for i in range(cls):
                x = self.sym(('len', name, i), lo if i == 0 else 0, 255 if i < 5 else 0)
                self.byte(x)
                ln = add(ln, mulc(x, 256 ** i))
        return self.raw(name, ln)
    def rest(self, name, lo=0):
        return self.raw(name, self.sym(('len', name), lo, 1 << 40))
    def put(self):
        self.st.m[self.obj] = ('q', self.I.u8(), self.n, self.I.compact(tuple(self.segs)))
        return self
    def ref(self): return ('l', self.obj, (), ZERO, self.n)

def decoder(prog, iid, setup, mon=None, maxb=120000, unroll=16):
    """run decoder iid; setup(I, st, body) -> args.  Returns (I, [(state, value)])"""
    mon = mon or Mon()
    def prep(I, st, args):
        b = I.p.body(iid)
        return [place(I, st, v, i) for i, v in enumerate(setup(I, st, b))]
    STICKY or STICKY.append(1)
    I = run_fn(prog, iid, mon, prep=prep, maxb=maxb, unroll=unroll)
    return I, mon

def eq_seq(I, st, v, q):
    x = seq(I, st, v)
    return None if x is None else eq_content(I, st, x, q)

# ---------------------------------------------------------------- writers
class Out:
    """a Vec<u8> that already holds arbitrary bytes; what a function appends to it is inspected afterwards"""
    def __init__(self, I, st, name='out', empty=False):
        self.key = K('in', name, root=True)
        self.obj = ('A', 'outvec', name)
        self.n = ZERO if empty else S(sym(('b', kr(K('in', name, 'len', root=True))), 0, 1 << 30))
        self.seg = ('src', self.key, ZERO, self.n)
        st.m[self.obj] = ('q', I.u8(), self.n, () if empty else (self.seg,))
        self.empty = empty
    def ref(self, I, st):
        o = ('A', 'outvecref', self.obj)
        st.m[o] = ('v', self.obj)
        return ('r', o, ())
    def appended(self, I, st):
        q = st.m[self.obj]
        if self.empty: return q
        if not q[3] or q[3][0] != self.seg: return None
        return ('q', q[1], sub(q[2], self.n), q[3][1:])

def case(prog, iid, setup, judge, label='', unroll=96, maxb=120000, what=''):
    """setup(I, st, body, box) -> args;  judge(I, st, ret, box) -> [(key, verdict, message)]"""
    from . import decode
    nm = decode.name(prog.insts[iid])
    box, und, viol, good, n = {}, [], [], 0, 0
    try: I, m = decoder(prog, iid, lambda I, st, b: setup(I, st, b, box), Mon(utf8=True), unroll=unroll, maxb=maxb)
    except NotConverged as e: return dict(undecided=['%s: %s' % (nm, e)], oblig=1, disch=0)
    for st, v in m.returns:
        n += 1
        for key, ok, msg in judge(I, st, v, box):
            if ok is True: good += 1
            elif ok is None or st.f.dim: und.append('%s (%s): %s undecided' % (nm, label, key))
            else: viol.append(dict(key='%s:%s' % (what, key), what='%s (%s): %s' % (what, label, msg), where=nm))
    if not n:
        und.append('%s (%s) never returns' % (nm, label))
        for k, x in list(m.panics.items())[:1]:
            if not x['dim']: viol.append(dict(key='%s:panic' % what, what='%s (%s): panics for every such input' % (what, label), where=nm))
    viol = list({v['key']: v for v in reversed(viol)}.values())
    k = max(1, good) + len(viol)
    return dict(violations=viol, undecided=und, oblig=k, disch=k - len(viol), funcs=[nm], counts=dict(cases=1),
                samples=[dict(entry=nm, case=label, returns=n, compared=good)])

def eq_seqs(I, st, x, q):
    return None if x is None else eq_content(I, st, x, q)
