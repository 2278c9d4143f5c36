"""Abstract interpreter over dumped MIR: full inlining, trace partitioning by shape,
joins/widening at join points.  See DESIGN.md."""
import heapq, sys
from .dom import *
from . import dom
from .ir import Prog

sys.setrecursionlimit(20000)
MAXD = 64

_slots = {}
def slotid(x):
    i = _slots.get(x)
    if i is None:
        i = _slots[x] = len(_slots)
    return i

_ucount = [0]
def ukey(taint=True):
    _ucount[0] += 1
    k = K('u', _ucount[0], root=True)
    if taint: TAINT.add(k)
    return k

class State:
    __slots__ = ('m', 'f', 'aut', 'born', 'sw')
    def __init__(self):
        self.m = {}
        self.f = Facts()
        self.aut = ()
        self.born = frozenset()
        self.sw = False
    def copy(self):
        s = State.__new__(State)
        s.m = dict(self.m)
        s.f = self.f.copy()
        s.aut = self.aut
        s.born = self.born
        s.sw = self.sw
        return s
    # automaton as immutable sorted tuple of (name, value)
    def a(self, k, d=None):
        for x, v in self.aut:
            if x == k: return v
        return d
    def seta(self, **kw):
        d = dict(self.aut)
        for k, v in kw.items():
            if v is None: d.pop(k, None)
            else: d[k] = v
        self.aut = tuple(sorted(d.items()))

class Ctx:
    __slots__ = ('id', 'parent', 'bb', 'inst', 'body', 'prio', 'depth', 'dst', 'to', 'outer', 'chain', 'rec', 'name', 'post', 'wrap')

class NotConverged(Exception):
    pass

# ---------------------------------------------------------------- values
UNIT_CACHE = {}

def vint(n): return ('i', C(n))
def vbool(b): return ('b', ('c', bool(b)))

FROM = {}   # joined contents: what they may have been

class Interp:
    def __init__(self, prog, models=None, monitor=None, maxd=MAXD):
        self.p = prog
        self.T = prog.types
        self.models = models
        self.mon = monitor
        self.maxd = maxd
        self.ctxs = {}
        self.ctxl = []
        self.consts = {}
        self.pending = {}
        self.heap = []
        self.stored = {}
        self.epoch = {}
        self.visits = {}
        self.unknown = {}
        self.unknown_at = {}
        self.imprecise = {}
        self.stats = dict(blocks=0, joins=0, widen=0, calls=0, forced=0, ctxs=0)
        self.funcs = set()
        self.oblig = set()
        self.reports = {}
        self.dynhint = {}
        self.hint_fn = None
        self.unit_ty = next(i for i, t in enumerate(self.T) if t['k'] == 'tuple' and not t['elems'])
        self.bool_ty = next(i for i, t in enumerate(self.T) if t['k'] == 'bool')
        self.UNIT = ('a', self.unit_ty, 0, ())
        self._drops = {}
        self.max_blocks = 3000000
        self.unroll = 16
        self.suspended = 0

    # ------------------------------------------------------------ types
    def trange(self, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'uint': return 0, (1 << t['bits']) - 1
        if k == 'int': return -(1 << (t['bits'] - 1)), (1 << (t['bits'] - 1)) - 1
        if k == 'char': return 0, 0x10FFFF
        if k == 'bool': return 0, 1
        return None

    def find_ty(self, s):
        for i, t in enumerate(self.T):
            if t['s'] == s: return i
        raise KeyError(s)

    def is_vec(self, t): return t.get('path') == 'std::vec::Vec'
    TRANSP = ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::sync::Arc', 'std::rc::Rc')

    def mk(self, ty, key):
        """unknown value of type ty, identified by key"""
        t = self.T[ty]
        k = t['k']
        if k in ('uint', 'int', 'char'):
            lo, hi = self.trange(ty)
            return ('i', S(sym(('b', kr(key)), lo, hi)))
        if k == 'bool':
            return ('b', ('ne', S(sym(('b', kr(key)), 0, 1))))
        if k == 'float':
            return ('f', key)
        if k == 'tuple':
            return ('a', ty, 0, tuple(self.mk(e, K('t', kr(key), i)) for i, e in enumerate(t['elems'])))
        if k == 'array':
            return ('q', t['of'], C(t['n']), (('src', key, ZERO, C(t['n'])),) if t['n'] else ())
        if k == 'fndef':
            return ('a', ty, 0, ())
        if k == 'closure' and not t['upvars']:
            return ('a', ty, 0, ())
        if k == 'struct' and len(t['variants']) == 1 and not t['variants'][0][2]:
            return ('a', ty, 0, ())
        return ('s', ty, key)

    def mk_enum(self, ty, key, variant):
        fs = self.T[ty]['variants'][variant][2]
        return ('a', ty, variant, tuple(self.mk(f[1], K('f', kr(key), variant, i)) for i, f in enumerate(fs)))

    def expand(self, v):
        """one-level expansion of an opaque struct"""
        t = self.T[v[1]]
        if t['k'] in ('struct', 'union') and not self.is_vec(t):
            return ('a', v[1], 0, tuple(self.mk(f[1], K('f', kr(v[2]), 0, i)) for i, f in enumerate(t['variants'][0][2])))
        if t['k'] in ('closure',):
            return ('a', v[1], 0, tuple(self.mk(f, K('f', kr(v[2]), 0, i)) for i, f in enumerate(t['upvars'])))
        return v

    def vec_obj(self, st, v):
        """heap object of a Vec value"""
        if v[0] == 'v': return v[1]
        if v[0] == 's':
            obj = ('O', v[2])
            if obj not in st.m:
                t = self.T[v[1]]
                ln = S(sym(('b', kr(K('len', kr(v[2])))), 0, (1 << 63) - 1))
                st.m[obj] = ('q', t['args'][0], ln, (('src', K('el', kr(v[2])), ZERO, ln),))
            return obj
        if v[0] == 'a' and len(v[3]) == 1:      # String{vec}
            return self.vec_obj(st, v[3][0])
        return None

    # ------------------------------------------------------------ memory
    def getobj(self, st, obj):
        v = st.m.get(obj)
        if v is None:
            v = self.consts.get(obj)
            if v is None and obj[0] == 'L':
                ctx = self.ctxl[obj[1]]
                v = self.mk(ctx.body.locals[obj[2]], K('uninit', obj[1], obj[2], root=True))
            elif v is None:
                v = ('top',)
        return v

    def pointee(self, st, v, ty=None):
        """target of dereferencing value v -> (obj, path, slice)"""
        k = v[0]
        if k == 'r': return v[1], v[2], None
        if k == 'l': return v[1], v[2], (v[3], v[4])
        if k == 'v':
            q = self.getobj(st, v[1])
            return v[1], (), (ZERO, q[2])
        if k == 'a' and len(v[3]) >= 1:    # Pin etc used directly
            return self.pointee(st, v[3][0])
        if k == 's':
            t = self.T[v[1]]
            key = v[2]
            if t.get('path') in self.TRANSP:
                to = t['args'][0]
            elif t['k'] in ('ref', 'ptr'):
                to = t['of']
            elif t['k'] == 'struct':
                return self.pointee(st, self.expand(v)[3][0])
            else:
                return ('O', key), (), None
            obj = ('O', key)
            tt = self.T[to]
            if tt['k'] in ('str', 'slice'):
                el = tt['of'] if tt['k'] == 'slice' else self.u8()
                if obj not in st.m:
                    ln = S(sym(('b', kr(K('len', kr(key)))), 0, (1 << 63) - 1))
                    st.m[obj] = ('q', el, ln, (('src', K('el', kr(key)), ZERO, ln),))
                return obj, (), (ZERO, st.m[obj][2])
            if obj not in st.m:
                if tt['k'] == 'dyn':
                    c = self.dynhint.get(tt['path'], to)
                    if c != to:
                        st.m[obj] = self.mk(c, K('*', kr(key)))
                    else:
                        st.m[obj] = ('s', to, K('*', kr(key)))
                else:
                    st.m[obj] = self.mk(to, K('*', kr(key)))
            return obj, (), None
        self.note_imprecise('deref of ' + k)
        return ('T',), (), None

    def u8(self):
        if not hasattr(self, '_u8'):
            self._u8 = self.find_ty('u8')
        return self._u8

    def usize(self):
        if not hasattr(self, '_usize'):
            self._usize = self.find_ty('usize')
        return self._usize

    def note_imprecise(self, what):
        self.imprecise[what] = self.imprecise.get(what, 0) + 1

    def resolve(self, st, ctx, place):
        obj, path, sl = ('L', ctx.id, place[0]), (), None
        if not place[1]:
            return obj, path, sl
        for pr in place[1]:
            if pr == '*':
                v = self.loadp(st, obj, path, sl)
                obj, path, sl = self.pointee(st, v)
            else:
                k = pr[0]
                if k == 'f':
                    if sl is not None:
                        sl = None
                    path = path + (pr[1],)
                elif k == 'd':
                    path = path + (('d', pr[1]),)
                elif k == 'i':
                    iv = self.getobj(st, ('L', ctx.id, pr[1]))
                    i = iv[1] if iv[0] == 'i' else S(sym(('b', kr(ukey())), 0, 1 << 64))
                    if sl is not None:
                        i = add(sl[0], i)
                    path = path + (('x', i),)
                    sl = None
                elif k == 'ci':
                    if sl is None:
                        q = self.loadp(st, obj, path, None)
                        base, ln = ZERO, (q[2] if q[0] == 'q' else C(pr[2]))
                    else:
                        base, ln = sl
                    i = addc(base, pr[1]) if not pr[3] else add(base, addc(ln, -pr[1]))
                    path = path + (('x', i),)
                    sl = None
                elif k == 'ss':
                    if sl is None:
                        q = self.loadp(st, obj, path, None)
                        base, ln = ZERO, (q[2] if q[0] == 'q' else ZERO)
                    else:
                        base, ln = sl
                    end = addc(ln, -pr[2]) if pr[3] else C(pr[2])
                    sl = (addc(base, pr[1]), addc(end, -pr[1]))
                else:
                    self.note_imprecise('proj ' + str(k))
        return obj, path, sl

    def loadp(self, st, obj, path, sl):
        v = self.getobj(st, obj)
        for s in path:
            v = self.proj(st, v, s)
        if sl is not None:
            if v[0] == 'v': v = self.getobj(st, v[1])
            if v[0] == 'q':
                return self.qsub(st, v, sl[0], sl[1])
        return v

    def proj(self, st, v, s):
        k = v[0]
        if type(s) is int:
            if k == 'a':
                if s < len(v[3]): return v[3][s]
                if self.T[v[1]]['k'] == 'union': return v[3][0]
                return ('top',)
            if k == 's':
                t = self.T[v[1]]
                if t['k'] in ('struct', 'union'):
                    if t.get('path') in self.TRANSP: return v
                    fs = t['variants'][0][2]
                    return self.mk(fs[s][1], K('f', kr(v[2]), 0, s))
                if t['k'] in ('closure', 'coroutine'):
                    return self.mk(t['upvars'][s], K('f', kr(v[2]), 0, s))
                return ('top',)
            if k == 'sv':
                f = self.T[v[1]]['variants'][v[3]][2][s][1]
                return self.mk(f, K('f', kr(v[2]), v[3], s))
            if k == 'co':
                return v[3][s] if s < len(v[3]) else ('top',)
            if k == 'cv':
                for kk, val in v[4]:
                    if kk == (v[5], s): return val
                return ('top',)
            if k in ('r', 'l', 'v', 'n'):
                return v
            return ('top',)
        if s[0] == 'd':
            if k == 'a':
                if v[2] == s[1]: return v
                return ('a', v[1], s[1], tuple(self.mk(f[1], K('bad', kr(ukey()))) for f in self.T[v[1]]['variants'][s[1]][2]))
            if k == 's': return ('sv', v[1], v[2], s[1])
            if k == 'e':
                for vi, fs in v[3]:
                    if vi == s[1]: return ('a', v[1], vi, fs)
                return ('sv', v[1], ukey(), s[1])
            if k == 'co': return ('cv',) + v[1:] + (s[1],)
            return ('top',)
        if s[0] == 'x':
            if k == 'v': v = self.getobj(st, v[1]); k = v[0]
            if k == 'q': return self.qget(st, v, s[1])
            if k == 's' and self.T[v[1]]['k'] == 'array':
                return self.qget(st, self.mk(v[1], v[2]), s[1])
            return ('top',)
        raise Exception(s)

    def store(self, st, loc, val):
        obj, path, sl = loc
        if sl is not None:
            old = self.loadp(st, obj, path, None)
            if old[0] == 'q':
                if val[0] == 'q':
                    nq = self.qreplace(st, old, sl[0], sl[1], val)
                else:
                    nq = ('q', old[1], old[2], (('src', ukey(), ZERO, old[2]),))
                self.store(st, (obj, path, None), nq)
            return
        if obj == ('T',):
            self.note_imprecise('store through unknown')
            return
        if not path:
            if obj[0] == 'W':
                st.m[obj] = self.weak(st, st.m.get(obj), val)
            else:
                st.m[obj] = val
            return
        cur = self.getobj(st, obj)
        nv = self.setp(st, cur, path, val, obj)
        if obj[0] == 'W':
            nv = self.weak(st, cur, nv)
        if nv is not None:
            st.m[obj] = nv

    def setp(self, st, v, path, val, obj=None):
        if not path: return val
        s = path[0]
        k = v[0]
        if type(s) is int:
            if k == 's':
                v = self.expand(v); k = v[0]
            if k == 'sv':
                t = self.T[v[1]]
                v = ('a', v[1], v[3], tuple(self.mk(f[1], K('f', kr(v[2]), v[3], i)) for i, f in enumerate(t['variants'][v[3]][2])))
                k = 'a'
            if k == 'a':
                fs = list(v[3])
                i = s
                if i >= len(fs):
                    if self.T[v[1]]['k'] == 'union': i = 0
                    else: return v
                fs[i] = self.setp(st, fs[i], path[1:], val)
                return ('a', v[1], v[2], tuple(fs))
            if k == 'co':
                fs = list(v[3])
                fs[s] = self.setp(st, fs[s], path[1:], val)
                return ('co', v[1], v[2], tuple(fs), v[4])
            if k in ('r', 'l', 'v'):
                return self.setp(st, v, path[1:], val) if len(path) > 1 else val
            self.note_imprecise('setp field of ' + k)
            return v
        if s[0] == 'd':
            if k == 'co':
                key = (s[1], path[1])
                d = dict(v[4])
                old = d.get(key, ('top',))
                d[key] = self.setp(st, old, path[2:], val)
                return ('co', v[1], v[2], v[3], tuple(sorted(d.items(), key=lambda x: x[0])))
            if k == 'a' and v[2] == s[1]:
                return self.setp(st, v, path[1:], val)
            if k in ('a', 'e', 's', 'top'):
                if k == 'top': return v
                t = self.T[v[1]]
                if t['k'] == 'coroutine':
                    self.note_imprecise('opaque coroutine ' + t['s'][:60])
                    return v
                if k == 'e':
                    nfs = []
                    for vi, fs in v[3]:
                        if vi == s[1]:
                            fs = self.setp(st, ('a', v[1], vi, fs), path[1:], val)[3]
                        nfs.append((vi, fs))
                    return ('e', v[1], v[2], tuple(nfs))
                key = v[2] if k == 's' else ukey()
                nv = ('a', v[1], s[1], tuple(self.mk(f[1], K('f', kr(key), s[1], i)) for i, f in enumerate(t['variants'][s[1]][2])))
                return self.setp(st, nv, path[1:], val)
            return v
        if s[0] == 'x':
            if k == 'v':
                q = self.getobj(st, v[1])
                self.store(st, (v[1], path, None), val)
                return v
            if k == 's' and self.T[v[1]]['k'] == 'array':
                v = self.mk(v[1], v[2]); k = v[0]
            if k == 'q':
                old = self.qget(st, v, s[1]) if len(path) > 1 else None
                nv = self.setp(st, old, path[1:], val) if len(path) > 1 else val
                return self.qset(st, v, s[1], nv)
            return v
        raise Exception(s)

    def weak(self, st, old, new):
        if old is None or old == new: return new
        if old[0] == 'q' and new[0] == 'q':
            ln = S(sym(('b', kr(ukey())), 0, 1 << 63))
            return ('q', old[1], ln, (('src', ukey(), ZERO, ln),))
        if old[0] in ('a', 's', 'e') and isinstance(old[1], int):
            return ('s', old[1], ukey())
        if old[0] == 'i':
            return ('i', S(sym(('b', kr(ukey())), -(1 << 127), 1 << 128)))
        return ('top',)

    # ------------------------------------------------------------ sequences
    def seglen(self, s): return s[-1]

    def el_from_src(self, elty, key, off):
        return self.mk(elty, K('at', kr(key), off))

    def segget(self, st, q, s, off):
        k = s[0]
        if k == 'el': return s[1]
        if k == 'src': return self.el_from_src(q[1], s[1], add(s[2], off))
        if k == 'fill': return s[1]
        if k == 'k':
            if isconst(off): return vint(s[1][off[1]])
            b = s[1]
            return ('i', S(sym(('kb', b, off), min(b), max(b))))
        if k in ('le', 'be'):
            if isconst(off):
                i = off[1] if k == 'le' else s[2] - 1 - off[1]
                l = lin_add(d_div(st.f, s[1], 256 ** i), d_div(st.f, s[1], 256 ** (i + 1)), 1, -256)
                return ('i', l)
        return self.mk(q[1], K('qx', (s,), off))

    def locate(self, st, segs, off):
        """-> (index, offset inside) or None"""
        f = st.f
        for i, s in enumerate(segs):
            ln = s[-1]
            if off == ZERO:
                e = True if isconst(ln) and ln[1] > 0 else f.entails(p_lt(off, ln))
                if e: return i, off
                if e is False: continue
                return (i, off) if i == len(segs) - 1 else None
            e = f.entails(p_lt(off, ln))
            if e: return i, off
            if e is None:
                return (i, off) if i == len(segs) - 1 else None
            off = sub(off, ln)
        return None

    def qget(self, st, q, idx):
        c = st.f.const(idx)
        if c is not None: idx = C(c)
        r = self.locate(st, q[3], idx)
        if r is None:
            if len(q[3]) and all(s[0] == 'fill' and s[1] == q[3][0][1] for s in q[3]):
                return q[3][0][1]
            return self.mk(q[1], K('qx', q[3], idx))
        return self.segget(st, q, q[3][r[0]], r[1])

    def split(self, st, q, off):
        """split segs at offset -> (left, right) or None"""
        segs = q[3]
        c = st.f.const(off)
        if c is not None: off = C(c)
        f = st.f
        left = []
        for i, s in enumerate(segs):
            if off == ZERO: return tuple(left), segs[i:]
            ln = s[-1]
            if off == ln or f.entails(p_eq(off, ln)):
                return tuple(left) + (s,), segs[i + 1:]
            if f.entails(p_le(ln, off)):
                left.append(s)
                off = sub(off, ln)
                continue
            if s[0] == 'src' and (i == len(segs) - 1 or f.entails(p_le(off, ln))):
                return (tuple(left) + (('src', s[1], s[2], off),),
                        (('src', s[1], add(s[2], off), sub(ln, off)),) + segs[i + 1:])
            if s[0] == 'fill' and (i == len(segs) - 1 or f.entails(p_le(off, ln))):
                return tuple(left) + (('fill', s[1], off),), (('fill', s[1], sub(ln, off)),) + segs[i + 1:]
            if s[0] == 'k' and isconst(off) and off[1] < len(s[1]):
                a, b = s[1][:off[1]], s[1][off[1]:]
                return tuple(left) + (('k', a, C(len(a))),), (('k', b, C(len(b))),) + segs[i + 1:]
            if s[0] in ('le', 'be') and isconst(off) and off[1] < s[2]:
                els = tuple(('el', self.segget(st, q, s, C(j)), ONE) for j in range(s[2]))
                return tuple(left) + els[:off[1]], els[off[1]:] + segs[i + 1:]
            return None
        if off == ZERO or f.entails(p_eq(off, ZERO)): return tuple(left), ()
        return None

    def qsub(self, st, q, start, ln):
        if start == ZERO and ln == q[2]: return q
        r = self.split(st, q, start)
        if r:
            q2 = ('q', q[1], sub(q[2], start), r[1])
            r2 = self.split(st, q2, ln)
            if r2: return ('q', q[1], ln, r2[0])
        return ('q', q[1], ln, (('src', K('qs', q[3], start), ZERO, ln),))

    def qreplace(self, st, q, start, ln, new):
        r = self.split(st, q, start)
        if r:
            r2 = self.split(st, ('q', q[1], sub(q[2], start), r[1]), ln)
            if r2: return ('q', q[1], q[2], self.compact(r[0] + new[3] + r2[1]))
        return ('q', q[1], q[2], (('src', K('qr', q[3], start, ln, new[3]), ZERO, q[2]),))

    def compact(self, segs):
        if len(segs) > 200:
            ln = ZERO
            for s in segs: ln = add(ln, s[-1])
            return (('src', ukey(), ZERO, ln),)
        out = []
        for s in segs:
            if s[-1] == ZERO: continue
            if out:
                p = out[-1]
                if p[0] == 'k' and s[0] == 'k':
                    out[-1] = ('k', p[1] + s[1], C(len(p[1]) + len(s[1]))); continue
                if p[0] == 'src' and s[0] == 'src' and p[1] == s[1] and add(p[2], p[3]) == s[2]:
                    out[-1] = ('src', p[1], p[2], add(p[3], s[3])); continue
                if p[0] == 'fill' and s[0] == 'fill' and p[1] == s[1]:
                    out[-1] = ('fill', p[1], add(p[2], s[2])); continue
            out.append(s)
        return tuple(out)

    def qset(self, st, q, idx, val):
        r = self.split(st, q, idx)
        if r:
            r2 = self.split(st, ('q', q[1], sub(q[2], idx), r[1]), ONE)
            if r2 is None and len(r[1]) == 1 and r[1][0][0] in ('src', 'fill'):
                s = r[1][0]
                ln = sub(s[-1], ONE)
                r2 = (None, (('src', s[1], add(s[2], ONE), ln),) if s[0] == 'src' else (('fill', s[1], ln),))
            if r2:
                if q[1] == self.u8() and val[0] == 'i' and isconst(val[1]) and 0 <= val[1][1] < 256:
                    mid = (('k', bytes([val[1][1]]), ONE),)
                else:
                    mid = (('el', val, ONE),)
                return ('q', q[1], q[2], self.compact(r[0] + mid + r2[1]))
        return ('q', q[1], q[2], (('src', K('qw', q[3], idx, val), ZERO, q[2]),))

    def seq_of(self, st, v):
        """the q content denoted by a slice/array/Vec/str reference or value"""
        if v[0] == 'q': return v
        if v[0] == 'v': return self.getobj(st, v[1])
        if v[0] in ('l', 'r'):
            obj, path, sl = self.pointee(st, v)
            x = self.loadp(st, obj, path, sl)
            if x[0] in ('q', 'v'): return self.seq_of(st, x)
            if x[0] in ('l', 'r'): return self.seq_of(st, x)
            if x[0] == 'a' and self.T[x[1]]['s'] == 'std::string::String': return self.seq_of(st, x[3][0])
            if x[0] == 's':
                o = self.vec_obj(st, x) if self.is_vec(self.T[x[1]]) else None
                if o: return self.getobj(st, o)
                if self.T[x[1]]['k'] == 'array': return self.mk(x[1], x[2])
                if self.T[x[1]]['s'] == 'std::string::String': return self.seq_of(st, self.expand(x)[3][0])
            return None
        if v[0] == 's':
            t = self.T[v[1]]
            if self.is_vec(t):
                return self.getobj(st, self.vec_obj(st, v))
            if t['k'] in ('ref', 'ptr') or t.get('path') in self.TRANSP:
                obj, path, sl = self.pointee(st, v)
                return self.seq_of(st, ('l', obj, path, sl[0], sl[1]) if sl else ('r', obj, path))
            if t['k'] == 'array': return self.mk(v[1], v[2])
            if t['s'] == 'std::string::String': return self.seq_of(st, self.expand(v)[3][0])
        if v[0] == 'a' and v[3] and self.T[v[1]]['s'] == 'std::string::String':
            return self.seq_of(st, v[3][0])
        return None

    def as_slice(self, st, v):
        """normalise a slice-like reference to ('l', obj, path, start, len)"""
        if v[0] == 'l': return v
        if v[0] == 'v':
            return ('l', v[1], (), ZERO, self.getobj(st, v[1])[2])
        if v[0] == 'r':
            x = self.loadp(st, v[1], v[2], None)
            if x[0] == 'q': return ('l', v[1], v[2], ZERO, x[2])
            if x[0] == 'v': return ('l', x[1], (), ZERO, self.getobj(st, x[1])[2])
            if x[0] == 'a' and self.T[x[1]]['s'] == 'std::string::String': return self.as_slice(st, x[3][0])
            if x[0] in ('l', 'r'): return self.as_slice(st, x)
            if x[0] == 's':
                t = self.T[x[1]]
                if self.is_vec(t):
                    o = self.vec_obj(st, x)
                    return ('l', o, (), ZERO, st.m[o][2])
                if t['k'] == 'array':
                    self.store(st, (v[1], v[2], None), self.mk(x[1], x[2]))
                    return ('l', v[1], v[2], ZERO, C(t['n']))
                if t['s'] == 'std::string::String':
                    return self.as_slice(st, self.expand(x)[3][0])
                return self.as_slice(st, x)
            return None
        if v[0] == 's':
            t = self.T[v[1]]
            if self.is_vec(t):
                o = self.vec_obj(st, v)
                return ('l', o, (), ZERO, st.m[o][2])
            if t['k'] in ('ref', 'ptr') or t.get('path') in self.TRANSP:
                obj, path, sl = self.pointee(st, v)
                if sl: return ('l', obj, path, sl[0], sl[1])
                return self.as_slice(st, ('r', obj, path))
            if t['s'] == 'std::string::String':
                return self.as_slice(st, self.expand(v)[3][0])
        return None

    def slice_len(self, st, v):
        s = self.as_slice(st, v)
        return s[4] if s else S(sym(('b', kr(ukey())), 0, (1 << 63) - 1))

    # ------------------------------------------------------------ constants
    def const(self, c):
        ty = c['t']
        t = self.T[ty]
        if 'i' in c:
            if t['k'] == 'bool': return ('b', ('c', bool(c['i'])))
            return ('i', C(c['i']))
        if 'fbits' in c: return ('f', K('fc', c['fbits']))
        if 'agg' in c:
            if t['k'] == 'array':
                segs = self.compact(tuple(self._elseg(self.const(x)) for x in c['agg']))
                return ('q', t['of'], C(len(c['agg'])), segs)
            if t['k'] == 'slice':
                segs = self.compact(tuple(self._elseg(self.const(x)) for x in c['agg']))
                return ('q', t['of'], C(len(c['agg'])), segs)
            fs = tuple(self.const(x) for x in c['agg'])
            return self.mkagg(ty, c.get('v', 0), fs)
        if 'bytes' in c:
            b = bytes(c['bytes'])
            if t['k'] in ('array', 'slice', 'str'):
                return ('q', self.u8(), C(len(b)), (('k', b, C(len(b))),) if b else ())
        if 'str' in c:
            b = c['str'].encode()
            return ('q', self.u8(), C(len(b)), (('k', b, C(len(b))),) if b else ())
        if 'ref' in c:
            v = self.const(c['ref'])
            obj = ('K', self._cid(v))
            self.consts[obj] = v
            if v[0] == 'q' and self.T[c['ref']['t']]['k'] in ('str', 'slice'):
                return ('l', obj, (), ZERO, v[2])
            return ('r', obj, ())
        if 'zst' in c:
            if t['k'] == 'array': return ('q', t['of'], ZERO, ())
            return self.mk(ty, K('zst', ty))
        if 'fn' in c:
            if t['k'] == 'fndef': return ('a', ty, 0, ())
            return ('fn', c['fn'])
        if 'static' in c:
            obj = ('G', c['static'])
            if obj not in self.consts:
                to = t.get('of')
                self.consts[obj] = self.mk(to, K('static', c['static'])) if to is not None else ('top',)
            return ('r', obj, ())
        if t['k'] in ('fndef', 'tuple', 'closure'):
            return self.mk(ty, K('zst', ty))
        if self.is_vec(t):
            obj = ('K', self._cid(('emptyvec', t['args'][0])))
            self.consts[obj] = ('q', t['args'][0], ZERO, ())
            return ('v', obj)
        nm = c.get('name')
        return self.mk(ty, K('const', nm if nm else ('unk', ty)))

    def _elseg(self, v):
        if v[0] == 'i' and isconst(v[1]) and 0 <= v[1][1] < 256 and False:
            return ('k', bytes([v[1][1]]), ONE)
        return ('el', v, ONE)

    def _cid(self, v):
        d = self.__dict__.setdefault('_cids', {})
        i = d.get(v)
        if i is None: i = d[v] = len(d)
        return i

    def mkagg(self, ty, variant, fs):
        t = self.T[ty]
        if t.get('path') in ('std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull') and fs and fs[0][0] in ('r', 'l', 'v', 's', 'top'):
            return fs[0]
        if t['k'] == 'array':
            return ('q', t['of'], C(len(fs)), self.compact(tuple(('el', f, ONE) for f in fs)))
        if t['k'] == 'coroutine':
            return ('co', ty, 0, tuple(fs), ())
        return ('a', ty, variant, tuple(fs))

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, st, ctx, o):
        if o[0] == 'k': return self.const(o[1])
        p = o[1]
        if not p[1]:
            return self.getobj(st, ('L', ctx.id, p[0]))
        obj, path, sl = self.resolve(st, ctx, p)
        v = self.loadp(st, obj, path, sl)
        if o[0] == 'm' and ctx.body.cot is not None and len(path) >= 2 and type(path[-1]) is int and type(path[-2]) is tuple and path[-2][0] == 'd' and sl is None:
            par = self.loadp(st, obj, path[:-2], None)
            if par[0] == 'co':
                self.store(st, (obj, path[:-2], None), par[:4] + (tuple(kv for kv in par[4] if kv[0] != (path[-2][1], path[-1])),))
        if v[0] in ('top', 'sv', 'cv'):
            v = self.mk(p[2], K('topv', kr(ukey())))
        return v

    def toint(self, st, v, ty=None):
        if v[0] == 'i': return v[1]
        if v[0] == 'b': return self.b2i(v[1])
        lo, hi = (self.trange(ty) if ty is not None else None) or (-(1 << 127), 1 << 128)
        return S(sym(('b', kr(ukey())), lo, hi))

    def b2i(self, p):
        if p[0] == 'c': return C(1 if p[1] else 0)
        if p[0] == 'ne' and p[1][1] == 0 and len(p[1][2]) == 1 and p[1][2][0][1] == 1:
            s = p[1][2][0][0]
            if SLO[s] == 0 and SHI[s] == 1: return p[1]
        return S(sym(('b2i', p), 0, 1))

    def topred(self, st, v):
        if v[0] == 'b': return v[1]
        if v[0] == 'i':
            l = v[1]
            if isconst(l): return ('c', l[1] != 0)
            if l[1] == 0 and len(l[2]) == 1 and l[2][0][1] == 1 and SKEY[l[2][0][0]][0] == 'b2i':
                return SKEY[l[2][0][0]][1]
            return ('ne', l)
        return ('ne', S(sym(('b', kr(ukey())), 0, 1)))

    def wrapto(self, st, lin, ty):
        lo, hi = self.trange(ty)
        a, b = st.f.bounds(lin)
        if a >= lo and b <= hi: return lin
        bits = (hi - lo + 1).bit_length() - 1
        if lo == 0 and a >= 0:
            return d_rem(st.f, lin, 1 << bits)
        if lo == 0 and b < 0 and a >= -(1 << bits):
            return addc(lin, 1 << bits)
        return S(sym(('wrap', lo, hi, lin), lo, hi))

    def cast(self, st, ctx, kind, v, to, frm, sp):
        tt, ft = self.T[to], self.T[frm]
        tk, fk = tt['k'], ft['k']
        if kind in ('int', 'transmute') and self.trange(to) and tk != 'bool' and (self.trange(frm) or v[0] in ('i', 'b')):
            if fk == 'bool': return ('i', self.b2i(self.topred(st, v)))
            return ('i', self.wrapto(st, self.toint(st, v, frm), to))
        if tk == 'float':
            if v[0] == 'f': return v
            return ('f', K('cf', v))
        if fk == 'float' and self.trange(to):
            lo, hi = self.trange(to)
            return ('i', S(sym(('b', kr(K('fi', v))), lo, hi)))
        if kind == 'transmute' and tk == 'bool':
            return ('b', self.topred(st, v))
        if tk in ('ptr', 'ref') or tt.get('path') in self.TRANSP or kind in ('unsize', 'unsize_dyn', 'ptr'):
            to_of = tt.get('of')
            if to_of is None and tt.get('args'): to_of = tt['args'][0]
            tok = self.T[to_of]['k'] if to_of is not None else None
            if to == frm: return v
            if kind == 'unsize' and tok == 'dyn': kind = 'unsize_dyn'
            if v[0] == 'a' and kind in ('unsize', 'unsize_dyn') and v[3]:     # Pin<Box<..>> coercions
                return ('a', to, v[2], (self.cast(st, ctx, kind, v[3][0], self.T[to]['variants'][0][2][0][1], self.T[v[1]]['variants'][0][2][0][1], sp),) + v[3][1:])
            if kind == 'unsize_dyn': 
                if v[0] == 's' and ft['k'] in ('ref', 'ptr') or v[0] == 's' and ft.get('path') in self.TRANSP:
                    obj, path, sl = self.pointee(st, v)
                    return ('r', obj, path)
                return v
            if kind == 'unsize':
                s = self.as_slice(st, v)
                return s if s else ('top',)
            # raw pointer casts
            if v[0] == 's' and tok is not None and ft['k'] in ('ptr', 'ref') and self.T[ft['of']]['k'] in ('slice', 'str'):
                v = self.as_slice(st, v)
            if v[0] == 'l':
                if tok in ('slice', 'str', 'dyn'): return v
                fo = ft.get('of')
                if tok == 'array':
                    n = self.T[to_of]['n']
                    if st.f.entails(p_le(C(n), v[4])) is not True:
                        self.report(st, ctx, 'oob', 'read of %d bytes through a slice that may be shorter' % n, sp)
                        try: st.f.assume(p_le(C(n), v[4]))
                        except Infeasible: pass
                    return ('l', v[1], v[2], v[3], C(n))
                if fo is not None and self.T[fo]['k'] in ('slice', 'str', 'array'):
                    return ('r', v[1], v[2] + (('x', v[3]),))
                return v
            if v[0] in ('r', 'v', 'top', 'fn', 's', 'a', 'n'):
                return v
            if v[0] == 'i': return ('top',)
            return v
        if kind == 'ptrcoerce':
            if v[0] == 'a' and ft['k'] == 'fndef': return ('fn', ft['inst']) if ft.get('inst') is not None else ('top',)
            return v
        if kind == 'transmute' and ft.get('k') == 'array' or tk == 'array':
            return v if v[0] == 'q' else self.mk(to, K('tr', kr(ukey())))
        if kind == 'transmute':
            # newtype-like transmutes
            if v[0] == 'a' and len(v[3]) == 1 and v[3][0][0] != 'top': 
                return v[3][0]
            if tk in ('struct',) and len(tt['variants'][0][2]) == 1:
                return ('a', to, 0, (v,))
            if tk == 'union': return ('a', to, 0, (v,))
            if v[0] in ('r', 'l', 'v'): return v
        return self.mk(to, K('cast', kr(ukey())))

    def binop(self, st, ctx, op, a, b, ty):
        f = st.f
        t = self.T[ty]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if t['k'] == 'float' or a[0] == 'f' or b[0] == 'f':
                if op in ('Gt', 'Ge'): a, b, op = b, a, {'Gt': 'Lt', 'Ge': 'Le'}[op]
                return ('b', ('ne', S(sym(('b', kr(K('fcmp', op, a, b))), 0, 1))))
            if a[0] == 'b' or b[0] == 'b':
                p, q = self.topred(st, a), self.topred(st, b)
                if op in ('Eq', 'Ne'):
                    if q[0] == 'c': r = p if q[1] else neg(p)
                    elif p[0] == 'c': r = q if p[1] else neg(q)
                    elif p == q: r = TRUE
                    else: r = p_or(p_and(p, q), p_and(neg(p), neg(q)))
                    return ('b', r if op == 'Eq' else neg(r))
                a, b = ('i', self.b2i(p)), ('i', self.b2i(q))
            if a[0] != 'i' or b[0] != 'i':
                if a == b and a[0] in ('r', 'l', 'v'):
                    return ('b', ('c', op in ('Eq', 'Le', 'Ge')))
                if a[0] == 'r' and b[0] == 'r' and a[1] == b[1] and a[2] and b[2] and a[2][:-1] == b[2][:-1] \
                        and type(a[2][-1]) is tuple and type(b[2][-1]) is tuple and a[2][-1][0] == b[2][-1][0] == 'x':
                    return self.binop(st, ctx, op, ('i', a[2][-1][1]), ('i', b[2][-1][1]), self.usize())
                return ('b', ('ne', S(sym(('b', kr(K('pcmp', op, a, b))), 0, 1))))
            x, y = a[1], b[1]
            p = {'Eq': p_eq, 'Ne': p_ne, 'Lt': p_lt, 'Le': p_le}.get(op)
            if p: return ('b', p(x, y))
            if op == 'Gt': return ('b', p_lt(y, x))
            return ('b', p_le(y, x))
        if op == 'Cmp':
            x, y = self.toint(st, a), self.toint(st, b)
            return ('ord', x, y)
        if op == 'Offset':
            n = self.toint(st, b)
            return self.ptr_add(st, a, n)
        if t['k'] == 'float':
            return ('f', K('fop', op, a, b))
        if t['k'] == 'bool':
            p, q = self.topred(st, a), self.topred(st, b)
            if op == 'BitAnd': return ('b', p_and(p, q))
            if op == 'BitOr': return ('b', p_or(p, q))
            if op == 'BitXor': return ('b', neg(self.binop(st, ctx, 'Eq', a, b, ty)[1]))
        rng = self.trange(ty)
        if rng is None:
            return ('top',)
        x, y = self.toint(st, a, ty), self.toint(st, b)
        lo, hi = rng
        if op.endswith('WithOverflow'):
            base = op[:-12]
            if base == 'Add': r = add(x, y)
            elif base == 'Sub': r = sub(x, y)
            else: r = d_mul(f, x, y)
            rl, rh = f.bounds(r)
            ps = FALSE
            if rh > hi: ps = p_or(ps, p_lt(C(hi), r))
            if rl < lo: ps = p_or(ps, p_lt(r, C(lo)))
            return ('a', -1, 0, (('i', r), ('b', ps)))
        u = op[:-9] if op.endswith('Unchecked') else op
        if u == 'Add': return ('i', self.wrapto(st, add(x, y), ty))
        if u == 'Sub': return ('i', self.wrapto(st, sub(x, y), ty))
        if u == 'Mul': return ('i', self.wrapto(st, d_mul(f, x, y), ty))
        yc = f.const(y)
        if u == 'Div':
            if yc and yc > 0 and f.bounds(x)[0] >= 0: return ('i', d_div(f, x, yc))
            xl, xh = f.bounds(x); yl, yh = f.bounds(y)
            s = sym(('divv', x, y), lo, hi)
            if xl >= 0 and yl > 0: f.setf(((s, 1),), max(xl // yh, f.srange(s)[0]), min(xh // yl, f.srange(s)[1]))
            return ('i', S(s))
        if u == 'Rem':
            if yc and yc > 0 and f.bounds(x)[0] >= 0: return ('i', d_rem(f, x, yc))
            xl, xh = f.bounds(x); yl, yh = f.bounds(y)
            s = sym(('remv', x, y), lo, hi)
            if xl >= 0 and yl > 0:
                r = f.srange(s)
                f.setf(((s, 1),), max(0, r[0]), min(xh, yh - 1, r[1]))
                if len(y[2]) >= 1:
                    try: f.assume(p_lt(S(s), y))
                    except Infeasible: pass
            return ('i', S(s))
        if u == 'Shl':
            if yc is not None and 0 <= yc < 256: return ('i', self.wrapto(st, mulc(x, 1 << yc), ty))
            xl, xh = f.bounds(x); yl, yh = f.bounds(y)
            s = sym(('shl', x, y), lo, hi)
            if xl >= 0 and 0 <= yl <= yh < 256 and (xh << yh) <= hi:
                f.setf(((s, 1),), xl << yl, xh << yh)
            return ('i', S(s))
        if u == 'Shr':
            if yc is not None and 0 <= yc < 256 and f.bounds(x)[0] >= 0: return ('i', d_div(f, x, 1 << yc))
            xl, xh = f.bounds(x)
            s = sym(('shr', x, y), lo, hi)
            if xl >= 0: f.setf(((s, 1),), 0, min(xh, hi))
            return ('i', S(s))
        if u in ('BitAnd', 'BitOr', 'BitXor'):
            return ('i', self.bitop(st, u, x, y, lo, hi))
        self.note_imprecise('binop ' + op)
        return ('i', S(sym(('b', kr(ukey())), lo, hi)))

    def bitop(self, st, u, x, y, lo, hi):
        f = st.f
        xc, yc = f.const(x), f.const(y)
        if xc is not None and yc is not None:
            return C({'BitAnd': xc & yc, 'BitOr': xc | yc, 'BitXor': xc ^ yc}[u])
        if xc is not None: x, y, xc, yc = y, x, yc, xc
        if yc is not None and yc >= 0 and f.bounds(x)[0] >= 0:
            full = hi
            if u == 'BitAnd': return self.maskand(st, x, yc)
            if u == 'BitOr': return add(x, sub(C(yc), self.maskand(st, x, yc)))
            if u == 'BitXor':
                return add(lin_add(x, self.maskand(st, x, yc), 1, -2), C(yc))
        xl, xh = f.bounds(x); yl, yh = f.bounds(y)
        if xl >= 0 and yl >= 0:
            if u in ('BitOr', 'BitXor'):
                for p, q, qh in ((x, y, yh), (y, x, xh)):
                    g = p[1]
                    m = 0
                    for _, c in p[2]: g = gcd(g, c)
                    g = gcd(g, 1 << 200) if g else 1 << 200
                    if qh < g: return add(p, q)
            if x == y: return x if u != 'BitXor' else ZERO
            if x > y: x, y = y, x
            top = (1 << max(xh, yh).bit_length()) - 1
            if u == 'BitAnd':
                s = sym(('and', x, y), 0, hi, lambda i: [(sub(S(i), x), None, 0), (sub(S(i), y), None, 0)])
            elif u == 'BitOr':
                s = sym(('or', x, y), 0, hi, lambda i: [(sub(S(i), x), 0, None), (sub(S(i), y), 0, None)])
            else:
                s = sym(('xor', x, y), 0, hi)
            if top < hi:
                r = f.srange(s)
                f.setf(((s, 1),), r[0], min(r[1], top))
            return S(s)
        return S(sym(('bit', u, x, y), lo, hi))

    def maskand(self, st, x, m):
        f = st.f
        out = ZERO
        i = 0
        hi = f.bounds(x)[1]
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1: j += 1
                part = d_div(f, x, 1 << i)
                if hi >= (1 << j): part = d_rem(f, part, 1 << (j - i))
                out = add(out, mulc(part, 1 << i))
                i = j
            else:
                i += 1
                if (1 << i) > hi: break
        return out

    def ptr_add(self, st, p, n):
        if p[0] == 'r' and p[2] and type(p[2][-1]) is tuple and p[2][-1][0] == 'x':
            return ('r', p[1], p[2][:-1] + (('x', add(p[2][-1][1], n)),))
        if n == ZERO: return p
        return ('top',)

    def discr(self, st, v):
        k = v[0]
        if k == 'a':
            t = self.T[v[1]]
            if t['k'] == 'enum': return C(t['variants'][v[2]][1])
            return ZERO
        if k == 'e': return v[2]
        if k == 'co': return C(v[2])
        if k == 'ord':
            return S(sym(('cmp', v[1], v[2]), -1, 1))
        if k == 's':
            t = self.T[v[1]]
            if t['k'] == 'enum' and t['variants']:
                ds = sorted(x[1] for x in t['variants'])
                return S(sym(('b', kr(K('discr', kr(v[2])))), ds[0], ds[-1]))
            return ZERO
        if k == 'i': return v[1]
        return S(sym(('b', kr(ukey())), -(1 << 63), 1 << 64))

    def rvalue(self, st, ctx, r, sp, dty):
        k = r[0]
        if k == 'use': return self.operand(st, ctx, r[1])
        if k == 'ref':
            p = r[1]
            obj, path, sl = self.resolve(st, ctx, p)
            if sl is not None: return ('l', obj, path, sl[0], sl[1])
            if p[1] and p[1][-1] == '*' and obj[0] != 'T':
                pass
            tk = self.T[p[2]]['k']
            if tk in ('slice', 'str'):
                s = self.as_slice(st, ('r', obj, path))
                if s: return s
            return ('r', obj, path)
        if k == 'bin':
            a = self.operand(st, ctx, r[2]); b = self.operand(st, ctx, r[3])
            v = self.binop(st, ctx, r[1], a, b, r[4])
            if v[0] == 'a' and v[1] == -1: v = ('a', dty, 0, v[3])
            return v
        if k == 'cast':
            return self.cast(st, ctx, r[1], self.operand(st, ctx, r[2]), r[3], r[4], sp)
        if k == 'discr':
            obj, path, sl = self.resolve(st, ctx, r[1])
            return ('i', self.discr(st, self.loadp(st, obj, path, sl)))
        if k == 'agg':
            fs = [self.operand(st, ctx, o) for o in r[3]]
            kind = r[1]
            if kind in ('adt', 'tuple', 'closure', 'coroutine', 'array'):
                return self.mkagg(r[4], r[2], fs)
            if kind == 'rawptr':
                d, m = fs
                if m[0] == 'i':
                    if d[0] == 'r' and d[2] and type(d[2][-1]) is tuple and d[2][-1][0] == 'x':
                        return ('l', d[1], d[2][:-1], d[2][-1][1], m[1])
                    if d[0] == 'l': return ('l', d[1], d[2], d[3], m[1])
                    if d[0] in ('v',): return ('l', d[1], (), ZERO, m[1])
                    return ('top',)
                return d
        if k == 'un':
            v = self.operand(st, ctx, r[2])
            op = r[1]
            t = self.T[r[3]]
            if op == 'Not':
                if t['k'] == 'bool': return ('b', neg(self.topred(st, v)))
                lo, hi = self.trange(r[3])
                x = self.toint(st, v, r[3])
                if lo == 0: return ('i', lin_add(C(hi), x, 1, -1))
                return ('i', lin_add(C(-1), x, 1, -1))
            if op == 'Neg':
                if t['k'] == 'float': return ('f', K('fneg', v))
                return ('i', self.wrapto(st, mulc(self.toint(st, v, r[3]), -1), r[3]))
            if op == 'PtrMetadata':
                s = self.as_slice(st, v)
                if s: return ('i', s[4])
                return ('top',)
        if k == 'rep':
            v = self.operand(st, ctx, r[1])
            n = r[2]
            if n is None: return ('top',)
            t = self.T[dty]
            if n == 0: return ('q', t['of'], ZERO, ())
            return ('q', t['of'], C(n), (('fill', v, C(n)),))
        self.note_imprecise('rvalue ' + k)
        return self.mk(dty, K('rv', kr(ukey())))

    # ------------------------------------------------------------ contexts
    def get_ctx(self, parent, bb, inst, dst=None, to=None, tag=None):
        key = (parent.id if parent else None, bb, inst, tag)
        c = self.ctxs.get(key)
        if c is None:
            c = Ctx()
            c.id = len(self.ctxl)
            self.ctxl.append(c)
            self.ctxs[key] = c
            c.parent = parent
            c.bb = bb
            c.inst = inst
            c.body = self.p.body(inst)
            c.depth = parent.depth + 1 if parent else 0
            c.rec = {}
            if parent:
                c.prio = parent.prio + (parent.body.rpo[bb],)
                c.outer = parent.outer + tuple((parent.id, h) for h in parent.body.loops[bb])
                c.rec = dict(parent.rec)
            else:
                c.prio = ()
                c.outer = ()
            c.rec[inst] = c.rec.get(inst, 0) + 1
            c.dst, c.to = dst, to
            c.chain = None
            c.post = None
            c.wrap = None
            i = self.p.insts[inst]
            c.name = i.get('full') or i['path']
            self.stats['ctxs'] += 1
            self.funcs.add(inst)
        return c

    def prov(self, ctx, bb):
        e = self.epoch
        return tuple((h, e.get(h, 0)) for h in ctx.outer + tuple((ctx.id, h) for h in ctx.body.loops[bb]))

    # ------------------------------------------------------------ fresh origins
    def fresh(self, st, ctx, bb, n=0):
        t = K('@', ctx.id, bb, n, root=True)
        if t in st.born:
            self.age(st, t)
        else:
            st.born = st.born | {t}
        return t

    def alloc(self, st, ctx, bb, val, n=0):
        t = self.fresh(st, ctx, bb, ('h', n))
        obj = ('H', t)
        st.m[obj] = val
        return obj

    def age(self, st, token):
        memo = {}
        kmemo = {}
        smemo = {}
        new = {}
        hit = [False]
        def rk(k):
            if token not in KINFO[k][1]: return k
            r = kmemo.get(k)
            if r is None:
                if k == token:
                    r = ukey(False)
                else:
                    r = K(*rv(KINFO[k][0]))
                kmemo[k] = r
            return r
        def rs(s):
            if token not in SROOTS[s]: return s
            r = smemo.get(s)
            if r is None:
                nk = rv(SKEY[s])
                r = sym(nk, SLO[s], SHI[s])
                smemo[s] = r
                if not SDEF[r]:
                    for t, lo, hi in SDEF[s]:
                        l = rl(('lin', 0, t))
                        add_def(r, l, lo, hi)
            return r
        def rl(l):
            for s, _ in l[2]:
                if token in SROOTS[s]: break
            else:
                return l
            out = C(l[1])
            for s, k in l[2]:
                out = lin_add(out, S(rs(s)), 1, k)
            return out
        def rv(x):
            if type(x) is not tuple or not x: return x
            h = x[0]
            if h == 'lin' and len(x) == 3: return rl(x)
            if h == 'k' and len(x) == 2 and type(x[1]) is int: return ('k', rk(x[1]))
            if h == 's' and len(x) == 3 and type(x[2]) is int: return ('s', x[1], rk(x[2]))
            if h == 'f' and len(x) == 2 and type(x[1]) is int: return ('f', rk(x[1]))
            if h == 'src': return ('src', rk(x[1]), rl(x[2]), rl(x[3]))
            if h == 'sv': return ('sv', x[1], rk(x[2]), x[3])
            if h == 'O' and len(x) == 2: return ('O', rk(x[1]))
            if h == 'H' and len(x) == 2: return ('W', x[1]) if x[1] == token else x
            if h in ('K', 'G', 'W', 'L'): return x
            r = memo.get(x)
            if r is None:
                r = tuple(rv(y) for y in x)
                if r == x: r = x
                memo[x] = r
            return r
        nm = {}
        for o, v in st.m.items():
            no = rv(o)
            nv = rv(v)
            if no[0] == 'W' and no != o:
                if no in st.m or no in nm:
                    nv = self.weak(st, nm.get(no, st.m.get(no)), nv)
                nm[no] = nv
            elif no[0] == 'W' and no in nm:
                nm[no] = self.weak(st, nm[no], nv)
            else:
                nm[no] = nv
        st.m = nm
        f = st.f
        ch = [t for t in f.f if any(token in SROOTS[s] for s, _ in t)]
        cn = [t for t in f.ne if any(token in SROOTS[s] for s, _ in t)]
        if ch or cn:
            nf = Facts(dim=f.dim)
            for t, b in f.f.items():
                if t in ch or any(token in SROOTS[s] for s, _ in t):
                    l = rl(('lin', 0, t))
                    nt, sg, g = norm(l[2])
                    if not nt: continue
                    lo, hi = b
                    if sg < 0: lo, hi = -hi, -lo
                    nf.setf(nt, lo, hi)
                else:
                    nf.setf(t, *b)
            for t, e in f.ne.items():
                if t in cn:
                    l = rl(('lin', 0, t))
                    nt, sg, g = norm(l[2])
                    if g == 1:
                        nf.ne[nt] = e if sg > 0 else frozenset(-x for x in e)
                else:
                    nf.ne[t] = e
            st.f = nf
        if self.mon is not None and hasattr(self.mon, 'on_age'):
            self.mon.on_age(self, st, rv)

    # ------------------------------------------------------------ gc
    def kill_slots(self, st, ctx, live):
        # saved slots of the running coroutine that are dead here
        a = st.m.get(('L', ctx.id, 1))
        if a is None or a[0] != 'a' or not a[3] or a[3][0][0] != 'r': return
        _, obj, path = a[3][0]
        v = self.loadp(st, obj, path, None)
        if v[0] != 'co' or not v[4]: return
        addr = ctx.body.addr
        keep = tuple(kv for kv in v[4] if ('S',) + kv[0] in live or ('S',) + kv[0] in addr)
        if len(keep) != len(v[4]):
            self.store(st, (obj, path, None), v[:4] + (keep,))

    def gc(self, st, ctx, bb):
        # dead locals of this frame
        b = ctx.body
        live = b.live[bb]
        addr = b.addr
        cid = ctx.id
        m = st.m
        for o in [o for o in m if o[0] == 'L' and o[1] == cid and o[2] not in live and o[2] not in addr]:
            del m[o]
        if b.cot is not None:
            self.kill_slots(st, ctx, live)
        # reachability from locals / ghosts
        seen = set()
        work = [o for o in m if o[0] in ('L', 'A')]
        seen.update(work)
        while work:
            o = work.pop()
            v = m.get(o)
            if v is None: continue
            for r in refs_of(v):
                if r not in seen:
                    seen.add(r)
                    work.append(r)
        if len(seen) < len(m):
            # opaque objects can be re-created on demand, but keep them (and what
            # they refer to) while their key is mentioned by something reachable
            keys = set()
            todo = [o for o in seen if o in m]
            while True:
                while todo:
                    o = todo.pop()
                    v = m.get(o)
                    if v is None: continue
                    keys |= keys_of(v)
                    for r in refs_of(v):
                        if r not in seen:
                            seen.add(r); todo.append(r)
                more = [o for o in m if o[0] == 'O' and o not in seen and o[1] in keys]
                if not more: break
                seen.update(more); todo.extend(more)
            for o in [o for o in m if o not in seen]:
                del m[o]
        live_s = set()
        for v in m.values():
            live_s |= syms_of(v)
        f = st.f
        extend_live(live_s, f)
        if any(not all(s in live_s for s, _ in t) for t in f.f) or any(not all(s in live_s for s, _ in t) for t in f.ne):
            nf = Facts(dim=f.dim)
            for t, (lo, hi) in f.f.items():
                if all(s in live_s for s, _ in t):
                    nf.setf(t, lo, hi)
            for s in live_s:
                if f.idx.get(s):
                    lo, hi = f.bounds(S(s))
                    r = f.srange(s)
                    if (lo, hi) != (SLO[s], SHI[s]):
                        nf.setf(((s, 1),), max(lo, SLO[s]), min(hi, SHI[s]))
            for t, e in f.ne.items():
                if all(s in live_s for s, _ in t): nf.ne[t] = e
            st.f = nf

    # ------------------------------------------------------------ shapes & joins
    def shape(self, st):
        out = []
        # heap blocks with a single owner are described where they are owned
        cnt = {}
        for v in st.m.values():
            for r in refs_of(v):
                if r[0] == 'H': cnt[r] = cnt.get(r, 0) + 1
        self._uniq = {h: st.m.get(h) for h, n in cnt.items() if n == 1}
        for o, v in st.m.items():
            if o[0] == 'O':
                # of an object the caller owns only the flags are told apart
                if v[0] == 'a' and any(x[0] == 'b' for x in v[3]):
                    out.append((o, tuple(x[1] if x[0] == 'b' and x[1][0] == 'c' else 0 for x in v[3])))
                continue
            if o in self._uniq:
                continue
            out.append((o, self.vshape(v)))
        return (st.aut, frozenset(out))

    def vshape(self, v):
        k = v[0]
        if k == 'i': return 0
        if k == 'b': return v[1] if v[1][0] == 'c' else 1
        if k == 'a':
            if len(v[3]) >= 2 and self.small_iter(v): return (v[1], v[2]) + v[3]
            return (v[1], v[2]) + tuple(self.vshape(x) for x in v[3])
        if k == 's': return ('s', v[1])
        if k == 'r' and v[2] == () and v[1] in self._uniq:
            x = self._uniq[v[1]]
            return ('r*', self.vshape(x) if x is not None else 0)
        if k == 'r': return ('r', v[1] if v[1][0] != 'O' else 0, tuple(x if type(x) is int or x[0] == 'd' else 'x' for x in v[2]))
        if k == 'l': return ('l', v[1] if v[1][0] != 'O' else 0, tuple(x if type(x) is int or x[0] == 'd' else 'x' for x in v[2]))
        if k == 'v' and v[1] in self._uniq:
            x = self._uniq[v[1]]
            return ('v*', self.vshape(x) if x is not None else 0)
        if k == 'v': return ('v', v[1] if v[1][0] != 'O' else 0)
        if k == 'co': return ('co', v[1], v[2], tuple(self.vshape(x) for x in v[3]), tuple((kk, self.vshape(x)) for kk, x in cosaved(v)))
        if k == 'n': return ('n', v[1], v[2]) + (tuple(v[3]) if self.n_small(v) else tuple(self.vshape(x) for x in v[3]))
        if k == 'q': return ('q', v[1])
        if k == 'e': return ('e', v[1])
        return k

    def small_iter(self, v):
        # iterators over small constant ranges are kept apart (bounded unrolling)
        if v[1] < 0: return False
        p = self.T[v[1]].get('path')
        if p in ('std::ops::Range', 'std::ops::index_range::IndexRange'):
            a, b = v[3][0], v[3][1]
            return a[0] == 'i' and b[0] == 'i' and isconst(a[1]) and isconst(b[1]) and -16 <= a[1][1] and b[1][1] <= self.unroll
        if p in ('std::slice::Iter', 'std::slice::IterMut'):
            a, b = v[3][0], v[3][1]
            if a[0] == 'r' and b[0] == 'r' and a[2] and b[2] and type(a[2][-1]) is tuple and type(b[2][-1]) is tuple:
                x, y = a[2][-1][1], b[2][-1][1]
                d = sub(y, x)
                return isconst(d) and 0 <= d[1] <= self.unroll
        if p == 'std::iter::Zip' and len(v[3]) >= 4:
            a, b = v[3][2], v[3][3]
            return a[0] == 'i' and b[0] == 'i' and isconst(a[1]) and isconst(b[1]) and 0 <= b[1][1] <= self.unroll
        return False

    def n_small(self, v):
        # native iterators over small constant ranges are kept apart (bounded unrolling)
        fs = v[3]
        if len(fs) >= 2 and fs[0][0] == 'i' and fs[1][0] == 'i':
            d = sub(fs[1][1], fs[0][1])
            if isconst(fs[0][1]) and isconst(fs[1][1]) and fs[1][1][1] <= self.unroll:
                return True
        return False

    def join(self, node, A, B, widen):
        """join B into stored A; returns new state or None if nothing changed"""
        nk = K('pn', node[0], node[1], root=True)
        if nk in B.born:
            B = B.copy()
            self.age(B, nk)
        if A.m == B.m and A.f.f == B.f.f and A.f.ne == B.f.ne:
            return None
        J = State()
        J.aut = A.aut
        J.born = A.born | B.born | {nk}
        J.sw = A.sw and B.sw
        J.f.dim = A.f.dim and B.f.dim
        jc = (nk, A, B, J, [])
        self._affs = set()
        for o, a in sorted(A.m.items(), key=lambda x: x[0][0] == 'A' and x[0][1] != 'root'):
            b = B.m.get(o)
            if b is None: continue
            J.m[o] = a if a == b else self.joinval(jc, (o,), a, b)
        # objects that exist on one side only but stay referenced (an enum variant
        # or slot taken from that side)
        todo = list(J.m.values())
        while todo:
            for r in refs_of(todo.pop()):
                if r not in J.m:
                    x = A.m.get(r)
                    if x is None: x = B.m.get(r)
                    if x is not None:
                        J.m[r] = x
                        todo.append(x)
        self.joinfacts(jc, widen)
        self.stats['joins'] += 1
        if J.m == A.m and J.f.f == A.f.f and J.f.ne == A.f.ne:
            return None
        return J

    def joinint(self, jc, slot, la, lb):
        if la == lb: return la
        nk, A, B, J, phis = jc
        key = K('phi', kr(nk), slotid(slot))
        ph = sym(('b', kr(key)), -(1 << 127), 1 << 128)
        if la == S(ph):
            phis.append((ph, la, lb))
            PHIS.setdefault(ph, set()).add(lb)
            return la
        for (p, xa, xb) in phis:
            ks = (1, -1)
            for l, x in ((lb, xb), (la, xa)):
                if x[2] and l[2]:
                    z, kz = x[2][0]
                    for z2, k2 in l[2]:
                        if z2 == z and k2 % kz == 0 and k2 // kz not in ks: ks = ks + (k2 // kz,)
            for k in ks:
                d = lin_add(la, xa, 1, -k)
                if d == lin_add(lb, xb, 1, -k):
                    r = lin_add(d, S(p), 1, k)
                    if len(r[2]) > 1: self._affs.add(r)
                    return r
        for (p, xa, xb) in phis[:12]:
            da, db = lin_add(la, xa, 1, -1), lin_add(lb, xb, 1, -1)
            if not da[2] and 0 < len(db[2]) <= 3 and B.f.bounds(db) == (da[1], da[1]): return lin_add(da, S(p), 1, 1)
            if not db[2] and 0 < len(da[2]) <= 3 and A.f.bounds(da) == (db[1], db[1]): return lin_add(db, S(p), 1, 1)
        if slot[0][0] == 'A':
            # lift the modular successor over an existing phi (sequence counters)
            u8 = self.u8()
            for (p, xa, xb) in phis:
                if la == self.wrapto(A, addc(xa, 1), u8) and lb == self.wrapto(B, addc(xb, 1), u8):
                    f = Facts(); f.setf(((p, 1),), 0, 255)
                    T = State(); T.f = f
                    return self.wrapto(T, addc(S(p), 1), u8)
        phis.append((ph, la, lb))
        PHIS.setdefault(ph, set()).update((la, lb))
        if TAINT and (tainted(la) or tainted(lb)): TSYM.add(ph)
        return S(ph)

    def joinval(self, jc, slot, a, b):
        if a == b: return a
        nk, A, B, J, phis = jc
        ka, kb = a[0], b[0]
        if ka == 'i' and kb == 'i':
            return ('i', self.joinint(jc, slot, a[1], b[1]))
        if ka == 's' and kb == 'a' and self.T[a[1]]['k'] in ('struct', 'closure'):
            a = self.expand(a); ka = a[0]
        if kb == 's' and ka == 'a' and self.T[b[1]]['k'] in ('struct', 'closure'):
            b = self.expand(b); kb = b[0]
        if a == b: return a
        if ka == kb:
            if ka == 'a' and a[1] == b[1]:
                if a[2] == b[2]:
                    return ('a', a[1], a[2], tuple(x if x == y else self.joinval(jc, slot + (i,), x, y) for i, (x, y) in enumerate(zip(a[3], b[3]))))
            if ka == 'b':
                d = self.joinint(jc, slot, self.b2i(a[1]), self.b2i(b[1]))
                return ('b', ('ne', d)) if not isconst(d) else ('b', ('c', d[1] != 0))
            if ka == 'co':
                a = a[:4] + (cosaved(a),); b = b[:4] + (cosaved(b),)
            if ka == 'co' and a[1] == b[1] and a[2] == b[2]:
                da, db = dict(a[4]), dict(b[4])
                if set(da) != set(db):
                    # a slot missing on one side is uninitialised there
                    ks = sorted(set(da) & set(db))
                    a = a[:4] + (tuple((k, da[k]) for k in ks),); b = b[:4] + (tuple((k, db[k]) for k in ks),)
                return ('co', a[1], a[2],
                        tuple(x if x == y else self.joinval(jc, slot + (i,), x, y) for i, (x, y) in enumerate(zip(a[3], b[3]))),
                        tuple((k, x if x == y else self.joinval(jc, slot + (k,), x, y)) for (k, x), (_, y) in zip(a[4], b[4])))
            if ka == 'q' and a[1] == b[1]:
                return self.joinseq(jc, slot, a, b)
            if ka == 'n' and a[1] == b[1] and a[2] == b[2]:
                return ('n', a[1], a[2], tuple(x if x == y else self.joinval(jc, slot + (i,), x, y) for i, (x, y) in enumerate(zip(a[3], b[3]))))
            if ka == 'r' and a[1] == b[1] and len(a[2]) == len(b[2]):
                path = []
                for i, (x, y) in enumerate(zip(a[2], b[2])):
                    if x == y: path.append(x)
                    elif type(x) is tuple and type(y) is tuple and x[0] == y[0] == 'x':
                        path.append(('x', self.joinint(jc, slot + ('p', i), x[1], y[1])))
                    else: return ('top',)
                return ('r', a[1], tuple(path))
            if ka == 'l' and a[1] == b[1] and a[2] == b[2]:
                return ('l', a[1], a[2], self.joinint(jc, slot + ('s',), a[3], b[3]), self.joinint(jc, slot + ('n',), a[4], b[4]))
            if ka in ('r', 'v') and (ka == 'v' or a[2] == b[2] == ()):
                va, vb = self.getobj(A, a[1]), self.getobj(B, b[1])
                if va[0] not in ('top',) and vb[0] not in ('top',):
                    key = K('phi', kr(nk), slotid(slot))
                    obj = ('O', key)
                    if obj not in J.m:
                        J.m[obj] = ('top',)
                        J.m[obj] = va if va == vb else self.joinval(jc, slot + ('*',), va, vb)
                    return (ka, obj) + (() if ka == 'v' else ((),))
            if ka == 'l':
                qa = self.loadp(A, a[1], a[2], (a[3], a[4]))
                qb = self.loadp(B, b[1], b[2], (b[3], b[4]))
                if qa[0] == 'q' and qb[0] == 'q' and qa[1] == qb[1]:
                    key = K('phi', kr(nk), slotid(slot))
                    obj = ('O', key)
                    J.m[obj] = q = self.joinseq(jc, slot + ('*',), qa, qb)
                    return ('l', obj, (), ZERO, q[2])
            if ka == 's' and a[1] == b[1]:
                return self.mk(a[1], K('phi', kr(nk), slotid(slot)))
            if ka == 'f':
                return ('f', K('phi', kr(nk), slotid(slot)))
        if ka in ('a', 'e') and kb in ('a', 'e') and a[1] == b[1] and self.T[a[1]]['k'] == 'enum':
            da = self.discr(A, a); db = self.discr(B, b)
            va = dict(a[3]) if ka == 'e' else {a[2]: a[3]}
            vb = dict(b[3]) if kb == 'e' else {b[2]: b[3]}
            out = {}
            for v in sorted(set(va) | set(vb)):
                if v in va and v in vb:
                    out[v] = tuple(x if x == y else self.joinval(jc, slot + ('d', v, i), x, y) for i, (x, y) in enumerate(zip(va[v], vb[v])))
                else:
                    out[v] = va.get(v, vb.get(v))
            return ('e', a[1], self.joinint(jc, slot + ('D',), da, db), tuple(sorted(out.items())))
        ta = a[1] if ka in ('a', 's', 'e', 'co') else None
        tb = b[1] if kb in ('a', 's', 'e', 'co') else None
        if ta is not None and ta == tb:
            return self.mk(ta, K('phi', kr(nk), slotid(slot)))
        if ta is not None and kb in ('r', 'l', 'v') and ka == 's' or tb is not None and ka in ('r', 'l', 'v') and kb == 's':
            # opaque reference vs concrete one: compare targets
            x = a if ka == 's' else b
            return ('s', x[1], K('phi', kr(nk), slotid(slot)))
        return ('top',)

    def joinseq(self, jc, slot, a, b):
        ln = self.joinint(jc, slot + ('len',), a[2], b[2])
        sa, sb = a[3], b[3]
        if sa == sb: return ('q', a[1], ln, sa)
        key = K('phi', kr(jc[0]), slotid(slot))
        # element-wise
        if len(sa) == len(sb) and all(x[0] == y[0] and (x == y or x[0] in ('el', 'le', 'src', 'fill')) for x, y in zip(sa, sb)):
            out = []
            ok = True
            for i, (x, y) in enumerate(zip(sa, sb)):
                if x == y: out.append(x)
                elif x[0] == 'el': out.append(('el', self.joinval(jc, slot + ('e', i), x[1], y[1]), ONE))
                elif x[0] == 'le' and x[2] == y[2]: out.append(('le', self.joinint(jc, slot + ('e', i), x[1], y[1]), x[2], x[3]))
                elif x[0] == 'src' and x[1] == y[1]:
                    out.append(('src', x[1], self.joinint(jc, slot + ('o', i), x[2], y[2]), self.joinint(jc, slot + ('n', i), x[3], y[3])))
                elif x[0] == 'src' and len(sa) == 1:
                    FROM.setdefault(key, set()).update((x, y))
                    out.append(('src', key, ZERO, ln))
                elif x[0] == 'fill' and x[1] == y[1]:
                    out.append(('fill', x[1], self.joinint(jc, slot + ('n', i), x[2], y[2])))
                else: ok = False; break
            if ok and len(out) < 40: return ('q', a[1], ln, tuple(out))
        # common prefix kept
        n = 0
        while n < len(sa) and n < len(sb) and sa[n] == sb[n] and n < 24: n += 1
        pre = sa[:n]
        rest = ln
        for s in pre: rest = sub(rest, s[-1])
        if rest == ZERO: return ('q', a[1], ln, pre)
        FROM.setdefault(key, set()).update(sa[n:] + sb[n:])
        return ('q', a[1], ln, pre + (('src', key, ZERO, rest),))

    def joinfacts(self, jc, widen):
        nk, A, B, J, phis = jc
        sa = {p: x for p, x, _ in phis}
        sb = {p: y for p, _, y in phis}
        live = set()
        for v in J.m.values(): live |= syms_of(v)
        fa, fb = A.f, B.f
        extend_live(live, fa); extend_live(live, fb)
        def subst(t, s):
            out = ZERO
            for x, k in t:
                y = s.get(x)
                out = lin_add(out, y if y is not None else S(x), 1, k)
            return out
        cands = {}
        for t in fa.f:
            if all(s in live for s, _ in t): cands[t] = 1
        for p in sa:
            cands[((p, 1),)] = 1
        if not widen:
            for t in fb.f:
                if all(s in live for s, _ in t): cands[t] = 1
            # relational candidates
            ps = list(sa)
            for p in ps:
                for x in (sa[p], sb[p]):
                    if 1 < len(x[2]) <= 3 and all(s in live and s != p for s, _ in x[2]):
                        cands[norm(lin_add(S(p), ('lin', 0, x[2]), 1, -1)[2])[0]] = 1
                others = set()
                for ff, x in ((fa, sa[p]), (fb, sb[p])):
                    sy = [s for s, _ in x[2]]
                    for s in sy:
                        if s in live and s != p: others.add(s)
                        for t in ff.idx.get(s, ()):
                            for z, _ in t:
                                if z in live and z != p: others.add(z)
                        for t, _, _ in SDEF[s]:
                            for z, _ in t:
                                if z in live and z != p: others.add(z)
                for z in sorted(others)[:12]:
                    cands[norm(tuple(sorted(((p, 1), (z, -1)))))[0]] = 1
                    cands[norm(tuple(sorted(((p, 1), (z, 1)))))[0]] = 1
            cs = [p for p in ps if isconst(sa[p]) and isconst(sb[p]) and sa[p] != sb[p]][:6]
            if cs:
                for i in range(len(ps)):
                    p = ps[i]
                    if isconst(sa[p]) and isconst(sb[p]): continue
                    for q in ps:
                        if q == p or sa[p][2] != sa[q][2] or sb[p][2] != sb[q][2]: continue
                        da, db = sa[p][1] - sa[q][1], sb[p][1] - sb[q][1]
                        for r in cs:
                            dr = sb[r][1] - sa[r][1]
                            if (db - da) % dr == 0 and db != da:
                                y = lin_add(lin_add(S(p), S(q), 1, -1), S(r), 1, -((db - da) // dr))
                                cands[norm(y[2])[0]] = 1
            if cs:
                chg = [t[0][0] for t in fb.f if len(t) == 1 and t[0][0] in live and t[0][0] not in sa and fa.bounds(('lin', 0, t)) != fb.bounds(('lin', 0, t))]
                for z in sorted(chg)[:8]:
                    for p in cs: cands[norm(tuple(sorted(((p, 1), (z, -1)))))[0]] = 1
                chm = [t for t in fb.f if 2 <= len(t) <= 3 and all(z in live and z not in sa for z, _ in t) and fa.bounds(('lin', 0, t)) != fb.bounds(('lin', 0, t))]
                for t in sorted(chm)[:6]:
                    for p in cs: cands[norm(lin_add(S(p), ('lin', 0, t), 1, -1)[2])[0]] = 1
            if ps:
                lens = set()
                for v in J.m.values(): multi_lens(v, lens)
                for l in sorted(lens)[:4]:
                    for p in ps[:10]:
                        if all(z != p for z, _ in l): cands[norm(lin_add(S(p), ('lin', 0, l), 1, -1)[2])[0]] = 1
            # affine candidates: rewrite one side's linear form over the phis
            for sx in (sb, sa):
                inv = {}
                for q, x in sx.items():
                    if len(x[2]) == 1 and x[2][0][1] == 1: inv.setdefault(x[2][0][0], q)
                # facts of one side restated over the phis
                nc = 0
                for z, q in inv.items():
                    for t in (fb if sx is sb else fa).idx.get(z, ()):
                        if 2 <= len(t) <= 4 and nc < 24:
                            y = ZERO; okk = True
                            for w, k in t:
                                r = inv.get(w)
                                if r is not None: y = lin_add(y, S(r), 1, k)
                                elif w in live: y = lin_add(y, S(w), 1, k)
                                else: okk = False; break
                            if okk and len(y[2]) > 1: cands[norm(y[2])[0]] = 1; nc += 1
                for q in ps:
                    x = sx[q]
                    if 2 <= len(x[2]) <= 3:
                        z0, k0 = x[2][0]
                        for t in (fb if sx is sb else fa).idx.get(z0, ()):
                            if len(x[2]) < len(t) <= 6 and nc < 24:
                                d = dict(t)
                                k = d[z0]
                                if k % k0 or any(d.get(z) != c * (k // k0) for z, c in x[2]): continue
                                y = lin_add(lin_add(('lin', 0, t), ('lin', 0, x[2]), 1, -(k // k0)), S(q), 1, k // k0)
                                if all(z in live for z, _ in y[2]): cands[norm(y[2])[0]] = 1; nc += 1
                for p in ps:
                    x = sx[p]
                    if 2 <= len(x[2]) <= 4:
                        y = S(p); okk = True
                        for z, k in x[2]:
                            q = inv.get(z)
                            if q is not None and q != p: y = lin_add(y, S(q), 1, -k)
                            elif z in live and z != p: y = lin_add(y, S(z), 1, -k)
                            else: okk = False; break
                        if okk and y[2]: cands[norm(y[2])[0]] = 1
            if len(self._affs) <= 6:
                for r in sorted(self._affs):
                    for p in ps:
                        if all(z != p for z, _ in r[2]):
                            cands[norm(lin_add(S(p), ('lin', 0, r[2]), 1, -1)[2])[0]] = 1
            for i in range(len(ps)):
                for j in range(i + 1, min(len(ps), i + 8)):
                    cands[norm(tuple(sorted(((ps[i], 1), (ps[j], -1)))))[0]] = 1
        else:
            for p in sa:
                others = set(z for t in fa.idx.get(p, ()) for z, _ in t)
        F = J.f
        for t in cands:
            la = subst(t, sa)
            lb = subst(t, sb)
            a = fa.bounds(la)
            b = fb.bounds(lb)
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
            if widen:
                old = fa.f.get(t)
                if old is not None:
                    if lo < old[0]: lo = thr_lo(lo) if len(t) == 1 else 0 if lo >= 0 else -INF
                    else: lo = old[0]
                    if hi > old[1]: hi = thr_hi(hi) if len(t) == 1 else 0 if hi <= 0 else INF
                    else: hi = old[1]
                else:
                    lo, hi = thr_lo(lo), thr_hi(hi)
            dl = dh = 0
            for s, k in t:
                x, y = SLO[s], SHI[s]
                dl += min(x * k, y * k); dh += max(x * k, y * k)
            if lo <= -(1 << 126): lo = -INF
            if hi >= (1 << 127): hi = INF
            if lo > dl or hi < dh:
                F.setf(t, max(lo, -INF), min(hi, INF))
        # drop multi-term facts implied by intervals
        for t in [t for t in F.f if len(t) > 1]:
            lo, hi = F.f[t]
            a, b = F.interval(t)
            if a >= lo and b <= hi:
                del F.f[t]
        if F.f:
            nf = Facts()
            nf.dim = F.dim
            for t, bnd in F.f.items(): nf.setf(t, *bnd)
            J.f = F = nf
        for t, e in fa.ne.items():
            if all(s in live for s, _ in t):
                lb = subst(t, sb); la = subst(t, sa)
                keep = []
                for c in e:
                    okA = fa.entails(p_ne(la, C(c))) if t in fa.ne and la[2] != t else True
                    if okA and fb.entails(p_ne(lb, C(c))): keep.append(c)
                if keep: F.ne[t] = frozenset(keep)

    # ------------------------------------------------------------ scheduling
    def push(self, st, ctx, bb, pv):
        node = (ctx.id, bb)
        l = self.pending.get(node)
        if l is None:
            self.pending[node] = [(st, pv)]
            heapq.heappush(self.heap, (ctx.prio + (ctx.body.rpo[bb],), node))
        else:
            l.append((st, pv))

    def valid(self, pv):
        e = self.epoch
        for h, n in pv:
            if e.get(h, 0) != n: return False
        return True

    def run(self):
        while self.heap:
            pr, node = heapq.heappop(self.heap)
            inc = self.pending.pop(node, None)
            if not inc: continue
            ctx = self.ctxl[node[0]]
            bb = node[1]
            head = bb in ctx.body.heads
            inc = [s for s, pv in inc if self.valid(pv)]
            if not inc: continue
            pv = self.prov(ctx, bb)
            opv = tuple(x for x in pv if x[0] != node)
            stored = self.stored.get(node)
            if stored is None or stored[0] != opv:
                stored = self.stored[node] = (opv, {}, {})
                self.visits[node] = 0
            ds, vis = stored[1], stored[2]
            changed = []
            self.visits[node] += 1
            if self.visits[node] > 3000:
                raise NotConverged('%s bb%d' % (ctx.name, bb))
            seen = set()
            for st in inc:
                self.gc(st, ctx, bb)
                sh = self.shape(st)
                n = vis.get(sh, 0)
                if sh not in seen:
                    seen.add(sh)
                    n = vis[sh] = n + 1
                if n > 60: raise NotConverged('%s bb%d' % (ctx.name, bb))
                widen = 2 if n > 25 else head and n > 3
                if sh not in ds and len(ds) >= self.maxd:
                    widen = 2 if self.visits[node] > 60 else head and self.visits[node] > 6
                    # forced merge with a disjunct of the same automaton state
                    best = None
                    for k in ds:
                        if k[0] == sh[0]:
                            d = shape_dist(k[1], sh[1])
                            if best is None or d < best[0]: best = (d, k)
                    if best is not None:
                        self.stats['forced'] += 1
                        old = ds[best[1]]
                        J = self.join(node, old, st, widen)
                        if J is not None:
                            del ds[best[1]]
                            s2 = self.shape(J)
                            if s2 in ds:
                                J2 = self.join(node, ds[s2], J, widen)
                                if J2 is None:
                                    continue
                                J = J2
                            ds[s2] = J
                            if s2 not in changed: changed.append(s2)
                        continue
                if sh in ds:
                    J = self.join(node, ds[sh], st, widen)
                    if J is not None:
                        self.gc(J, ctx, bb)
                        ds[sh] = J
                        if sh not in changed: changed.append(sh)
                        if widen: self.stats['widen'] += 1
                else:
                    ds[sh] = st
                    changed.append(sh)
            changed = [c for c in changed if c in ds]
            if not changed: continue
            if head:
                self.epoch[node] = self.epoch.get(node, 0) + 1
                torun = list(ds)
            else:
                torun = changed
            for sh in torun:
                self.step(ds[sh].copy(), ctx, bb)

    def start(self, st, inst, args):
        ctx = self.get_ctx(None, None, inst)
        b = ctx.body
        for i, a in enumerate(args):
            st.m[('L', ctx.id, i + 1)] = a
        self.push(st, ctx, 0, ())
        return ctx

    def step(self, st, ctx, bb):
        stack = [(st, ctx, bb)]
        while stack:
            st, ctx, bb = stack.pop()
            try:
                outs = self.block(st, ctx, bb)
            except Infeasible:
                continue
            pv = None
            for s2, c2, b2 in reversed(outs):
                bd = c2.body
                if b2 in bd.heads or len(bd.preds[b2]) > 1:
                    if pv is None: pv = self.prov(ctx, bb)
                    self.push(s2, c2, b2, pv)
                else:
                    stack.append((s2, c2, b2))

    def block(self, st, ctx, bb):
        self.stats['blocks'] += 1
        if self.stats['blocks'] > self.max_blocks:
            raise NotConverged('block budget exceeded in ' + ctx.name)
        b = ctx.body
        stmts, t = b.blocks[bb]
        cid = ctx.id
        for s in stmts:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, ctx, s[2], s[3] if len(s) > 3 else None, s[1][2])
                if v[0] in ('top', 'sv', 'cv'):
                    v = self.mk(s[1][2], K('topv', kr(ukey())))
                elif v[0] == 'ord':
                    v = self.mkord(st, s[1][2], v)
                p = s[1]
                if not p[1]:
                    st.m[('L', cid, p[0])] = v
                else:
                    self.store(st, self.resolve(st, ctx, p), v)
            elif k == 'dead':
                st.m.pop(('L', cid, s[1]), None)
            elif k == 'sd':
                obj, path, sl = self.resolve(st, ctx, s[1])
                v = self.loadp(st, obj, path, sl)
                if v[0] == 'co':
                    saved = v[4]
                    ups = v[3]
                    if s[2] in (1, 2):
                        saved = ()
                        ups = tuple(('top',) for _ in ups)
                    elif s[2] >= 3 and v[1] == b.cot and s[2] in b.resume:
                        lv = b.live[b.resume[s[2]]]
                        saved = tuple(kv for kv in saved if ('S',) + kv[0] in lv or ('S',) + kv[0] in b.addr)
                    self.store(st, (obj, path, sl), ('co', v[1], s[2], ups, saved))
                elif v[0] == 'a' and v[2] != s[2]:
                    fs = tuple(self.mk(f[1], K('sd', kr(ukey()))) for f in self.T[v[1]]['variants'][s[2]][2])
                    self.store(st, (obj, path, sl), ('a', v[1], s[2], fs))
                elif v[0] in ('s', 'e') and self.T[v[1]]['k'] == 'coroutine':
                    self.note_imprecise('opaque coroutine ' + self.T[v[1]]['s'][:60] + ' in ' + ctx.name)
                elif v[0] in ('s', 'e'):
                    fs = tuple(self.mk(f[1], K('sd', kr(ukey()))) for f in self.T[v[1]]['variants'][s[2]][2])
                    self.store(st, (obj, path, sl), ('a', v[1], s[2], fs))
            elif k == 'assume':
                st.f.assume(self.topred(st, self.operand(st, ctx, s[1])))
        k = t['k']
        if k == 'goto':
            return [(st, ctx, t['to'])]
        if k == 'switch':
            return self.switch(st, ctx, t)
        if k == 'call':
            return self.call(st, ctx, bb, t)
        if k == 'return':
            return self.ret(st, ctx)
        if k == 'assert':
            p = self.topred(st, self.operand(st, ctx, t['c']))
            if not t['exp']: p = neg(p)
            e = st.f.entails(p)
            if t['msg'] != 'resumed': self.obligation(ctx, t['sp'], t['msg'])
            if e is True:
                return [(st, ctx, t['to'])]
            if t['msg'] == 'resumed':
                if e is False: return []
            self.panic(st, ctx, t['msg'], t['sp'], neg(p))
            if e is False: return []
            try:
                st.f.assume(p)
            except Infeasible:
                return []
            return [(st, ctx, t['to'])]
        if k == 'drop':
            return self.drop(st, ctx, bb, t)
        if k == 'unreachable':
            return []
        if t.get('to') is not None:
            return [(st, ctx, t['to'])]
        return []

    def mkord(self, st, ty, v):
        e = st.f.entails(p_lt(v[1], v[2]))
        idx = {x[1]: i for i, x in enumerate(self.T[ty]['variants'])}
        if e: return ('a', ty, idx[-1], ())
        if e is False:
            e2 = st.f.entails(p_eq(v[1], v[2]))
            if e2: return ('a', ty, idx[0], ())
            if e2 is False: return ('a', ty, idx[1], ())
        d = S(sym(('cmp', v[1], v[2]), -1, 1))
        return ('e', ty, d, tuple((i, ()) for i in range(3)))

    def assume_eq(self, st, lin, c):
        st.f.assume(p_eq(lin, C(c)))
        # three-way comparison results carry their operands
        if len(lin[2]) == 1 and lin[1] == 0 and lin[2][0][1] == 1:
            k = SKEY[lin[2][0][0]]
            if k[0] == 'cmp':
                st.f.assume({-1: p_lt(k[1], k[2]), 0: p_eq(k[1], k[2]), 1: p_lt(k[2], k[1])}[c])
            elif k[0] == 'b2i':
                st.f.assume(k[1] if c else neg(k[1]))

    def switch(self, st, ctx, t):
        v = self.operand(st, ctx, t['on'])
        outs = []
        if v[0] == 'b' or self.T[t['ty']]['k'] == 'bool':
            p = self.topred(st, v)
            st.sw = bool(TAINT) and tainted(p)
            arms = [(neg(p) if a == 0 else p, b) for a, b in t['arms']]
            vals = [a for a, _ in t['arms']]
            if t['else'] is not None:
                if 0 in vals and 1 not in vals: arms.append((p, t['else']))
                elif 1 in vals and 0 not in vals: arms.append((neg(p), t['else']))
            for i, (q, b) in enumerate(arms):
                s2 = st.copy() if i < len(arms) - 1 else st
                try:
                    s2.f.assume(q)
                except Infeasible:
                    continue
                outs.append((s2, ctx, b))
            return outs
        l = self.toint(st, v, t['ty'])
        st.sw = bool(TAINT) and tainted(l)
        c = st.f.const(l)
        if c is not None:
            for a, b in t['arms']:
                if a == c: return [(st, ctx, b)]
            return [(st, ctx, t['else'])] if t['else'] is not None else []
        for a, b in t['arms']:
            s2 = st.copy()
            try:
                self.assume_eq(s2, l, a)
            except Infeasible:
                continue
            outs.append((s2, ctx, b))
        if t['else'] is not None and ctx.body.blocks[t['else']] is not None:
            if ctx.body.blocks[t['else']][1]['k'] == 'unreachable':
                return outs
            try:
                for a, _ in t['arms']:
                    st.f.assume(p_ne(l, C(a)))
                outs.append((st, ctx, t['else']))
            except Infeasible:
                pass
        return outs

    def ret(self, st, ctx):
        v = self.getobj(st, ('L', ctx.id, 0))
        cid = ctx.id
        if ctx.parent is None:
            if self.mon is not None: self.mon.on_return(self, st, ctx, v)
            return []
        m = st.m
        for n in range(len(ctx.body.locals)):
            m.pop(('L', cid, n), None)
        if ctx.post is not None:
            r = ctx.post(self, st, ctx, v)
            if r is not None:
                return r
        p = ctx.parent
        if ctx.dst is not None:
            self.store(st, self.resolve(st, p, ctx.dst), v)
        if self.mon is not None:
            h = getattr(self.mon, 'after_call', None)
            if h: h(self, st, ctx, v)
        if ctx.to is None: return []
        return [(st, p, ctx.to)]

    # ------------------------------------------------------------ drops
    def has_user_drop(self, ty, seen=None):
        r = self._drops.get(ty)
        if r is not None: return r
        seen = seen or set()
        if ty in seen: return False
        seen = seen | {ty}
        t = self.T[ty]
        r = False
        d = t.get('drop')
        if d is not None and self.p.insts[d]['krate'] in ('mysql_connector', 'verif_fixture'):
            r = True
        elif t.get('path') == 'std::mem::ManuallyDrop':
            r = False
        else:
            subs = []
            if 'variants' in t:
                for v in t['variants']:
                    subs += [f[1] for f in v[2]]
                if t.get('path') in ('std::boxed::Box', 'std::vec::Vec'): subs.append(t['args'][0])
            subs += t.get('elems', []) + t.get('upvars', [])
            if t['k'] == 'array': subs.append(t['of'])
            if t['k'] == 'coroutine': r = True
            r = r or any(self.has_user_drop(s, seen) for s in subs)
        self._drops[ty] = r
        return r

    def find_drops(self, st, v, loc, out, depth=0):
        if depth > 8: return
        k = v[0]
        if k == 's':
            t = self.T[v[1]]
            if not self.has_user_drop(v[1]): return
            if t['k'] == 'struct':
                v = self.expand(v); k = 'a'
        if k == 'a':
            t = self.T[v[1]]
            d = t.get('drop')
            if d is not None and self.p.insts[d]['krate'] in ('mysql_connector', 'verif_fixture'):
                out.append((loc, d))
                return
            if t.get('path') == 'std::mem::ManuallyDrop': return
            if t['k'] in ('struct', 'tuple', 'closure'):
                for i, x in enumerate(v[3]):
                    self.find_drops(st, x, (loc[0], loc[1] + (i,), None), out, depth + 1)
            elif t['k'] == 'enum':
                for i, x in enumerate(v[3]):
                    self.find_drops(st, x, (loc[0], loc[1] + (('d', v[2]), i), None), out, depth + 1)
        elif k == 'co':
            for i, x in enumerate(v[3]):
                if v[2] == 0:
                    self.find_drops(st, x, (loc[0], loc[1] + (i,), None), out, depth + 1)

    def drop(self, st, ctx, bb, t):
        p = t['p']
        out = []
        if self.has_user_drop(p[2]):
            loc = self.resolve(st, ctx, p)
            v = self.loadp(st, *loc)
            self.find_drops(st, v, loc, out)
        if not out:
            if ctx.body.cot is not None and len(p[1]) == 3 and p[1][0] == '*' and p[1][1][0] == 'd':
                obj, path, sl = self.resolve(st, ctx, p)
                par = self.loadp(st, obj, path[:-2], None)
                if par[0] == 'co':
                    self.store(st, (obj, path[:-2], None), par[:4] + (tuple(kv for kv in par[4] if kv[0] != (path[-2][1], path[-1])),))
            return [(st, ctx, t['to'])] if t.get('to') is not None else []
        return self.enter_drops(st, ctx, bb, tuple(out), t['to'])

    def enter_drops(self, st, ctx, bb, chain, to):
        loc, inst = chain[0]
        if self.p.body(inst) is None:
            return [(st, ctx, to)]
        c = self.get_ctx(ctx, bb, inst, None, to, ('drop', len(chain), slotid((loc[0], loc[1]))))
        rest = chain[1:]
        if rest:
            c.post = lambda I, s, cc, v, rest=rest: I.enter_drops(s, cc.parent, cc.bb, rest, cc.to)
        st.m[('L', c.id, 1)] = ('r', loc[0], loc[1])
        if self.mon is not None:
            h = getattr(self.mon, 'on_drop', None)
            if h: h(self, st, ctx, loc, inst)
        return [(st, c, 0)]

    # ------------------------------------------------------------ calls
    def call(self, st, ctx, bb, t):
        self.stats['calls'] += 1
        args = [self.operand(st, ctx, a) for a in t['args']]
        if 'fn' in t:
            return self.call_inst(st, ctx, bb, t, t['fn'], args)
        if 'ind' in t:
            f = self.operand(st, ctx, t['ind'])
            if f[0] == 'fn':
                return self.call_inst(st, ctx, bb, t, f[1], args)
            if f[0] == 'a' and self.T[f[1]]['k'] == 'fndef' and self.T[f[1]].get('inst') is not None:
                return self.call_inst(st, ctx, bb, t, self.T[f[1]]['inst'], args)
        return self.extern(st, ctx, bb, t, None, args, t.get('fnu') or t.get('decl') or 'indirect')

    def finish(self, st, ctx, bb, t, v):
        """write call result and continue"""
        if t.get('to') is None: return []
        if v[0] in ('top', 'sv', 'cv'):
            v = self.mk(t['dst'][2], K('topv', kr(ukey())))
        self.store(st, self.resolve(st, ctx, t['dst']), v)
        return [(st, ctx, t['to'])]

    def call_inst(self, st, ctx, bb, t, iid, args, tag=None):
        I = self.p.insts[iid]
        if self.mon is not None:
            r = self.mon.on_call(self, st, ctx, bb, t, I, args)
            if r is not None:
                return self.outcomes(ctx, bb, t, r)
        kind = I['kind']
        if kind == 'virtual':
            return self.virtual(st, ctx, bb, t, I, args)
        if kind in ('fnptr_shim', 'vtable_shim', 'reify'):
            ft = self.T[I['self']] if 'self' in I else None
            if ft and ft['k'] == 'fndef' and ft.get('inst') is not None:
                rest = args[1:]
                if len(rest) == 1 and rest[0][0] == 'a' and self.T[rest[0][1]]['k'] == 'tuple':
                    rest = list(rest[0][3])
                return self.call_inst(st, ctx, bb, t, ft['inst'], rest, tag)
        m = self.models.lookup(self, I) if self.models else None
        if m is not None:
            r = m(self, st, ctx, bb, t, I, args)
            if r is not None:
                return self.outcomes(ctx, bb, t, r)
        body = self.p.body(iid)
        if body is not None and ctx.rec.get(iid, 0) < 4 and ctx.depth < 120:
            return self.enter(st, ctx, bb, t, iid, args, tag)
        if body is None and '{constructor#' in (I.get('defpath') or ''):
            return self.finish(st, ctx, bb, t, self.ctor(t['dst'][2], I['name'], args))
        return self.extern(st, ctx, bb, t, I, args, I.get('full') or I['path'])

    def outcomes(self, ctx, bb, t, r):
        outs = []
        for o in r:
            if len(o) == 2:
                s, v = o
                if v is None: continue     # diverges
                outs += self.finish(s, ctx, bb, t, v)
            elif o[0] == 'raw':
                outs += o[2]
            else:                          # (state, 'call', inst, args)
                s, _, iid, args = o
                outs += self.call_inst(s, ctx, bb, t, iid, args)
        return outs

    def enter(self, st, ctx, bb, t, iid, args, tag=None):
        body = self.p.body(iid)
        if body.spread is not None:
            pass
        n = body.argc
        # closures called through Fn* traits: untuple
        if len(args) != n and len(args) == 2 and args[1][0] == 'a' and self.T[args[1][1]]['k'] == 'tuple':
            args = [args[0]] + list(args[1][3])
        elif len(args) == 2 and n == 2 and self.p.insts[iid].get('self') is None and args[1][0] == 'a' and len(args[1][3]) == 1 \
                and self.T[args[1][1]]['k'] == 'tuple' and self.is_closure(iid) and (self.T[body.locals[2]]['k'] != 'tuple' or self.T[args[1][1]]['elems'][0] == body.locals[2]):
            args = [args[0], args[1][3][0]]
        elif len(args) == 2 and n == 1 and args[1][0] == 'a' and not args[1][3]:
            args = args[:1]
        if self.is_closure(iid) and args:
            # by-ref vs by-value closure environments
            t1 = self.T[body.locals[1]]
            if t1['k'] == 'ref' and args[0][0] == 'a':
                o = self.alloc(st, ctx, bb, args[0], 'clo')
                args = [('r', o, ())] + list(args[1:])
            elif t1['k'] == 'closure' and args[0][0] == 'r':
                args = [self.loadp(st, args[0][1], args[0][2], None)] + list(args[1:])
        # drop parent temporaries that are dead
        c = self.get_ctx(ctx, bb, iid, t.get('dst'), t.get('to'), tag)
        if t.get('to') is not None:
            lv = ctx.body.live[t['to']]
            ad = ctx.body.addr
            pid = ctx.id
            used = set()
            for pr in t['dst'][1]:
                if pr != '*' and pr[0] == 'i': used.add(pr[1])
            if t['dst'][1]: used.add(t['dst'][0])
            for o in [o for o in st.m if o[0] == 'L' and o[1] == pid and o[2] not in lv and o[2] not in ad and o[2] not in used]:
                del st.m[o]
        for i, a in enumerate(args):
            st.m[('L', c.id, i + 1)] = a
        if self.mon is not None:
            h = getattr(self.mon, 'on_enter', None)
            if h: h(self, st, c, args)
        if 0 in body.heads or len(body.preds[0]) >= 1:
            self.push(st, c, 0, self.prov(ctx, bb))
            return []
        return [(st, c, 0)]

    def is_closure(self, iid):
        return '{closure' in (self.p.insts[iid].get('defpath') or self.p.insts[iid]['path']).rsplit('::', 1)[-1]

    def ctor(self, ty, name, args):
        t = self.T[ty]
        for i, v in enumerate(t['variants']):
            if v[0] == name: return self.mkagg(ty, i, args)
        return self.mkagg(ty, 0, args)

    def virtual(self, st, ctx, bb, t, I, args):
        recv = args[0]
        tr, name = I.get('trait'), I['name']
        v = recv
        if v[0] == 'a' and v[3]: v = v[3][0]          # Pin<&mut dyn>
        obj, path, sl = self.pointee(st, v)
        x = self.loadp(st, obj, path, sl)
        ty = x[1] if x[0] in ('a', 's', 'e', 'co') and isinstance(x[1], int) else None
        iid = None
        if ty is not None:
            vt = self.p.vt.get((ty, tr))
            if vt: iid = vt.get(name)
            if iid is None:
                for (vty, vtr), ms in self.p.vt.items():
                    if vty == ty and name in ms:
                        iid = ms[name]
                        break
        if iid is None and self.hint_fn:
            r = self.hint_fn(self, st, ctx, bb, t, I, args, x)
            if r is not None: return self.outcomes(ctx, bb, t, r)
        if iid is None:
            m = self.models.lookup(self, I) if self.models else None
            if m is not None:
                r = m(self, st, ctx, bb, t, I, args)
                if r is not None: return self.outcomes(ctx, bb, t, r)
            return self.extern(st, ctx, bb, t, I, args, I.get('full') or I['path'])
        a2 = list(args)
        if ('r', obj, path) != recv and recv[0] == 's': a2[0] = ('r', obj, path)
        return self.call_inst(st, ctx, bb, t, iid, a2)

    def extern(self, st, ctx, bb, t, I, args, name):
        if is_panic_fn(name):
            self.panic(st, ctx, 'panic:' + name.split('::')[-1].split('<')[0], t['sp'], None)
            return []
        if t.get('to') is None:
            self.panic(st, ctx, 'diverge:' + name, t['sp'], None)
            return []
        self.unknown[name] = self.unknown.get(name, 0) + 1
        self.unknown_at.setdefault(name, ctx)
        tok = self.fresh(st, ctx, bb, 'x')
        taint_key(tok)
        for i, (a, o) in enumerate(zip(args, t['args'])):
            ty = o[1][2] if o[0] in 'cm' else o[1]['t']
            self.havoc(st, a, ty, K('hv', kr(tok), i))
        v = self.mk(t['dst'][2], K('ret', kr(tok)))
        return self.finish(st, ctx, bb, t, v)

    def havoc(self, st, a, ty, key):
        tt = self.T[ty]
        if tt['k'] in ('ref', 'ptr') and tt.get('mut'):
            obj, path, sl = self.pointee(st, a)
            if obj == ('T',): return
            x = self.loadp(st, obj, path, sl)
            if sl is not None:
                self.store(st, (obj, path, sl), ('q', x[1], x[2], (('src', key, ZERO, x[2]),)) if x[0] == 'q' else x)
            elif x[0] in ('a', 's', 'e') and isinstance(x[1], int):
                self.store(st, (obj, path, None), self.mk(x[1], key))
            elif x[0] == 'i':
                self.store(st, (obj, path, None), self.mk(tt['of'], key))
            elif x[0] == 'b':
                self.store(st, (obj, path, None), self.mk(tt['of'], key))
            elif x[0] == 'v':
                ln = S(sym(('b', kr(K('len', kr(key)))), 0, (1 << 63) - 1))
                q = self.getobj(st, x[1])
                st.m[x[1]] = ('q', q[1], ln, (('src', key, ZERO, ln),))
            elif x[0] == 'q':
                self.store(st, (obj, path, None), ('q', x[1], x[2], (('src', key, ZERO, x[2]),)))

    # ------------------------------------------------------------ reporting
    def chain_of(self, ctx):
        out = []
        c = ctx
        while c is not None:
            i = self.p.insts[c.inst]
            if i['krate'] in ('mysql_connector', 'verif_fixture'):
                out.append(short(i['path']))
            c = c.parent
        return list(reversed(out))

    def where(self, ctx, sp):
        if sp: return '%s:%d' % (self.p.files[sp[0]], sp[1])
        return '?'

    def subj_site(self, ctx, sp):
        """innermost frame in the subject crate: (inst, span)"""
        c, s = ctx, sp
        while c is not None:
            i = self.p.insts[c.inst]
            if i['krate'] in ('mysql_connector', 'verif_fixture'):
                return c, s
            p = c.parent
            if p is None: break
            s = p.body.blocks[c.bb][1]['sp']
            c = p
        return ctx, sp

    def obligation(self, ctx, sp, kind):
        """count a check-worthy site, named by the subject frame it is executed for"""
        self.oblig.add((ctx.inst, ctx.parent.inst if ctx.parent is not None else -1, tuple(sp) if sp else None, kind))

    def panic(self, st, ctx, kind, sp, cond):
        if self.mon is not None:
            self.mon.on_panic(self, st, ctx, kind, sp, cond)

    def report(self, st, ctx, kind, msg, sp):
        if self.mon is not None:
            self.mon.on_report(self, st, ctx, kind, msg, sp)

THR_HI = [0, 1, 255, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1]
THR_LO = [0, -1, -128, -(1 << 31), -(1 << 63)]
_sd = {}
def shape_dist(a, b):
    key = (a, b)
    r = _sd.get(key)
    if r is None:
        da = dict(a - b); db = dict(b - a)
        r = 0
        for o in set(da) | set(db):
            r += _sdist(da[o], db[o]) if o in da and o in db else 20
        if len(_sd) > 200000: _sd.clear()
        _sd[key] = r
    return r

def _sdist(x, y):
    if x == y: return 0
    if type(x) is tuple and type(y) is tuple:
        if len(x) == len(y) and x and x[0] == y[0]:
            if x[0] == 'co' and x[2] != y[2]: return 100
            return sum(_sdist(p, q) for p, q in zip(x, y))
        if x and y and x[0] == 'c' or y and y[0] == 'c': return 1
        if x and y and x[0] == 'co' or y and y[0] == 'co': return 60
        n = max(len(x), len(y))
        return 2 if n <= 2 else 4 + n
    if type(x) is tuple and x and x[0] == 'c' or type(y) is tuple and y and y[0] == 'c': return 1
    if type(x) is int and type(y) is int: return 3
    return 5

def cosaved(v):
    return tuple(kv for kv in v[4] if kv[1][0] != 'top' and not (kv[1][0] == 'co' and kv[1][2] in (1, 2)))

def thr_hi(h):
    for x in THR_HI:
        if h <= x: return x
    return INF
def thr_lo(l):
    for x in THR_LO:
        if l >= x: return x
    return -INF

def short(p):
    import re
    p = p.replace('mysql_connector::', '')
    return p

def is_panic_fn(n):
    return ('panicking::' in n or n.startswith('std::rt::panic') or 'unwrap_failed' in n or 'expect_failed' in n
            or 'slice_index_fail' in n or 'slice_error_fail' in n or n.endswith('assert_failed') or 'len_mismatch_fail' in n
            or 'handle_error' in n or 'capacity_overflow' in n or 'panic_fmt' in n or 'begin_panic' in n
            or 'panic_display' in n or 'from_ascii_bytes_radix_panic' in n or 'copy_from_slice_impl::len_mismatch' in n)

_refs = {}
def refs_of(v):
    r = _refs.get(v)
    if r is None:
        out = set()
        st = [v]
        while st:
            x = st.pop()
            if type(x) is tuple and x:
                h = x[0]
                if h == 'lin' or h == 'k': continue
                if len(x) == 2 and h in ('H', 'O', 'W'): out.add(x); continue
                if len(x) == 3 and h == 'L' and type(x[1]) is int: out.add(x); continue
                st.extend(x)
        r = _refs[v] = frozenset(out)
    return r

_keys = {}
def keys_of(v):
    """opaque keys (and their ancestors) mentioned by a value"""
    r = _keys.get(v)
    if r is None:
        out = set()
        st = [v]
        while st:
            x = st.pop()
            if type(x) is tuple and x:
                h = x[0]
                if h == 's' and len(x) == 3 and type(x[2]) is int: out.add(x[2]); st.append(KINFO[x[2]][0]); continue
                if h == 'lin' and len(x) == 3: continue
                if h in ('f',) and len(x) == 2 and type(x[1]) is int: continue
                st.extend(x)
        r = _keys[v] = frozenset(out)
    return r

_syms = {}
_symdeps = {}
def sym_deps(s):
    r = _symdeps.get(s)
    if r is None:
        out = {s}
        st = [SKEY[s]]
        while st:
            x = st.pop()
            if type(x) is tuple and x:
                if x[0] == 'lin' and len(x) == 3:
                    for y, _ in x[2]: out |= sym_deps(y)
                    continue
                if x[0] == 'k' and len(x) == 2: continue
                st.extend(x)
        r = _symdeps[s] = frozenset(out)
    return r

def syms_of(v):
    r = _syms.get(v)
    if r is None:
        out = set()
        st = [v]
        while st:
            x = st.pop()
            if type(x) is tuple and x:
                if x[0] == 'lin' and len(x) == 3:
                    for s, _ in x[2]: out |= sym_deps(s)
                    continue
                if x[0] == 'k' and len(x) == 2: continue
                if x[0] == 's' and len(x) == 3 and type(x[2]) is int:
                    st.append(('dk', x[2]))
                    continue
                if x[0] == 'dk':
                    out.update(derived_syms(x[1]))
                    continue
                st.extend(x)
        r = frozenset(out)
        if not any_open(v): _syms[v] = r
    return r

def any_open(v):
    # values containing opaque parts can gain derived symbols later; do not cache them
    st = [v]
    while st:
        x = st.pop()
        if type(x) is tuple and x:
            if x[0] == 's' and len(x) == 3 and type(x[2]) is int: return True
            if x[0] == 'src': return True
            if x[0] == 'lin' and len(x) == 3: continue
            st.extend(x)
    return False

# symbols derived from an opaque key (fields, discriminants, elements)
_bykey = {}
_seen_syms = [0]
def derived_syms(key):
    n = len(SKEY)
    i = _seen_syms[0]
    while i < n:
        k = SKEY[i]
        if k[0] == 'b' and type(k[1]) is tuple and k[1][0] == 'k':
            # register under every ancestor key
            w = [k[1][1]]
            seen = set()
            while w:
                x = w.pop()
                if x in seen: continue
                seen.add(x)
                _bykey.setdefault(x, set()).add(i)
                for y in KINFO[x][0]:
                    if type(y) is tuple and len(y) == 2 and y[0] == 'k': w.append(y[1])
        i += 1
    _seen_syms[0] = n
    return _bykey.get(key, ())

def extend_live(live, f):
    """quotients and bit operations of live symbols are determined by them: keep what is known of them"""
    todo = [s for s in f.idx if s not in live and SKEY[s][0] in ('div', 'and', 'or', 'xor')]
    while todo:
        rest = []
        for s in todo:
            if all(d in live for d in sym_deps(s) if d != s): live.add(s)
            else: rest.append(s)
        if len(rest) == len(todo): break
        todo = rest

def multi_lens(v, out):
    """multi-term ends of slices / slice iterators held in v"""
    k = v[0]
    if k == 'l':
        if 1 < len(v[4][2]) <= 9: out.add(v[4][2])
    elif k == 'r':
        if v[2] and type(v[2][-1]) is tuple and v[2][-1][0] == 'x' and 1 < len(v[2][-1][1][2]) <= 9: out.add(v[2][-1][1][2])
    elif k in ('a', 'n'):
        for x in v[3]: multi_lens(x, out)
    elif k == 'e':
        for _, fs in v[3]:
            for x in fs: multi_lens(x, out)
