"""Native models of std / external functions (documented semantics), keyed by path."""
from .dom import *
from .absint import ukey, vint, vbool, is_panic_fn

EXACT = {}
SUFFIX = []
TRAIT = {}

def m(*names):
    def deco(f):
        for n in names: EXACT[n] = f
        return f
    return deco

def tm(trait, name):
    """model by trait method (any Self)"""
    def deco(f):
        TRAIT[(trait, name)] = f
        return f
    return deco

class Models:
    def __init__(self, extra=None):
        self.cache = {}
        self.extra = extra or {}
    def lookup(self, I, inst):
        iid = inst['id']
        r = self.cache.get(iid, 0)
        if r == 0:
            p = inst['path']
            r = self.extra.get(p) or EXACT.get(p)
            if r is None and p.startswith('core::'):
                r = EXACT.get('std::' + p[6:])
            if r is None and p.startswith('std::'):
                r = EXACT.get('core::' + p[5:])
            if r is None and inst.get('trait') and inst['krate'] not in ('mysql_connector', 'verif_fixture'):
                r = TRAIT.get((inst['trait'], inst['name']))
            if r is None and inst['kind'] == 'intrinsic':
                r = INTR.get(inst['name'])
            self.cache[iid] = r
        return r

# ---------------------------------------------------------------- helpers
def rty(t): return t['dst'][2]

def vidx(I, ty, name):
    for i, v in enumerate(I.T[ty]['variants']):
        if v[0] == name: return i
    raise KeyError(name)

def some(I, ty, v): return I.mkagg(ty, vidx(I, ty, 'Some'), (v,))
def none(I, ty): return I.mkagg(ty, vidx(I, ty, 'None'), ())
def ok(I, ty, v): return I.mkagg(ty, vidx(I, ty, 'Ok'), (v,))
def err(I, ty, v): return I.mkagg(ty, vidx(I, ty, 'Err'), (v,))
def ready(I, ty, v): return I.mkagg(ty, vidx(I, ty, 'Ready'), (v,))
def pendingv(I, ty): return I.mkagg(ty, vidx(I, ty, 'Pending'), ())
def payload_ty(I, ty, variant): return I.T[ty]['variants'][vidx(I, ty, variant)][2][0][1]

def fork(st, p):
    """-> (state where p holds or None, state where it does not or None)"""
    e = st.f.entails(p)
    if e is True: return st, None
    if e is False: return None, st
    a = st.copy()
    b = st
    try: a.f.assume(p)
    except Infeasible: a = None
    try: b.f.assume(neg(p))
    except Infeasible: b = None
    return a, b

def need(I, st, ctx, t, p, kind):
    """the call panics unless p; False when it certainly panics"""
    e = st.f.entails(p)
    I.obligation(ctx, t['sp'], kind)
    if e is True: return True
    I.panic(st, ctx, kind, t['sp'], neg(p))
    if e is False: return False
    try: st.f.assume(p)
    except Infeasible: return False
    return True

def load(I, st, v):
    obj, path, sl = I.pointee(st, v)
    return I.loadp(st, obj, path, sl)

def put(I, st, ref, val):
    I.store(st, I.pointee(st, ref), val)

def vec_of(I, st, ref):
    """heap object of the Vec behind &Vec / &mut Vec / Vec / String"""
    v = ref
    for _ in range(6):
        if v[0] == 'v': return v[1]
        if v[0] == 'r':
            v = load(I, st, v)
        elif v[0] == 's' and (I.T[v[1]]['k'] in ('ref', 'ptr') or I.T[v[1]].get('path') in I.TRANSP):
            v = load(I, st, v)
        else:
            return I.vec_obj(st, v) if v[0] in ('s', 'a') else None
    return None

def newvec(I, st, ctx, bb, elty, ln, segs, n=0):
    o = I.alloc(st, ctx, bb, ('q', elty, ln, tuple(segs)), n)
    return ('v', o)

def vec_elty(I, ty):
    t = I.T[ty]
    if I.is_vec(t): return t['args'][0]
    if t['s'] == 'std::string::String': return I.u8()
    return I.u8()

def mkstring(I, ty, v):
    return ('a', ty, 0, (v,))

def wrapvec(I, ty, v):
    return mkstring(I, ty, v) if I.T[ty]['s'] == 'std::string::String' else v

def append(I, st, obj, segs, ln):
    q = I.getobj(st, obj)
    st_q = ('q', q[1], add(q[2], ln), I.compact(q[3] + tuple(segs)))
    I.store(st, (obj, (), None), st_q)

def content(I, st, v):
    q = I.seq_of(st, v)
    if q is None: return None
    if v[0] == 'l' : return q
    return q

def opaque_seq(I, elty, key):
    ln = S(sym(('b', kr(K('len', kr(key)))), 0, (1 << 63) - 1))
    return ('q', elty, ln, (('src', key, ZERO, ln),))

def fresh_seq(I, st, ctx, bb, elty, n='q'):
    return opaque_seq(I, elty, K('sq', kr(I.fresh(st, ctx, bb, n))))

def const_bytes(q):
    if q is None: return None
    if not isconst(q[2]): return None
    out = b''
    for s in q[3]:
        if s[0] == 'k': out += s[1]
        elif s[0] == 'el' and s[1][0] == 'i' and isconst(s[1][1]) and 0 <= s[1][1][1] < 256: out += bytes([s[1][1][1]])
        elif s[0] == 'fill' and isconst(s[2]) and s[1][0] == 'i' and isconst(s[1][1]): out += bytes([s[1][1][1]]) * s[2][1]
        elif s[0] in ('le', 'be') and isconst(s[1]): out += s[1][1].to_bytes(s[2], 'little' if s[0] == 'le' else 'big')
        else: return None
    return out

def segs_eq(I, st, a, b):
    """three-valued equality of two sequences; returns a predicate"""
    le = p_eq(a[2], b[2])
    if st.f.entails(le) is False: return FALSE
    if a[3] == b[3] and a[2] == b[2]: return TRUE
    ca, cb = const_bytes(a), const_bytes(b)
    if ca is not None and cb is not None: return ('c', ca == cb)
    # element-wise over a short constant
    n = len(ca) if ca is not None else len(cb) if cb is not None else None
    if n is not None and n <= 16:
        p = le
        if isconst(a[2]) and isconst(b[2]) or True:
            for i in range(n):
                x, y = I.qget(st, a, C(i)), I.qget(st, b, C(i))
                if x[0] == 'i' and y[0] == 'i': p = p_and(p, p_eq(x[1], y[1]))
                else: p = None; break
            if p is not None: return p
    k = K('seqeq', a, b) if (a <= b if type(a) == type(b) else True) else K('seqeq', b, a)
    return p_and(le, ('ne', S(sym(('b', kr(k)), 0, 1))))

# ---------------------------------------------------------------- Box / Pin / Arc
@m('std::boxed::Box::<T>::new')
def box_new(I, st, ctx, bb, t, inst, a):
    return [(st, ('r', I.alloc(st, ctx, bb, a[0], 'box'), ()))]

@m('std::boxed::Box::<T>::pin')
def box_pin(I, st, ctx, bb, t, inst, a):
    return [(st, ('a', rty(t), 0, (('r', I.alloc(st, ctx, bb, a[0], 'box'), ()),)))]

@m('std::boxed::Box::<T>::new_uninit')
def box_uninit(I, st, ctx, bb, t, inst, a):
    bt = I.T[rty(t)]['args'][0]
    v = I.mk(bt, K('uninit', kr(I.fresh(st, ctx, bb, 'un'))))
    return [(st, ('r', I.alloc(st, ctx, bb, v, 'box'), ()))]

@m('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(I, st, ctx, bb, t, inst, a):
    v = load(I, st, a[0])
    while v[0] == 'a' and v[3]: v = v[3][0]
    if v[0] == 'q':
        return [(st, newvec(I, st, ctx, bb, v[1], v[2], v[3], 'biv'))]
    return None

@m('std::boxed::Box::<T>::into_inner', 'std::boxed::Box::<T, A>::into_inner')
def box_into_inner(I, st, ctx, bb, t, inst, a):
    return [(st, load(I, st, a[0]))]

@m('std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new')
def arc_new(I, st, ctx, bb, t, inst, a):
    return [(st, ('r', I.alloc(st, ctx, bb, a[0], 'arc'), ()))]

@m('<std::sync::Arc<T, A> as std::clone::Clone>::clone', '<std::rc::Rc<T, A> as std::clone::Clone>::clone')
def arc_clone(I, st, ctx, bb, t, inst, a):
    return [(st, load(I, st, a[0]))]

@m('<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref',
   '<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut',
   '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut')
def arc_deref(I, st, ctx, bb, t, inst, a):
    v = load(I, st, a[0])
    if v[0] in ('r', 'l'): return [(st, v)]
    obj, path, sl = I.pointee(st, v)
    return [(st, ('l', obj, path, sl[0], sl[1]) if sl else ('r', obj, path))]

# ---------------------------------------------------------------- raw memory
@m('std::ptr::read', 'core::ptr::read', 'std::ptr::read_volatile', 'std::ptr::read_unaligned', 'std::ptr::const_ptr::<impl *const T>::read',
   'std::ptr::mut_ptr::<impl *mut T>::read')
def ptr_read(I, st, ctx, bb, t, inst, a):
    return [(st, load(I, st, a[0]))]

@m('std::ptr::write', 'core::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write')
def ptr_write(I, st, ctx, bb, t, inst, a):
    put(I, st, a[0], a[1]); return [(st, I.UNIT)]

@m('std::mem::replace')
def mem_replace(I, st, ctx, bb, t, inst, a):
    old = load(I, st, a[0]); put(I, st, a[0], a[1]); return [(st, old)]

@m('std::mem::swap')
def mem_swap(I, st, ctx, bb, t, inst, a):
    x, y = load(I, st, a[0]), load(I, st, a[1])
    put(I, st, a[0], y); put(I, st, a[1], x); return [(st, I.UNIT)]

@m('std::mem::forget')
def mem_forget(I, st, ctx, bb, t, inst, a): return [(st, I.UNIT)]

@m('std::mem::ManuallyDrop::<T>::take')
def md_take(I, st, ctx, bb, t, inst, a):
    v = load(I, st, a[0])
    h = getattr(I.mon, 'on_md_take', None)
    if h: h(I, st, ctx, a[0], t['sp'])
    x = I.proj(st, v, 0)
    if x[0] == 'a' and I.T[x[1]].get('path', '').endswith('MaybeDangling'): x = x[3][0]
    return [(st, x)]

# ---------------------------------------------------------------- Vec
@m('std::vec::Vec::<T>::new', 'std::string::String::new')
def vec_new(I, st, ctx, bb, t, inst, a):
    ty = rty(t)
    return [(st, wrapvec(I, ty, newvec(I, st, ctx, bb, vec_elty(I, ty), ZERO, ())))]

@m('<std::vec::Vec<T> as std::default::Default>::default', '<std::string::String as std::default::Default>::default')
def vec_default(I, st, ctx, bb, t, inst, a): return vec_new(I, st, ctx, bb, t, inst, a)

@m('std::vec::Vec::<T>::with_capacity', 'std::string::String::with_capacity')
def vec_withcap(I, st, ctx, bb, t, inst, a):
    alloc_hook(I, st, ctx, t, a[0][1], vec_elty(I, rty(t)), 'with_capacity')
    return vec_new(I, st, ctx, bb, t, inst, a)

def alloc_hook(I, st, ctx, t, n, elty, what):
    h = getattr(I.mon, 'on_alloc', None)
    if h: h(I, st, ctx, n, elty, what, t['sp'])

@m('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact', 'std::string::String::reserve')
def vec_reserve(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    alloc_hook(I, st, ctx, t, a[1][1], I.getobj(st, o)[1] if o is not None else I.u8(), 'reserve')
    return [(st, I.UNIT)]

@m('std::vec::Vec::<T, A>::try_reserve', 'std::vec::Vec::<T, A>::try_reserve_exact', 'std::string::String::try_reserve', 'std::string::String::try_reserve_exact')
def vec_try_reserve(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    alloc_hook(I, st, ctx, t, a[1][1], I.getobj(st, o)[1] if o is not None else I.u8(), 'try_reserve')
    ty = t['dst'][2]
    s2 = st.copy()
    return [(s2, ok(I, ty, I.UNIT)), (st, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('tre', kr(I.fresh(st, ctx, bb, 'tre'))))))]

@m('std::vec::Vec::<T, A>::len', 'std::string::String::len')
def vec_len(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    n = I.getobj(st, o)[2]
    if st.f.bounds(n)[1] >= 1 << 63:
        # no allocation is larger than isize::MAX
        try: st.f.assume(p_le(n, C((1 << 63) - 1)))
        except Infeasible: return []
    return [(st, ('i', n))]

@m('std::vec::Vec::<T, A>::is_empty', 'std::string::String::is_empty')
def vec_isempty(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    return [(st, ('b', p_eq(I.getobj(st, o)[2], ZERO)))]

@m('std::vec::Vec::<T, A>::capacity')
def vec_cap(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    q = I.getobj(st, o)
    c = S(sym(('b', kr(K('cap', kr(I.fresh(st, ctx, bb, 'cap'))))), 0, (1 << 63) - 1))
    try: st.f.assume(p_le(q[2], c))
    except Infeasible: return []
    return [(st, ('i', c))]

@m('std::vec::Vec::<T, A>::push')
def vec_push(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    h = getattr(I.mon, 'on_push', None)
    if h: h(I, st, ctx, o, a[1], t['sp'])
    append(I, st, o, (('el', a[1], ONE),) if not (a[1][0] == 'i' and isconst(a[1][1]) and 0 <= a[1][1][1] < 256 and I.getobj(st, o)[1] == I.u8()) else (('k', bytes([a[1][1][1]]), ONE),), ONE)
    return [(st, I.UNIT)]

@m('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def vec_clear(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    q = I.getobj(st, o)
    I.store(st, (o, (), None), ('q', q[1], ZERO, ()))
    h = getattr(I.mon, 'on_vec_op', None)
    if h: h(I, st, ctx, 'clear', o, q, None, t['sp'])
    return [(st, I.UNIT)]

@m('std::vec::Vec::<T, A>::truncate')
def vec_truncate(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    q = I.getobj(st, o)
    n = a[1][1]
    outs = []
    x, y = fork(st, p_le(q[2], n))
    h = getattr(I.mon, 'on_vec_op', None)
    if y is not None:
        I.store(y, (o, (), None), I.qsub(y, q, ZERO, n)); outs.append((y, I.UNIT))
        if h: h(I, y, ctx, 'truncate', o, q, n, t['sp'])
    if x is not None: outs.append((x, I.UNIT))
    return outs

@m('std::vec::Vec::<T, A>::set_len')
def vec_setlen(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    q = I.getobj(st, o)
    n = a[1][1]
    h = getattr(I.mon, 'on_vec_op', None)
    if h: h(I, st, ctx, 'set_len', o, q, n, t['sp'])
    if st.f.entails(p_le(n, q[2])):
        I.store(st, (o, (), None), I.qsub(st, q, ZERO, n))
    else:
        extra = sub(n, q[2])
        I.store(st, (o, (), None), ('q', q[1], n, q[3] + (('src', K('setlen', kr(I.fresh(st, ctx, bb, 'sl'))), ZERO, extra),)))
    return [(st, I.UNIT)]

@m('std::vec::Vec::<T, A>::shrink_to', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::string::String::shrink_to_fit')
def vec_shrink(I, st, ctx, bb, t, inst, a):
    h = getattr(I.mon, 'on_vec_op', None)
    if h:
        o = vec_of(I, st, a[0])
        h(I, st, ctx, 'shrink', o, I.getobj(st, o) if o else None, a[1][1] if len(a) > 1 else ZERO, t['sp'])
    return [(st, I.UNIT)]

@m('std::vec::Vec::<T, A>::resize')
def vec_resize(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    q = I.getobj(st, o)
    n = a[1][1]
    outs = []
    x, y = fork(st, p_le(q[2], n))
    if x is not None:
        d = sub(n, q[2])
        alloc_hook(I, x, ctx, t, d, q[1], 'resize')
        I.store(x, (o, (), None), ('q', q[1], n, I.compact(q[3] + (('fill', a[2], d),)))); outs.append((x, I.UNIT))
    if y is not None:
        I.store(y, (o, (), None), I.qsub(y, q, ZERO, n)); outs.append((y, I.UNIT))
    return outs

@m('std::vec::from_elem')
def vec_from_elem(I, st, ctx, bb, t, inst, a):
    n = a[1][1]
    el = vec_elty(I, rty(t))
    alloc_hook(I, st, ctx, t, n, el, 'vec![_; n]')
    return [(st, newvec(I, st, ctx, bb, el, n, (('fill', a[0], n),) if n != ZERO else ()))]

@m('std::vec::Vec::<T, A>::extend_from_slice', 'std::string::String::push_str', '<std::string::String as std::ops::AddAssign<&str>>::add_assign')
def vec_extend(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    q = content(I, st, a[1])
    if o is None or q is None: return None
    if any_heap(q): q = opaque_seq(I, q[1], K('cl', q[3]))
    append(I, st, o, q[3], q[2])
    return [(st, I.UNIT)]

@m('<std::string::String as std::ops::Add<&str>>::add')
def string_add(I, st, ctx, bb, t, inst, a):
    vec_extend(I, st, ctx, bb, t, inst, a)
    return [(st, a[0])]

@m('<bytes::BytesMut as bytes::BufMut>::put_slice', '<std::vec::Vec<u8> as bytes::buf::buf_mut::BufMut>::put_slice', 'bytes::buf::buf_mut::BufMut::put_slice', 'bytes::buf::buf_mut::BufMut::put')
def buf_put_slice(I, st, ctx, bb, t, inst, a):
    return vec_extend(I, st, ctx, bb, t, inst, a)

def mk_put(n, big=False, signed=False, flt=False):
    def f(I, st, ctx, bb, t, inst, a):
        o = vec_of(I, st, a[0])
        if o is None: return None
        if flt:
            q = ('q', I.u8(), C(n), (('src', K('fbytes', a[1]), ZERO, C(n)),))
            append(I, st, o, q[3], C(n)); return [(st, I.UNIT)]
        l = I.toint(st, a[1])
        if signed: l = tounsigned(I, st, l, n)
        if n == 1:
            append(I, st, o, (('k', bytes([l[1]]), ONE),) if isconst(l) else (('el', ('i', l), ONE),), ONE)
        else:
            append(I, st, o, (int_seg(l, n, big),), C(n))
        return [(st, I.UNIT)]
    return f

def tounsigned(I, st, l, n):
    lo, hi = st.f.bounds(l)
    if lo >= 0: return l
    if hi < 0: return addc(l, 1 << (8 * n))
    if isconst(l): return C(l[1] % (1 << (8 * n)))
    return S(sym(('wrap', 0, (1 << (8 * n)) - 1, l), 0, (1 << (8 * n)) - 1))

def tosigned(I, st, l, n):
    lo, hi = st.f.bounds(l)
    half = 1 << (8 * n - 1)
    if hi < half: return l
    if lo >= half: return addc(l, -(1 << (8 * n)))
    if l[1] == 0 and len(l[2]) == 1 and l[2][0][1] == 1:
        k = SKEY[l[2][0][0]]
        if k[0] == 'wrap' and k[2] == (1 << (8 * n)) - 1:
            b = st.f.bounds(k[3])
            if b[0] >= -half and b[1] < half: return k[3]
    return S(sym(('wrap', -half, half - 1, l), -half, half - 1))

def int_seg(l, n, big=False):
    if isconst(l): return ('k', (l[1] % (1 << (8 * n))).to_bytes(n, 'big' if big else 'little'), C(n))
    return ('be' if big else 'le', l, n, C(n))

for nm, n in (('u8', 1), ('u16', 2), ('u32', 4), ('u64', 8), ('u128', 16)):
    EXACT['bytes::buf::buf_mut::BufMut::put_%s' % nm + ('_le' if n > 1 else '')] = mk_put(n)
    EXACT['bytes::buf::buf_mut::BufMut::put_i%d' % (n * 8) + ('_le' if n > 1 else '')] = mk_put(n, signed=True)
    if n > 1:
        EXACT['bytes::buf::buf_mut::BufMut::put_%s' % nm] = mk_put(n, True)
        EXACT['bytes::buf::buf_mut::BufMut::put_i%d' % (n * 8)] = mk_put(n, True, True)
EXACT['bytes::buf::buf_mut::BufMut::put_f32_le'] = mk_put(4, flt=True)
EXACT['bytes::buf::buf_mut::BufMut::put_f64_le'] = mk_put(8, flt=True)

@m('bytes::buf::buf_mut::BufMut::put_bytes')
def put_bytes(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    n = a[2][1]
    append(I, st, o, (('fill', a[1], n),), n)
    return [(st, I.UNIT)]

def mk_put_uint(big, signed=False):
    def f(I, st, ctx, bb, t, inst, a):
        o = vec_of(I, st, a[0])
        n = st.f.const(a[2][1])
        if o is None or n is None: return None
        if not need(I, st, ctx, t, p_le(C(n), C(8)), 'put_uint width'): return []
        l = tounsigned(I, st, a[1][1], 8) if signed else a[1][1]
        if n < 8:
            l = d_rem(st.f, l, 1 << (8 * n))     # truncates
        append(I, st, o, (int_seg(l, n, big),), C(n))
        return [(st, I.UNIT)]
    return f
EXACT['bytes::buf::buf_mut::BufMut::put_uint_le'] = mk_put_uint(False)
EXACT['bytes::buf::buf_mut::BufMut::put_uint'] = mk_put_uint(True)
EXACT['bytes::buf::buf_mut::BufMut::put_int_le'] = mk_put_uint(False, True)
EXACT['bytes::buf::buf_mut::BufMut::put_int'] = mk_put_uint(True, True)

def any_heap(q):
    for s in q[3]:
        if s[0] in ('el', 'fill') and has_vec(s[1]): return True
    return False

def has_vec(v):
    if type(v) is not tuple or not v: return False
    if v[0] == 'v': return True
    if v[0] in ('a',): return any(has_vec(x) for x in v[3])
    return False

def deep_clone(I, st, ctx, bb, v, n=()):
    if v[0] == 'v':
        q = I.getobj(st, v[1])
        segs = []
        for i, s in enumerate(q[3]):
            if s[0] == 'el': segs.append(('el', deep_clone(I, st, ctx, bb, s[1], n + (i,)), ONE))
            else: segs.append(s)
        return newvec(I, st, ctx, bb, q[1], q[2], segs, ('cl', n))
    if v[0] == 's':
        t = I.T[v[1]]
        if I.is_vec(t):
            o = I.vec_obj(st, v)
            return deep_clone(I, st, ctx, bb, ('v', o), n)
        if t.get('path') == 'std::boxed::Box': return v
        if t['k'] == 'struct':
            return deep_clone(I, st, ctx, bb, I.expand(v), n)
        return v
    if v[0] == 'a' and v[3]:
        return ('a', v[1], v[2], tuple(deep_clone(I, st, ctx, bb, x, n + (i,)) for i, x in enumerate(v[3])))
    return v

@m('<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<std::string::String as std::clone::Clone>::clone',
   'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec',
   'std::str::<impl std::borrow::ToOwned for str>::to_owned', '<std::string::String as std::convert::From<&str>>::from',
   '<std::vec::Vec<T> as std::convert::From<&[T]>>::from', '<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from',
   '<str as std::string::ToString>::to_string', '<std::string::String as std::string::ToString>::to_string',
   '<T as std::string::SpecToString>::spec_to_string', '<str as std::string::SpecToString>::spec_to_string',
   '<std::boxed::Box<[T]> as std::convert::From<std::vec::Vec<T>>>::from')
def to_vec(I, st, ctx, bb, t, inst, a):
    q = content(I, st, a[0])
    if q is None: return None
    alloc_hook(I, st, ctx, t, q[2], q[1], 'to_vec')
    segs = []
    for i, s in enumerate(q[3]):
        if s[0] == 'el' and has_vec(s[1]): segs.append(('el', deep_clone(I, st, ctx, bb, s[1], (i,)), ONE))
        else: segs.append(s)
    ty = rty(t)
    return [(st, wrapvec(I, ty, newvec(I, st, ctx, bb, q[1], q[2], segs)))]

@m('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
   '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut',
   'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice',
   '<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', 'std::string::String::as_bytes',
   '<std::string::String as std::convert::AsRef<[u8]>>::as_ref', '<std::string::String as std::convert::AsRef<str>>::as_ref',
   '<std::string::String as std::borrow::Borrow<str>>::borrow', '<std::vec::Vec<T> as std::borrow::Borrow<[T]>>::borrow',
   'std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref', 'std::array::<impl std::convert::AsMut<[T]> for [T; N]>::as_mut',
   'core::array::<impl [T; N]>::as_slice',  'core::str::<impl str>::as_bytes', 'core::str::<impl str>::as_bytes_mut',
   'std::str::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked', 'std::string::String::as_mut_str',
   'std::array::<impl std::borrow::Borrow<[T]> for [T; N]>::borrow', 'core::array::<impl [T; N]>::as_mut_slice',
   'core::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref', 'std::string::String::as_mut_vec')
def as_slice_m(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    return [(st, s)]

@m('std::string::String::into_bytes', 'std::string::String::from_utf8_unchecked', 'std::string::String::into_boxed_str', 'std::vec::Vec::<T, A>::into_boxed_slice')
def into_bytes(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    return [(st, wrapvec(I, rty(t), ('v', o)))]

@m('std::vec::Vec::<T, A>::swap_remove', 'std::vec::Vec::<T, A>::remove')
def vec_swap_remove(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    q = I.getobj(st, o)
    i = a[1][1]
    if not need(I, st, ctx, t, p_lt(i, q[2]), 'index:' + inst['name']): return []
    v = I.qget(st, q, i)
    last = addc(q[2], -1)
    if inst['name'] == 'swap_remove':
        e = st.f.entails(p_eq(i, last))
        if e is not True:
            q2 = I.qset(st, q, i, I.qget(st, q, last))
        else: q2 = q
        nq = I.qsub(st, q2, ZERO, last)
    else:
        r = I.split(st, q, i)
        r2 = I.split(st, ('q', q[1], sub(q[2], i), r[1]), ONE) if r else None
        nq = ('q', q[1], last, I.compact(r[0] + r2[1])) if r2 else opaque_len(I, st, ctx, bb, q[1], last)
    I.store(st, (o, (), None), nq)
    return [(st, v)]

def opaque_len(I, st, ctx, bb, elty, ln, n='ol'):
    return ('q', elty, ln, (('src', K('ol', kr(I.fresh(st, ctx, bb, n))), ZERO, ln),))

@m('std::vec::Vec::<T, A>::pop')
def vec_pop(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    q = I.getobj(st, o)
    ty = rty(t)
    outs = []
    x, y = fork(st, p_eq(q[2], ZERO))
    if x is not None: outs.append((x, none(I, ty)))
    if y is not None:
        last = addc(q[2], -1)
        v = I.qget(y, q, last)
        I.store(y, (o, (), None), I.qsub(y, q, ZERO, last))
        outs.append((y, some(I, ty, v)))
    return outs

@m('std::vec::Vec::<T, A>::append')
def vec_append(I, st, ctx, bb, t, inst, a):
    o, o2 = vec_of(I, st, a[0]), vec_of(I, st, a[1])
    if o is None or o2 is None: return None
    q = I.getobj(st, o2)
    append(I, st, o, q[3], q[2])
    I.store(st, (o2, (), None), ('q', q[1], ZERO, ()))
    return [(st, I.UNIT)]

@m('std::vec::Vec::<T, A>::insert')
def vec_insert(I, st, ctx, bb, t, inst, a):
    o = vec_of(I, st, a[0])
    if o is None: return None
    q = I.getobj(st, o)
    if not need(I, st, ctx, t, p_le(a[1][1], q[2]), 'index:insert'): return []
    r = I.split(st, q, a[1][1])
    n = addc(q[2], 1)
    if r: nq = ('q', q[1], n, I.compact(r[0] + (('el', a[2], ONE),) + r[1]))
    else: nq = opaque_len(I, st, ctx, bb, q[1], n)
    I.store(st, (o, (), None), nq)
    return [(st, I.UNIT)]

# ---------------------------------------------------------------- slices
def slice_arg(I, st, v): return I.as_slice(st, v)

def elem_ref(s, idx): return ('r', s[1], s[2] + (('x', add(s[3], idx)),))

def subslice(s, a, b): return ('l', s[1], s[2], add(s[3], a), sub(b, a))

def rng_bounds(I, st, r, ln):
    """-> (start, end) for a range-typed index value"""
    if r[0] == 's': r = I.expand(r)
    if r[0] != 'a': return None
    nm = I.T[r[1]].get('path', '')
    f = r[3]
    nm = nm.rsplit('::', 1)[-1]
    if nm == 'Range': return f[0][1], f[1][1]
    if nm == 'RangeFrom': return f[0][1], ln
    if nm == 'RangeTo': return ZERO, f[0][1]
    if nm == 'RangeFull': return ZERO, ln
    if nm == 'RangeInclusive': return f[0][1], addc(f[1][1], 1)
    if nm == 'RangeToInclusive': return ZERO, addc(f[0][1], 1)
    return None

@m('core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
   '<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
   'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut',
   'core::str::traits::<impl std::ops::Index<I> for str>::index', '<std::string::String as std::ops::Index<I>>::index')
def index(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    ln = s[4]
    if a[1][0] == 'i':
        if not need(I, st, ctx, t, p_lt(a[1][1], ln), 'index'): return []
        return [(st, elem_ref(s, a[1][1]))]
    b = rng_bounds(I, st, a[1], ln)
    if b is None: return None
    lo, hi = b
    if not need(I, st, ctx, t, p_le(hi, ln), 'slice_end'): return []
    if not need(I, st, ctx, t, p_le(lo, hi), 'slice_order'): return []
    if ' str>' in inst['path'] or 'String' in inst['path']:
        for x in (lo, hi):
            if not char_boundary(I, st, s, x):
                I.panic(st, ctx, 'char_boundary', t['sp'], None)
                break
    return [(st, subslice(s, lo, hi))]

def char_boundary(I, st, s, x):
    if x == ZERO or x == s[4] or st.f.entails(p_eq(x, ZERO)) or st.f.entails(p_eq(x, s[4])): return True
    # byte position produced by a byte search for an ASCII byte / known ascii prefix
    q = I.loadp(st, s[1], s[2], (s[3], s[4]))
    if q[0] == 'q':
        r = I.locate(st, q[3], x)
        if r is not None:
            v = I.segget(st, q, q[3][r[0]], r[1])
            if v[0] == 'i':
                lo, hi = st.f.bounds(v[1])
                if hi < 0x80: return True
        if r is not None and x != ZERO:
            v = I.qget(st, q, addc(x, -1))
            if v[0] == 'i' and st.f.bounds(v[1])[1] < 0x80: return True
    return False

@m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def slice_get(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    ty = rty(t)
    if a[1][0] == 'i':
        x, y = fork(st, p_lt(a[1][1], s[4]))
        outs = []
        if x is not None: outs.append((x, some(I, ty, elem_ref(s, a[1][1]))))
    else:
        b = rng_bounds(I, st, a[1], s[4])
        if b is None: return None
        x, y = fork(st, p_and(p_le(b[0], b[1]), p_le(b[1], s[4])))
        outs = []
        if x is not None: outs.append((x, some(I, ty, subslice(s, b[0], b[1]))))
    if y is not None: outs.append((y, none(I, ty)))
    return outs

@m('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def get_unchecked(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None or a[1][0] != 'i': return None
    if st.f.entails(p_lt(a[1][1], s[4])) is not True:
        I.report(st, ctx, 'oob', 'get_unchecked may be out of range', t['sp'])
    return [(st, elem_ref(s, a[1][1]))]

@m('core::slice::<impl [T]>::len', 'core::str::<impl str>::len')
def slice_len(I, st, ctx, bb, t, inst, a):
    return [(st, ('i', I.slice_len(st, a[0])))]

@m('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty')
def slice_empty(I, st, ctx, bb, t, inst, a):
    return [(st, ('b', p_eq(I.slice_len(st, a[0]), ZERO)))]

@m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def slice_first(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    x, y = fork(st, p_eq(s[4], ZERO))
    outs = []
    if x is not None: outs.append((x, none(I, rty(t))))
    if y is not None: outs.append((y, some(I, rty(t), elem_ref(s, ZERO if 'first' in inst['name'] else addc(s[4], -1)))))
    return outs

@m('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def split_first(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    x, y = fork(st, p_eq(s[4], ZERO))
    outs = []
    if x is not None: outs.append((x, none(I, rty(t))))
    if y is not None:
        tup = payload_ty(I, rty(t), 'Some')
        if inst['name'] == 'split_first': pr = (elem_ref(s, ZERO), subslice(s, ONE, s[4]))
        else: pr = (elem_ref(s, addc(s[4], -1)), subslice(s, ZERO, addc(s[4], -1)))
        outs.append((y, some(I, rty(t), ('a', tup, 0, pr))))
    return outs

@m('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::str::<impl str>::split_at')
def split_at(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    n = a[1][1]
    if not need(I, st, ctx, t, p_le(n, s[4]), 'split_at'): return []
    if 'str' in inst['path'] and not char_boundary(I, st, s, n):
        I.panic(st, ctx, 'char_boundary', t['sp'], None)
    return [(st, ('a', rty(t), 0, (subslice(s, ZERO, n), subslice(s, n, s[4]))))]

@m('core::slice::<impl [T]>::split_at_checked', 'core::slice::<impl [T]>::split_at_mut_checked')
def split_at_checked(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    n = a[1][1]
    ty = rty(t)
    x, y = fork(st, p_le(n, s[4]))
    outs = []
    if x is not None: outs.append((x, some(I, ty, ('a', payload_ty(I, ty, 'Some'), 0, (subslice(s, ZERO, n), subslice(s, n, s[4]))))))
    if y is not None: outs.append((y, none(I, ty)))
    return outs

@m('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(I, st, ctx, bb, t, inst, a):
    d, s = I.as_slice(st, a[0]), I.as_slice(st, a[1])
    q = content(I, st, a[1])
    if d is None or q is None: return None
    if not need(I, st, ctx, t, p_eq(d[4], s[4]), 'copy_from_slice'): return []
    I.store(st, (d[1], d[2], (d[3], d[4])), q)
    return [(st, I.UNIT)]

@m('core::slice::<impl [T]>::fill')
def slice_fill(I, st, ctx, bb, t, inst, a):
    d = I.as_slice(st, a[0])
    if d is None: return None
    I.store(st, (d[1], d[2], (d[3], d[4])), ('q', I.u8(), d[4], (('fill', a[1], d[4]),)))
    return [(st, I.UNIT)]

@m('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def starts_with(I, st, ctx, bb, t, inst, a):
    s, q = I.as_slice(st, a[0]), content(I, st, a[1])
    if s is None or q is None: return None
    x, y = fork(st, p_le(q[2], s[4]))
    outs = []
    if y is not None: outs.append((y, vbool(False)))
    if x is not None:
        lo = ZERO if inst['name'] == 'starts_with' else sub(s[4], q[2])
        part = content(I, x, subslice(s, lo, add(lo, q[2])))
        outs.append((x, ('b', segs_eq(I, x, part, q))))
    return outs

def str_pat(I, st, v):
    """bytes of a constant pattern: &str or char"""
    if v[0] == 'i': 
        return chr(v[1][1]).encode() if isconst(v[1]) else None
    q = content(I, st, v)
    return const_bytes(q)

@m('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with')
def str_starts_with(I, st, ctx, bb, t, inst, a):
    p = str_pat(I, st, a[1])
    s = I.as_slice(st, a[0])
    if p is None or s is None: return [(st, I.mk(rty(t), K('pat', kr(I.fresh(st, ctx, bb)))))]
    x, y = fork(st, p_le(C(len(p)), s[4]))
    outs = []
    if y is not None: outs.append((y, vbool(False)))
    if x is not None:
        lo = ZERO if inst['name'] == 'starts_with' else addc(s[4], -len(p))
        part = content(I, x, subslice(s, lo, addc(lo, len(p))))
        outs.append((x, ('b', segs_eq(I, x, part, kq(I, p)))))
    return outs

def kq(I, b): return ('q', I.u8(), C(len(b)), (('k', b, C(len(b))),) if b else ())

@m('core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix', 'core::slice::<impl [T]>::strip_prefix', 'core::slice::<impl [T]>::strip_suffix')
def strip_prefix(I, st, ctx, bb, t, inst, a):
    p = str_pat(I, st, a[1])
    s = I.as_slice(st, a[0])
    if p is None or s is None: return None
    ty = rty(t)
    x, y = fork(st, p_le(C(len(p)), s[4]))
    outs = []
    if y is not None: outs.append((y, none(I, ty)))
    if x is not None:
        pre = 'prefix' in inst['name']
        lo = ZERO if pre else addc(s[4], -len(p))
        part = content(I, x, subslice(s, lo, addc(lo, len(p))))
        u, w = fork(x, segs_eq(I, x, part, kq(I, p)))
        if u is not None: outs.append((u, some(I, ty, subslice(s, C(len(p)), s[4]) if pre else subslice(s, ZERO, lo))))
        if w is not None: outs.append((w, none(I, ty)))
    return outs

@m('core::str::traits::<impl std::cmp::PartialEq for str>::eq', 'std::string::<impl std::cmp::PartialEq<std::string::String> for &str>::eq',
   'std::string::<impl std::cmp::PartialEq<&str> for std::string::String>::eq', 'std::string::<impl std::cmp::PartialEq<str> for std::string::String>::eq',
   '<std::string::String as std::cmp::PartialEq>::eq', 'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq',
   'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq', 'std::vec::partial_eq::<impl std::cmp::PartialEq<&[U]> for std::vec::Vec<T, A>>::eq',
   'std::vec::partial_eq::<impl std::cmp::PartialEq<[U; N]> for std::vec::Vec<T, A>>::eq', 'std::vec::partial_eq::<impl std::cmp::PartialEq<&[U; N]> for std::vec::Vec<T, A>>::eq',
   'core::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq', 'core::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq',
   'core::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq', 'std::vec::partial_eq::<impl std::cmp::PartialEq<[U]> for std::vec::Vec<T, A>>::eq')
def seq_eq(I, st, ctx, bb, t, inst, a):
    x, y = content(I, st, a[0]), content(I, st, a[1])
    if x is None or y is None: return None
    if x[1] != I.u8() and I.T[x[1]]['k'] not in ('uint', 'int', 'char', 'bool'):
        return None
    return [(st, ('b', segs_eq(I, st, x, y)))]

@m('core::slice::<impl [T]>::contains')
def slice_contains(I, st, ctx, bb, t, inst, a):
    q = content(I, st, a[0])
    if q is None: return None
    x = load(I, st, a[1])
    n = st.f.const(q[2])
    if n is not None and n <= 32 and x[0] == 'i':
        p = FALSE
        for i in range(n):
            y = I.qget(st, q, C(i))
            if y[0] != 'i': return None
            p = p_or(p, p_eq(x[1], y[1]))
        return [(st, ('b', p))]
    return [(st, I.mk(rty(t), K('contains', kr(I.fresh(st, ctx, bb)))))]

# ---------------------------------------------------------------- iterators
@m('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
   'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter',
   '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', '<&\'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
   '<&std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', 'core::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter',
   'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter')
def slice_iter(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    return [(st, mk_iter(I, rty(t), s))]

def mk_iter(I, ty, s):
    """slice::Iter / IterMut over the slice s, as its (ptr, end) pair"""
    fs = []
    for n, f in I.T[ty]['variants'][0][2]:
        if n == 'ptr': fs.append(elem_ref(s, ZERO))
        elif n == 'end_or_len': fs.append(elem_ref(s, s[4]))
        else: fs.append(I.mk(f, K('zst', f)))
    return ('a', ty, 0, tuple(fs))

@m('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def vec_into_iter(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    return [(st, ('n', 'into', (), (vint(0), ('i', s[4]), s)))]

@m('std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter', 'core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def array_into_iter(I, st, ctx, bb, t, inst, a):
    v = I.expand(a[0]) if a[0][0] == 's' else a[0]
    if v[0] != 'q': return None
    o = I.alloc(st, ctx, bb, v)
    return [(st, ('n', 'into', (), (vint(0), ('i', v[2]), ('l', o, (), ZERO, v[2]))))]

def nat(I, st, ref, kinds):
    v = load(I, st, ref) if ref[0] == 'r' else ref
    if v[0] == 'n' and v[1] in kinds: return v
    return None

def iter_parts(I, st, ref):
    """-> (base obj, base path, start, end, rebuild(start,end)) of a slice iterator"""
    v = load(I, st, ref) if ref[0] == 'r' else ref
    if v[0] == 's': v = I.expand(v)
    if v[0] != 'a' or len(v[3]) < 2: return None
    p, e = v[3][0], v[3][1]
    if p[0] != 'r' or e[0] != 'r' or p[1] != e[1] or not p[2] or not e[2]: return None
    if p[2][:-1] != e[2][:-1] or type(p[2][-1]) is not tuple or p[2][-1][0] != 'x': return None
    base = p[2][:-1]
    def mkv(x, y):
        return ('a', v[1], 0, (('r', p[1], base + (('x', x),)), ('r', p[1], base + (('x', y),))) + v[3][2:])
    return p[1], base, p[2][-1][1], e[2][-1][1], mkv

@m('<std::slice::Iter<\'a, T> as std::iter::Iterator>::next', '<std::slice::IterMut<\'a, T> as std::iter::Iterator>::next',
   '<std::slice::Iter<\'a, T> as std::iter::DoubleEndedIterator>::next_back', '<std::slice::IterMut<\'a, T> as std::iter::DoubleEndedIterator>::next_back')
def iter_next(I, st, ctx, bb, t, inst, a):
    p = iter_parts(I, st, a[0])
    if p is None: return None
    obj, base, i, e, mkv = p
    ty = rty(t)
    x, y = fork(st, p_lt(i, e))
    outs = []
    if x is not None:
        if inst['name'] == 'next':
            k = i; nv = mkv(addc(i, 1), e)
        else:
            k = addc(e, -1); nv = mkv(i, k)
        put(I, x, a[0], nv)
        outs.append((x, some(I, ty, ('r', obj, base + (('x', k),)))))
    if y is not None:
        outs.append((y, none(I, ty)))
    return outs

@m('<std::array::IntoIter<T, N> as std::iter::Iterator>::next', '<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back',
   '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', '<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back')
def into_next(I, st, ctx, bb, t, inst, a):
    v = nat(I, st, a[0], ('into',))
    if v is None: return None
    i, e, s = v[3]
    ty = rty(t)
    x, y = fork(st, p_lt(i[1], e[1]))
    outs = []
    if x is not None:
        if inst['name'] == 'next':
            k = i[1]; nv = ('n', v[1], v[2], (('i', addc(i[1], 1)), e, s))
        else:
            k = addc(e[1], -1); nv = ('n', v[1], v[2], (i, ('i', k), s))
        put(I, x, a[0], nv)
        outs.append((x, some(I, ty, load(I, x, elem_ref(s, k)))))
    if y is not None:
        outs.append((y, none(I, ty)))
    return outs

@m('<std::slice::Iter<\'_, T> as std::iter::ExactSizeIterator>::len', 'std::iter::ExactSizeIterator::len')
def iter_len(I, st, ctx, bb, t, inst, a):
    p = iter_parts(I, st, a[0])
    if p: return [(st, ('i', sub(p[3], p[2])))]
    v = nat(I, st, a[0], ('into',))
    if v is None: return None
    return [(st, ('i', sub(v[3][1][1], v[3][0][1])))]

@m('<std::slice::Iter<\'_, T> as std::clone::Clone>::clone')
def iter_clone(I, st, ctx, bb, t, inst, a):
    v = load(I, st, a[0])
    return [(st, v)] if v[0] == 'a' else None

@m('<std::slice::Iter<\'a, T> as std::iter::Iterator>::size_hint', '<std::slice::IterMut<\'a, T> as std::iter::Iterator>::size_hint', '<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint')
def iter_size_hint(I, st, ctx, bb, t, inst, a):
    r = iter_len(I, st, ctx, bb, t, inst, a)
    if r is None: return None
    l = r[0][1]
    tt = I.T[rty(t)]['elems']
    return [(st, ('a', rty(t), 0, (l, some(I, tt[1], l))))]

@m('<std::slice::Iter<\'a, T> as std::iter::Iterator>::__iterator_get_unchecked', '<std::slice::IterMut<\'a, T> as std::iter::Iterator>::__iterator_get_unchecked')
def iter_get_unchecked(I, st, ctx, bb, t, inst, a):
    p = iter_parts(I, st, a[0])
    if p is None: return None
    return [(st, ('r', p[0], p[1] + (('x', add(p[2], a[1][1])),)))]

@m('std::slice::Iter::<\'a, T>::as_slice')
def iter_as_slice(I, st, ctx, bb, t, inst, a):
    p = iter_parts(I, st, a[0])
    if p is None: return None
    return [(st, ('l', p[0], p[1], p[2], sub(p[3], p[2])))]

def def_of(x): return x

@m('<std::ops::Range<A> as std::iter::Iterator>::next', 'std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next',
   'std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def range_next(I, st, ctx, bb, t, inst, a):
    v = load(I, st, a[0])
    if v[0] == 's': v = I.expand(v)
    if v[0] != 'a' or v[3][0][0] != 'i': return None
    i, e = v[3]
    ty = rty(t)
    x, y = fork(st, p_lt(i[1], e[1]))
    outs = []
    if x is not None:
        if inst['name'] == 'next': put(I, x, a[0], ('a', v[1], 0, (('i', addc(i[1], 1)), e))); r = i
        else: r = ('i', addc(e[1], -1)); put(I, x, a[0], ('a', v[1], 0, (i, r)))
        outs.append((x, some(I, ty, r)))
    if y is not None: outs.append((y, none(I, ty)))
    return outs

@m('core::slice::<impl [T]>::chunks')
def chunks(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    if not need(I, st, ctx, t, p_ne(a[1][1], ZERO), 'chunks of size zero'): return []
    return [(st, ('a', rty(t), 0, (s, a[1])))]

@m('<std::slice::Chunks<\'a, T> as std::iter::Iterator>::next')
def chunks_next(I, st, ctx, bb, t, inst, a):
    v = load(I, st, a[0])
    if v[0] != 'a' or v[3][0][0] != 'l': return None
    s, n = v[3]
    ty = rty(t)
    x, y = fork(st, p_ne(s[4], ZERO))
    outs = []
    if x is not None:
        u, w = fork(x, p_le(n[1], s[4]))
        if u is not None:
            put(I, u, a[0], ('a', v[1], 0, (subslice(s, n[1], s[4]), n)))
            outs.append((u, some(I, ty, subslice(s, ZERO, n[1]))))
        if w is not None:
            put(I, w, a[0], ('a', v[1], 0, (subslice(s, s[4], s[4]), n)))
            outs.append((w, some(I, ty, s)))
    if y is not None: outs.append((y, none(I, ty)))
    return outs

@m('core::str::<impl str>::chars', 'core::str::<impl str>::bytes')
def chars(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    ty = rty(t)
    # innermost slice::Iter type
    def build(ty):
        if I.T[ty].get('path') == 'std::slice::Iter': return mk_iter(I, ty, s)
        return ('a', ty, 0, tuple(build(f[1]) for f in I.T[ty]['variants'][0][2]))
    return [(st, build(ty))]

@m('<std::str::Bytes<\'_> as std::iter::Iterator>::next')
def bytes_next(I, st, ctx, bb, t, inst, a):
    return None

def inner_iter(I, st, ref):
    """path to the slice::Iter inside a Chars-like wrapper"""
    obj, path, sl = I.pointee(st, ref)
    v = I.loadp(st, obj, path, sl)
    if v[0] == 's': v = I.expand(v)
    while v[0] == 'a' and I.T[v[1]].get('path') not in ('std::slice::Iter',):
        if not v[3]: return None
        v = v[3][0]; path = path + (0,)
    return ('r', obj, path) if v[0] == 'a' else None

@m('<std::str::Chars<\'a> as std::iter::Iterator>::next')
def chars_next(I, st, ctx, bb, t, inst, a):
    r = inner_iter(I, st, a[0])
    p = iter_parts(I, st, r) if r else None
    if p is None: return None
    obj, base, i, e, mkv = p
    ty = rty(t)
    x, y = fork(st, p_lt(i, e))
    outs = []
    if x is not None:
        cb = const_bytes(content(I, x, ('l', obj, base, i, sub(e, i)))) if isconst(i) else None
        if cb:
            ch = cb.decode('utf8', 'replace')[0]
            put(I, x, r, mkv(addc(i, len(ch.encode())), e))
            outs.append((x, some(I, ty, vint(ord(ch)))))
        else:
            tok = I.fresh(x, ctx, bb, 'ch')
            # the iterator may have been aged: reload
            obj, base, i, e, mkv = iter_parts(I, x, r)
            c = S(sym(('b', kr(K('char', kr(tok)))), 0, 0x10FFFF))
            w = S(sym(('b', kr(K('charw', kr(tok)))), 1, 4))
            ni = add(i, w)
            try:
                x.f.assume(p_le(ni, e))
                put(I, x, r, mkv(ni, e))
                h = getattr(I.mon, 'on_char', None)
                if h: h(I, x, ctx, c, i, (obj, base, e))
                outs.append((x, some(I, ty, ('i', c))))
            except Infeasible: pass
    if y is not None: outs.append((y, none(I, ty)))
    return outs

@m('std::iter::Iterator::sum')
def it_sum(I, st, ctx, bb, t, inst, a): return None

# ---------------------------------------------------------------- integers
def int_to_bytes(big):
    def f(I, st, ctx, bb, t, inst, a):
        n = I.T[rty(t)]['n']
        l = tounsigned(I, st, a[0][1], n)
        return [(st, ('q', I.u8(), C(n), (int_seg(l, n, big),)))]
    return f

def int_from_bytes(big):
    def f(I, st, ctx, bb, t, inst, a):
        q = a[0] if a[0][0] == 'q' else content(I, st, a[0])
        if q is None: return None
        rt = I.T[rty(t)]
        n = rt['bits'] // 8
        l = bytes_to_int(I, st, q, n, big)
        if rt['k'] == 'int': l = tosigned(I, st, l, n)
        return [(st, ('i', l))]
    return f

def bytes_to_int(I, st, q, n, big):
    if len(q[3]) == 1 and q[3][0][0] == ('be' if big else 'le') and q[3][0][2] == n:
        return q[3][0][1]
    l = ZERO
    # keep multi-byte segments whole
    pos = 0
    for s in q[3]:
        ln = s[-1]
        if isconst(ln) and s[0] == ('be' if big else 'le'):
            k = pos if not big else n - pos - s[2]
            l = add(l, mulc(s[1], 256 ** k))
            pos += s[2]
        elif isconst(ln):
            for j in range(ln[1]):
                v = I.segget(st, q, s, C(j))
                if v[0] != 'i': return S(sym(('b', kr(ukey())), 0, 256 ** n - 1))
                k = pos if not big else n - 1 - pos
                l = add(l, mulc(v[1], 256 ** k))
                pos += 1
        else:
            l = ZERO
            for j in range(n):
                v = I.qget(st, q, C(j))
                if v[0] != 'i': return S(sym(('b', kr(ukey())), 0, 256 ** n - 1))
                l = add(l, mulc(v[1], 256 ** (j if not big else n - 1 - j)))
            return l
    return l

for nm in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    EXACT['core::num::<impl %s>::to_le_bytes' % nm] = int_to_bytes(False)
    EXACT['core::num::<impl %s>::to_ne_bytes' % nm] = int_to_bytes(False)
    EXACT['core::num::<impl %s>::to_be_bytes' % nm] = int_to_bytes(True)
    EXACT['core::num::<impl %s>::from_le_bytes' % nm] = int_from_bytes(False)
    EXACT['core::num::<impl %s>::from_ne_bytes' % nm] = int_from_bytes(False)
    EXACT['core::num::<impl %s>::from_be_bytes' % nm] = int_from_bytes(True)

for nm in ('f32', 'f64'):
    def mkf(nm):
        n = 4 if nm == 'f32' else 8
        def fr(I, st, ctx, bb, t, inst, a):
            q = a[0] if a[0][0] == 'q' else content(I, st, a[0])
            if len(q[3]) == 1 and q[3][0][0] == 'src' and KINFO[q[3][0][1]][0][:1] == ('fbytes',) and q[3][0][2] == ZERO:
                return [(st, KINFO[q[3][0][1]][0][1])]
            return [(st, ('f', K('flt', nm, q[3])))]
        def to(I, st, ctx, bb, t, inst, a):
            k = K('fbytes', a[0])
            if a[0][0] == 'f' and KINFO[a[0][1]][0][0] == 'flt': return [(st, ('q', I.u8(), C(n), KINFO[a[0][1]][0][2]))]
            return [(st, ('q', I.u8(), C(n), (('src', k, ZERO, C(n)),)))]
        EXACT['core::%s::<impl %s>::from_le_bytes' % (nm, nm)] = fr
        EXACT['core::%s::<impl %s>::to_le_bytes' % (nm, nm)] = to
    mkf(nm)

def arith(op):
    return lambda f, x, y: add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else d_mul(f, x, y)

def mk_checked(op, kind):
    fn = arith(op)
    def f(I, st, ctx, bb, t, inst, a):
        if a[0][0] != 'i' or a[1][0] != 'i': return None
        r = fn(st.f, a[0][1], a[1][1])
        ty = rty(t)
        if kind == 'checked':
            nt = payload_ty(I, ty, 'Some')
            lo, hi = I.trange(nt)
            x, y = fork(st, p_and(p_le(C(lo), r), p_le(r, C(hi))))
            outs = []
            if x is not None: outs.append((x, some(I, ty, ('i', r))))
            if y is not None: outs.append((y, none(I, ty)))
            return outs
        if kind == 'wrapping':
            return [(st, ('i', I.wrapto(st, r, ty)))]
        if kind == 'saturating':
            lo, hi = I.trange(ty)
            r = d_max(st.f, r, C(lo)) if st.f.bounds(r)[0] < lo else r
            r = d_min(st.f, r, C(hi)) if st.f.bounds(r)[1] > hi else r
            return [(st, ('i', r))]
        if kind == 'overflowing':
            nt = I.T[ty]['elems'][0]
            lo, hi = I.trange(nt)
            p = p_and(p_le(C(lo), r), p_le(r, C(hi)))
            return [(st, ('a', ty, 0, (('i', I.wrapto(st, r, nt)), ('b', neg(p)))))]
    return f

for nm in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    for op in ('add', 'sub', 'mul'):
        for kind in ('checked', 'wrapping', 'saturating', 'overflowing'):
            EXACT['core::num::<impl %s>::%s_%s' % (nm, kind, op)] = mk_checked(op, kind)
    def mkabs(nm):
        def f(I, st, ctx, bb, t, inst, a):
            x = a[0][1]
            p, n = fork(st, p_le(ZERO, x))
            outs = []
            if p is not None: outs.append((p, ('i', x)))
            if n is not None:
                if inst['name'] == 'abs' and not need(I, n, ctx, t, p_ne(x, C(I.trange(rty(t))[0])), 'overflow:abs'): return outs
                outs.append((n, ('i', mulc(x, -1))))
            return outs
        return f
    EXACT['core::num::<impl %s>::abs' % nm] = mkabs(nm)
    EXACT['core::num::<impl %s>::unsigned_abs' % nm] = mkabs(nm)
    def mkpow(I, st, ctx, bb, t, inst, a):
        c = st.f.const(a[0][1])
        lo, hi = st.f.bounds(a[1][1])
        rng = I.trange(rty(t))
        if c is None or lo < 0 or c < 0: return None
        if lo == hi:
            v = c ** lo
            if not need(I, st, ctx, t, ('c', v <= rng[1]), 'overflow:pow'): return []
            return [(st, vint(v))]
        if hi > 200 or c ** hi > rng[1]:
            mx = 0
            while c > 1 and c ** (mx + 1) <= rng[1]: mx += 1
            if not need(I, st, ctx, t, p_le(a[1][1], C(mx)), 'overflow:pow'): return []
            hi = min(hi, mx)
        s = sym(('pow', c, a[1][1]), 0 if c == 0 else 1, c ** hi)
        return [(st, ('i', S(s)))]
    EXACT['core::num::<impl %s>::pow' % nm] = mkpow

@m('std::cmp::impls::<impl std::cmp::Ord for usize>::min', 'std::cmp::impls::<impl std::cmp::Ord for u64>::min', 'std::cmp::impls::<impl std::cmp::Ord for u32>::min', 'std::cmp::min',
   'std::cmp::impls::<impl std::cmp::Ord for u8>::min', 'std::cmp::impls::<impl std::cmp::Ord for i8>::min', 'std::cmp::Ord::min')
def cmp_min(I, st, ctx, bb, t, inst, a):
    if a[0][0] != 'i' or a[1][0] != 'i': return None
    return [(st, ('i', d_min(st.f, a[0][1], a[1][1])))]

@m('std::cmp::impls::<impl std::cmp::Ord for usize>::max', 'std::cmp::impls::<impl std::cmp::Ord for u64>::max', 'std::cmp::impls::<impl std::cmp::Ord for u32>::max', 'std::cmp::max',
   'std::cmp::impls::<impl std::cmp::Ord for u8>::max', 'std::cmp::impls::<impl std::cmp::Ord for i8>::max', 'std::cmp::Ord::max')
def cmp_max(I, st, ctx, bb, t, inst, a):
    if a[0][0] != 'i' or a[1][0] != 'i': return None
    return [(st, ('i', d_max(st.f, a[0][1], a[1][1])))]

@tm('std::convert::TryFrom', 'try_from')
def try_from_int(I, st, ctx, bb, t, inst, a):
    if a[0][0] != 'i' or I.T[rty(t)].get('path') != 'std::result::Result': return None
    nt = payload_ty(I, rty(t), 'Ok')
    rng = I.trange(nt)
    if rng is None or I.T[nt]['k'] not in ('int', 'uint'): return None
    x, y = fork(st, p_and(p_le(C(rng[0]), a[0][1]), p_le(a[0][1], C(rng[1]))))
    outs = []
    if x is not None: outs.append((x, ok(I, rty(t), a[0])))
    if y is not None: outs.append((y, err(I, rty(t), I.mk(payload_ty(I, rty(t), 'Err'), K('tryfrom')))))
    return outs

# slices -> arrays
@m('core::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from', 'std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from',
   'std::array::<impl std::convert::TryFrom<&\'a [T]> for &\'a [T; N]>::try_from', 'core::array::<impl std::convert::TryFrom<&\'a [T]> for &\'a [T; N]>::try_from')
def slice_try_into_array(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    ty = rty(t)
    nt = payload_ty(I, ty, 'Ok')
    byref = I.T[nt]['k'] == 'ref'
    n = I.T[I.T[nt]['of'] if byref else nt]['n']
    x, y = fork(st, p_eq(s[4], C(n)))
    outs = []
    if x is not None: outs.append((x, ok(I, ty, ('l',) + s[1:4] + (C(n),) if byref else content(I, x, s))))
    if y is not None: outs.append((y, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('tryfromslice')))))
    return outs

@m('core::slice::index::into_range')
def _x(I, st, ctx, bb, t, inst, a): return None

# ---------------------------------------------------------------- intrinsics
INTR = {}
def intr(*names):
    def deco(f):
        for n in names: INTR[n] = f
        return f
    return deco

@intr('size_of_val', 'size_of', 'min_align_of', 'align_of', 'align_of_val')
def i_size(I, st, ctx, bb, t, inst, a): return [(st, ('i', S(sym(('b', kr(K('size', inst['id']))), 0, 1 << 40))))]

@intr('assume', 'assert_inhabited', 'cold_path', 'assert_zero_valid')
def i_nop(I, st, ctx, bb, t, inst, a):
    if inst['name'] == 'assume':
        try: st.f.assume(I.topred(st, a[0]))
        except Infeasible: return []
    return [(st, I.UNIT)]

@intr('unlikely', 'likely', 'black_box', 'must_use')
def i_id(I, st, ctx, bb, t, inst, a): return [(st, a[0])]

@m('std::hint::must_use', 'std::hint::black_box')
def m_id(I, st, ctx, bb, t, inst, a): return [(st, a[0])]

@intr('ub_checks', 'is_val_statically_known', 'const_eval_select_rt')
def i_false(I, st, ctx, bb, t, inst, a): return [(st, vbool(False))]

@intr('saturating_add', 'saturating_sub')
def i_sat(I, st, ctx, bb, t, inst, a): return mk_checked(inst['name'][-3:], 'saturating')(I, st, ctx, bb, t, inst, a)

@intr('wrapping_add', 'wrapping_sub', 'wrapping_mul')
def i_wrap(I, st, ctx, bb, t, inst, a): return mk_checked(inst['name'][-3:], 'wrapping')(I, st, ctx, bb, t, inst, a)

@intr('abort', 'unreachable')
def i_abort(I, st, ctx, bb, t, inst, a): return []

@intr('read_via_copy')
def i_rvc(I, st, ctx, bb, t, inst, a): return [(st, load(I, st, a[0]))]

@intr('write_via_move')
def i_wvm(I, st, ctx, bb, t, inst, a): put(I, st, a[0], a[1]); return [(st, I.UNIT)]

@intr('discriminant_value')
def i_discr(I, st, ctx, bb, t, inst, a): return [(st, ('i', I.discr(st, load(I, st, a[0]))))]

@intr('ptr_offset_from_unsigned', 'ptr_offset_from')
def i_pof(I, st, ctx, bb, t, inst, a):
    x, y = a[:2]
    if x[0] == 'r' and y[0] == 'r' and x[1] == y[1] and x[2] and y[2] and x[2][:-1] == y[2][:-1]:
        return [(st, ('i', sub(x[2][-1][1], y[2][-1][1])))]
    return None

@m('std::ptr::const_ptr::<impl *const T>::add', 'std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::const_ptr::<impl *const T>::offset', 'std::ptr::mut_ptr::<impl *mut T>::offset')
def p_add(I, st, ctx, bb, t, inst, a): return [(st, I.ptr_add(st, a[0], I.toint(st, a[1])))]

@intr('typed_swap_nonoverlapping')
def i_swap(I, st, ctx, bb, t, inst, a): return mem_swap(I, st, ctx, bb, t, inst, a)

@intr('compare_bytes')
def i_cmpb(I, st, ctx, bb, t, inst, a): return [(st, I.mk(rty(t), K('cmpb', kr(I.fresh(st, ctx, bb)))))]

@intr('raw_eq')
def i_raweq(I, st, ctx, bb, t, inst, a):
    x, y = content(I, st, a[0]), content(I, st, a[1])
    if x is None or y is None: return None
    return [(st, ('b', segs_eq(I, st, x, y)))]

@intr('three_way_compare')
def i_cmp(I, st, ctx, bb, t, inst, a):
    return [(st, I.mkord(st, rty(t), ('ord', a[0][1], a[1][1])))] if a[0][0] == 'i' else None

@intr('needs_drop')
def i_nd(I, st, ctx, bb, t, inst, a): return [(st, vbool(True))]

@m('std::mem::needs_drop')
def m_nd(I, st, ctx, bb, t, inst, a): return [(st, vbool(True))]

# ---------------------------------------------------------------- utf8 & text parsing
@m('std::str::from_utf8', 'core::str::converts::from_utf8')
def from_utf8(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, a[0])
    if s is None: return None
    ty = rty(t)
    b = const_bytes(content(I, st, s))
    outs = []
    if b is not None:
        try:
            b.decode('utf8'); return [(st, ok(I, ty, s))]
        except UnicodeDecodeError: pass
    else:
        outs.append((st.copy(), ok(I, ty, s)))
    outs.append((st, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('utf8err', kr(I.fresh(st, ctx, bb)))))))
    return outs

@m('std::string::String::from_utf8')
def string_from_utf8(I, st, ctx, bb, t, inst, a):
    ty = rty(t)
    o = vec_of(I, st, a[0])
    if o is None: return None
    b = const_bytes(I.getobj(st, o))
    good = ok(I, ty, mkstring(I, payload_ty(I, ty, 'Ok'), ('v', o)))
    if b is not None:
        try:
            b.decode('utf8'); return [(st, good)]
        except UnicodeDecodeError: pass
    s2 = st.copy()
    return [(s2, good), (st, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('utf8err', kr(I.fresh(st, ctx, bb))))))]

@m('std::string::String::from_utf8_lossy')
def from_utf8_lossy(I, st, ctx, bb, t, inst, a):
    ty = rty(t)
    q = content(I, st, a[0])
    if q is None: q = fresh_seq(I, st, ctx, bb, I.u8())
    i = vidx(I, ty, 'Owned')
    st_ty = I.T[ty]['variants'][i][2][0][1]
    b = const_bytes(q)
    if b is not None:
        b = b.decode('utf8', 'replace').encode(); nq = kq(I, b)
    else:
        nq = opaque_seq(I, I.u8(), K('lossy', q[3]))
    return [(st, I.mkagg(ty, i, (mkstring(I, st_ty, newvec(I, st, ctx, bb, I.u8(), nq[2], nq[3])),)))]

def p_is_in(p, lo, hi, r):
    return p == p_and(p_le(C(lo), r), p_le(r, C(hi)))

def digits_value(I, st, q, how):
    """value of a decimal number given by bytes that provably are digits; 'bad' if it provably is none; None if unknown"""
    n = q[2][1]
    if n == 0: return 'bad'
    bs = []
    for i in range(n):
        v = I.qget(st, q, C(i))
        if v[0] != 'i': return None
        bs.append(v[1])
    neg = False
    if how != 'btou' and n > 0 and isconst(bs[0]) and bs[0][1] in (43, 45):
        neg = bs[0][1] == 45
        bs = bs[1:]
        if not bs: return 'bad'
    r = ZERO
    res = None
    for b in bs:
        e = st.f.entails(p_and(p_le(C(48), b), p_le(b, C(57))))
        if e is False: return 'bad'
        if e is None: res = 1
        r = add(mulc(r, 10), addc(b, -48))
    if res: return None
    return mulc(r, -1) if neg else r

def mk_parse(errname):
    def f(I, st, ctx, bb, t, inst, a):
        ty = rty(t)
        q = content(I, st, a[0])
        vt = payload_ty(I, ty, 'Ok')
        s2 = st.copy()
        k = K('parse', I.T[vt]['s'], q[3]) if q is not None else K('parse', kr(I.fresh(s2, ctx, bb)))
        h = getattr(I.mon, 'on_parse', None)
        v = I.mk(vt, k)
        if v[0] == 'i' and q is not None and (isconst(q[2]) and q[2][1] <= 24) and inst['name'] != 'from_str_radix':
            r = digits_value(I, st, q, inst['name'])
            if r is not None:
                e = lambda s: (s, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('parseerr', kr(I.fresh(s, ctx, bb, 'pe'))))))
                if r == 'bad': return [e(st)]
                lo, hi = I.trange(vt)
                outs = []
                for p in (p_and(p_le(C(lo), r), p_le(r, C(hi))), p_lt(r, C(lo)), p_lt(C(hi), r)):
                    s3 = st.copy()
                    try: s3.f.assume(p)
                    except Infeasible: continue
                    outs.append((s3, ok(I, ty, ('i', r))) if p[0] == 'and' or not outs and p_is_in(p, lo, hi, r) else e(s3))
                return outs
        if q is not None and inst['name'] == 'btou' and v[0] == 'i':
            DIGITS[v[1][2][0][0]] = q[2]
            hi = st.f.bounds(q[2])[1]
            if hi <= 40:
                try: s2.f.assume(p_le(v[1], C(10 ** hi - 1)))
                except Infeasible: return [(st, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('parseerr', kr(I.fresh(st, ctx, bb, 'pe'))))))]
        if h: v = h(I, s2, ctx, q, vt, v) or v
        outs = [(s2, ok(I, ty, v)), (st, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('parseerr', kr(I.fresh(st, ctx, bb, 'pe'))))))]
        return outs
    return f

for n in ('btoi::btoi', 'btoi::btou', 'core::num::float_parse::<impl std::str::FromStr for f32>::from_str',
          'core::num::float_parse::<impl std::str::FromStr for f64>::from_str', 'core::num::imp::<impl std::str::FromStr for f64>::from_str',
          'std::num::imp::<impl std::str::FromStr for f32>::from_str'):
    EXACT[n] = mk_parse('parse')
for nm in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    EXACT['core::num::<impl std::str::FromStr for %s>::from_str' % nm] = mk_parse('parse')
    EXACT['core::num::<impl %s>::from_str_radix' % nm] = mk_parse('parse')

# ---------------------------------------------------------------- fmt
@m('core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug', 'core::fmt::rt::Argument::<\'_>::new_lower_hex',
   'core::fmt::rt::Argument::<\'_>::new_upper_hex')
def fmt_arg(I, st, ctx, bb, t, inst, a):
    v = load(I, st, a[0])
    return [(st, ('n', 'fmtarg', (inst['name'], inst['args'][0] if inst.get('args') else None), (a[0],)))]

@m('std::fmt::Arguments::<\'a>::new')
def fmt_args(I, st, ctx, bb, t, inst, a):
    return [(st, ('n', 'fmtargs', (), (a[0], a[1])))]

@m('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::from_str_nonconst')
def fmt_args_str(I, st, ctx, bb, t, inst, a):
    return [(st, ('n', 'fmtstr', (), (a[0],)))]

def fmt_result(I, st, ctx, bb, t):
    ty = rty(t)
    s2 = st.copy()
    return [(s2, ok(I, ty, I.UNIT)), (st, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('fmterr'))))]

@m('std::fmt::Formatter::<\'a>::write_str', '<std::fmt::Formatter<\'_> as std::fmt::Write>::write_str', '<std::fmt::Formatter<\'_> as std::fmt::Write>::write_char',
   'std::fmt::Formatter::<\'a>::write_fmt', '<std::fmt::Formatter<\'_> as std::fmt::Write>::write_fmt', 'std::fmt::Formatter::<\'_>::write_str', 'std::fmt::Formatter::<\'a>::pad')
def fmt_write(I, st, ctx, bb, t, inst, a):
    return fmt_result(I, st, ctx, bb, t)

@m('std::fmt::format', 'std::fmt::format::format_inner')
def fmt_format(I, st, ctx, bb, t, inst, a):
    q = fresh_seq(I, st, ctx, bb, I.u8(), 'fmt')
    h = getattr(I.mon, 'on_format', None)
    if h: q = h(I, st, ctx, bb, a[0], t['sp'], q) or q
    return [(st, mkstring(I, rty(t), newvec(I, st, ctx, bb, I.u8(), q[2], q[3])))]

@m('<T as std::string::ToString>::to_string')
def to_string(I, st, ctx, bb, t, inst, a):
    q = content(I, st, a[0]) if a[0][0] in ('l',) else None
    if q is not None: return to_vec(I, st, ctx, bb, t, inst, a)
    q = fresh_seq(I, st, ctx, bb, I.u8(), 'fmt')
    h = getattr(I.mon, 'on_to_string', None)
    if h: q = h(I, st, ctx, bb, a[0], t['sp'], q, inst) or q
    return [(st, mkstring(I, rty(t), newvec(I, st, ctx, bb, I.u8(), q[2], q[3])))]

# ---------------------------------------------------------------- io::Error
@m('<std::io::Error as std::convert::From<std::io::ErrorKind>>::from', 'std::io::error::<impl std::convert::From<std::io::ErrorKind> for std::io::Error>::from',
   'alloc::io::error::<impl std::io::Error>::new', 'std::io::Error::new', 'std::io::Error::other', 'core::io::error::<impl std::convert::From<std::io::ErrorKind> for std::io::Error>::from')
def io_error(I, st, ctx, bb, t, inst, a):
    kind = a[0] if a else None
    kn = None
    if kind and kind[0] == 'a' and I.T[kind[1]]['k'] == 'enum': kn = I.T[kind[1]]['variants'][kind[2]][0]
    return [(st, ('s', rty(t), K('ioerr', kn)))]

# ---------------------------------------------------------------- async leaves
RD = {'read_u8': 1, 'read_u16': 2, 'read_u32': 4, 'read_u64': 8, 'read_i8': 1}
def leaf_ctor(I, st, ctx, bb, t, inst, a):
    nm = inst['name']
    return [(st, ('n', 'io', (nm,), tuple(a)))]

for nm in ('read_exact', 'write_all', 'flush', 'shutdown', 'read', 'write', 'read_to_end', 'write_u8', 'write_u16', 'write_u32', 'write_u64', 'write_u16_le', 'write_u32_le', 'write_u64_le',
           'read_u8', 'read_u16', 'read_u32', 'read_u64', 'read_u16_le', 'read_u32_le', 'read_u64_le', 'write_all_buf', 'read_buf', 'write_buf'):
    for tr in ('AsyncReadExt', 'AsyncWriteExt'):
        EXACT['tokio::io::%s::%s' % (tr, nm)] = leaf_ctor

@m('std::io::Error::kind')
def io_kind(I, st, ctx, bb, t, inst, a):
    v = load(I, st, a[0])
    ty = rty(t)
    if v[0] == 's':
        parts = KINFO[v[2]][0]
        if len(parts) == 2 and parts[0] == 'ioerr' and isinstance(parts[1], str):
            return [(st, I.mkagg(ty, vidx(I, ty, parts[1]), ()))]
    return [(st, I.mk(ty, K('iokind', I.fresh(st, ctx, bb, 'iok'))))] if v[0] != 's' else [(st, I.mk(ty, K('iokind', kr(v[2]))))]

@m('tokio::time::sleep')
def tk_sleep(I, st, ctx, bb, t, inst, a):
    h = getattr(I.mon, 'timer_new', None)
    if h: h(I, st, ctx, a[0])
    return [(st, ('n', 'sleep', (), tuple(a)))]

@tm('std::future::Future', 'poll')
def fut_poll(I, st, ctx, bb, t, inst, a):
    pin = a[0]
    v = load(I, st, pin)
    hops = 0
    while v[0] in ('r',) or (v[0] == 'a' and I.T[v[1]].get('path') == 'std::pin::Pin') :
        v = load(I, st, v); hops += 1
        if hops > 4: break
    if v[0] == 'n' and v[1] == 'io':
        return I.mon.io(I, st, ctx, bb, t, v[2][0], v[3])
    if v[0] == 'n' and v[1] == 'sleep':
        return I.mon.timer(I, st, ctx, bb, t, v[3][0])
    return None

# context / waker plumbing carries no data
@m('std::future::get_context', 'core::future::get_context', 'std::future::ResumeTy::get_context')
def get_context(I, st, ctx, bb, t, inst, a): return [(st, a[0])]

# ---------------------------------------------------------------- bytes::Buf for &[u8]
@m("<&[u8] as bytes::buf::buf_impl::Buf>::remaining")
def buf_remaining(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, load(I, st, a[0]))
    if s is None: return None
    return [(st, ('i', s[4]))]

@m("<&[u8] as bytes::buf::buf_impl::Buf>::has_remaining", "bytes::buf::buf_impl::Buf::has_remaining")
def buf_has_remaining(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, load(I, st, a[0]))
    if s is None: return None
    return [(st, ('b', p_lt(ZERO, s[4])))]

@m("<&[u8] as bytes::buf::buf_impl::Buf>::advance")
def buf_advance(I, st, ctx, bb, t, inst, a):
    s = I.as_slice(st, load(I, st, a[0]))
    if s is None: return None
    n = a[1][1]
    if not need(I, st, ctx, t, p_le(n, s[4]), 'buf_advance'): return []
    put(I, st, a[0], subslice(s, n, s[4]))
    return [(st, I.UNIT)]

# ---------------------------------------------------------------- statics / pools
def lazy_get(I, st, ctx, bb, t, inst, a):
    return [(st, I.mk(rty(t), K('lazy', inst.get('full') or inst['path'], root=True)))]
EXACT['lazy_static::lazy::Lazy::<T>::get'] = lazy_get
EXACT['lazy_static::lazy::inline_lazy::Lazy::<T>::get'] = lazy_get

def queue_pop(I, st, ctx, bb, t, inst, a):
    h = getattr(I.mon, 'on_queue_pop', None)
    if h: return h(I, st, ctx, bb, t, a)
    return [(st, none(I, rty(t)))]

def queue_push(I, st, ctx, bb, t, inst, a):
    h = getattr(I.mon, 'on_queue_push', None)
    if h:
        r = h(I, st, ctx, bb, t, a)
        if r is not None: return r
    ty = rty(t)
    return [(st, ok(I, ty, I.UNIT))] if I.T[ty]['k'] == 'enum' else [(st, I.UNIT)]
for q in ('array_queue::ArrayQueue', 'seg_queue::SegQueue'):
    EXACT['crossbeam_queue::%s::<T>::pop' % q] = queue_pop
    EXACT['crossbeam_queue::%s::<T>::push' % q] = queue_push
