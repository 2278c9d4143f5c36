"""Models of the external crypto / codec crates (documented behaviour only)."""
from .dom import *
from .absint import ukey
from .models import *
from .models import EXACT, INTR, m, tm, intr

def typenum(I, ty):
    t = I.T[ty]
    p = t.get('path', '')
    if p.endswith('UTerm'): return 0
    if p.endswith('UInt'):
        a = typenum(I, t['args'][0])
        b = I.T[t['args'][1]]['s']
        if a is None: return None
        return 2 * a + (1 if b.endswith('B1') else 0)
    return None

def ga_len(I, ty):
    t = I.T[ty]
    return typenum(I, t['args'][1]) if t.get('path', '').endswith('GenericArray') else None

def segs_of(I, st, ctx, bb, v):
    q = content(I, st, v)
    if q is None and v[0] in ('r', 's', 'l'):
        x = load(I, st, v)
        q = content(I, st, x) if x[0] != 'top' else None
    if q is None: return (('src', K('any', kr(I.fresh(st, ctx, bb, 'dg'))), ZERO, ZERO),)
    return tuple(q[3])

# a hash state is the algorithm and the byte segments hashed so far
def algo(I, ty):
    s = I.T[ty]['s']
    for a in ('Sha1', 'Sha224', 'Sha256', 'Sha384', 'Sha512'):
        if a in s: return a
    return 'Sha256' if 'OidSha256' in s else s
def hkey(I, al, segs): return K('hash', al, I.compact(tuple(x for x in segs if x[-1] != ZERO)))
def hparts(k):
    p = KINFO[k][0]
    return (p[1], p[2]) if p[0] == 'hash' else None

def dg_bytes(I, t, key):
    n = ga_len(I, rty(t))
    if n is None: return None
    return ('q', I.u8(), C(n), (('src', K('digest', kr(key)), ZERO, C(n)),))

@m('<D as digest::digest::Digest>::digest')
def dg_digest(I, st, ctx, bb, t, inst, a):
    q = dg_bytes(I, t, hkey(I, algo(I, inst['args'][0]) if inst.get('args') else '', segs_of(I, st, ctx, bb, a[0])))
    return [(st, q)] if q else None

@m('<D as digest::digest::Digest>::new')
def dg_new(I, st, ctx, bb, t, inst, a):
    return [(st, ('s', rty(t), hkey(I, algo(I, rty(t)), ())))]

@m('<D as digest::digest::Digest>::update')
def dg_update(I, st, ctx, bb, t, inst, a):
    h = load(I, st, a[0])
    p = hparts(h[2]) if h[0] == 's' else None
    if p is None: return None
    put(I, st, a[0], ('s', h[1], hkey(I, p[0], p[1] + segs_of(I, st, ctx, bb, a[1]))))
    return [(st, I.UNIT)]

@m('<D as digest::digest::Digest>::chain_update')
def dg_chain(I, st, ctx, bb, t, inst, a):
    h = a[0]
    p = hparts(h[2]) if h[0] == 's' else None
    if p is None: return None
    return [(st, ('s', h[1], hkey(I, p[0], p[1] + segs_of(I, st, ctx, bb, a[1]))))]

@m('<D as digest::digest::Digest>::finalize')
def dg_finalize(I, st, ctx, bb, t, inst, a):
    h = a[0]
    q = dg_bytes(I, t, h[2] if h[0] == 's' else I.fresh(st, ctx, bb, 'dg'))
    return [(st, q)] if q else None

@m('<generic_array::GenericArray<T, N> as std::ops::Deref>::deref', '<generic_array::GenericArray<T, N> as std::ops::DerefMut>::deref_mut',
   'generic_array::GenericArray::<T, N>::as_slice')
def ga_deref(I, st, ctx, bb, t, inst, a):
    v = a[0]
    obj, path, sl = I.pointee(st, v)
    x = I.loadp(st, obj, path, sl)
    if x[0] == 's':
        n = ga_len(I, x[1])
        if n is None: return None
        x = ('q', I.u8(), C(n), (('src', x[2], ZERO, C(n)),))
        I.store(st, (obj, path, sl), x)
    if x[0] != 'q': return None
    return [(st, ('l', obj, path, ZERO, x[2]))]

@tm('std::convert::From', 'from')
def ga_from(I, st, ctx, bb, t, inst, a):
    if 'generic_array' not in inst['path'] or len(a) != 1: return None
    if a[0][0] == 'q' and I.T[rty(t)]['k'] == 'array': return [(st, a[0])]
    return None

# ---- big integers -----------------------------------------------------
def bits_of(key): return S(sym(('b', kr(K('bits', kr(key)))), 0, (1 << 60)))

def big_key(I, st, v):
    x = v
    for _ in range(3):
        if x[0] == 's' and I.T[x[1]]['k'] not in ('ref', 'ptr'): return x[2]
        if x[0] in ('r', 's'): x = load(I, st, x)
    return None

@m('num_bigint::biguint::BigUint::from_bytes_be')
def big_from(I, st, ctx, bb, t, inst, a):
    q = content(I, st, a[0])
    k = K('big', kr(I.fresh(st, ctx, bb, 'big')), kr(K('segs', q[3])) if q else 0)
    if q: st.f.assume(p_le(bits_of(k), mulc(q[2], 8)))
    return [(st, ('s', rty(t), k))]

@m('num_bigint::biguint::BigUint::bits')
def big_bits(I, st, ctx, bb, t, inst, a):
    k = big_key(I, st, a[0])
    if k is None: return None
    return [(st, ('i', bits_of(k)))]

@m('num_bigint::biguint::BigUint::modpow')
def big_modpow(I, st, ctx, bb, t, inst, a):
    km = big_key(I, st, a[2]); kb = big_key(I, st, a[0])
    if km is None: return None
    if not need(I, st, ctx, t, p_le(ONE, bits_of(km)), 'zero-modulus'): return []
    k = K('modpow', kr(kb) if kb else 0, kr(km), kr(I.fresh(st, ctx, bb, 'mp')))
    st.f.assume(p_le(bits_of(k), bits_of(km)))
    return [(st, ('s', rty(t), k))]

@m('num_bigint::biguint::BigUint::to_bytes_be')
def big_to(I, st, ctx, bb, t, inst, a):
    k = big_key(I, st, a[0])
    if k is None: return None
    b = bits_of(k)
    out = []
    z, nz = fork(st, p_eq(b, ZERO))
    if z is not None:
        v = newvec(I, z, ctx, bb, I.u8(), ONE, (('k', b'\0', ONE),))
        out.append((z, v))
    if nz is not None:
        ln = S(sym(('b', kr(K('blen', kr(k)))), 1, 1 << 58))
        try:
            nz.f.assume(p_le(mulc(ln, 8), addc(b, 7)))
            nz.f.assume(p_le(b, mulc(ln, 8)))
            out.append((nz, newvec(I, nz, ctx, bb, I.u8(), ln, (('src', K('bbytes', kr(k)), ZERO, ln),))))
        except Infeasible: pass
    return out

# ---- randomness -------------------------------------------------------
@m('rand::rng::Rng::gen')
def rng_gen(I, st, ctx, bb, t, inst, a):
    return [(st, I.mk(rty(t), K('rng', kr(I.fresh(st, ctx, bb, 'rng')))))]

@m('rand_core::SeedableRng::from_entropy')
def rng_seed(I, st, ctx, bb, t, inst, a):
    return [(st, I.mk(rty(t), K('rng', kr(I.fresh(st, ctx, bb, 'rng')))))]

# ---- base64 / hex -----------------------------------------------------
@m('base64::engine::Engine::decode')
def b64_decode(I, st, ctx, bb, t, inst, a):
    ty = rty(t)
    q = content(I, st, a[1])
    s2 = st.copy()
    k = K('b64', kr(I.fresh(s2, ctx, bb, 'b64')))   # any bytes can be encoded
    ln = S(sym(('b', kr(K('len', kr(k)))), 0, (1 << 62)))
    if q: s2.f.assume(p_le(ln, q[2]))
    v = newvec(I, s2, ctx, bb, I.u8(), ln, (('src', k, ZERO, ln),))
    return [(s2, ok(I, ty, v)), (st, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('b64e', kr(I.fresh(st, ctx, bb, 'e'))))))]

# ---- misc -------------------------------------------------------------
@intr('integer_min')
def i_min(I, st, ctx, bb, t, inst, a): return [(st, ('i', d_min(st.f, a[0][1], a[1][1])))]
@intr('integer_max')
def i_max(I, st, ctx, bb, t, inst, a): return [(st, ('i', d_max(st.f, a[0][1], a[1][1])))]

@m('core::unicode::unicode_data::alphabetic::lookup_slow', 'core::unicode::unicode_data::n::lookup_slow',
   'core::unicode::unicode_data::white_space::lookup', 'core::unicode::unicode_data::lowercase::lookup', 'core::unicode::unicode_data::uppercase::lookup')
def uni_lookup(I, st, ctx, bb, t, inst, a):
    x = a[0][1] if a[0][0] == 'i' else None
    key = K('uni', inst['path'], x) if x is not None else K('uni', kr(I.fresh(st, ctx, bb)))
    return [(st, I.mk(rty(t), key))]
