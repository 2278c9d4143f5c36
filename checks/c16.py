from .sync import *
from . import decode
from .layouts import merge
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the parameter encoder, its size, type and sign functions and of the row decoders, on every kind of value with symbolic components'
EXPLANATION = ('For every variant of Value, with all components symbolic, the bytes appended by the encoder are compared with the binary protocol layout on every path (a length byte of 0/4/7/11 resp. 0/8/12 may only omit components that are provably zero), '
  'the counted size with the number of bytes appended, and the announced type and sign with the table of the protocol; a row holding the same layout must decode to the same variant with every component from the same position.')
W = 'parameter'
UNS = 0x20
# variant -> (type codes, unsigned, width)
NUM = {'Tiny': ((1,), False, 1), 'Short': ((2,), False, 2), 'Int': ((3,), False, 4), 'Long': ((8,), False, 8),
       'UTiny': ((1,), True, 1), 'UShort': ((2,), True, 2), 'UInt': ((3,), True, 4), 'ULong': ((8,), True, 8)}
TYPES = {'Float': (4,), 'Double': (5,), 'Bytes': (0x0F, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE), 'Date': (10,), 'Time': (11,), 'Datetime': (7, 12), 'Null': (6,)}

TEMPORAL = {'Date': 3, 'Datetime': 7, 'Time': 6}

def vty(prog):
    for i, t in enumerate(prog.types):
        if (t.get('path') or '').endswith('types::Value') or (t.get('path') or '').endswith('::Value') and t['k'] == 'enum' and any(v[0] == 'UTiny' for v in t['variants']): return i
    return None

def bytesym(key, n): return [S(sym(('b', kr(K('in', key, i, root=True))), 0, 255)) for i in range(n)]
def tot(bs):
    r = ZERO
    for i, b in enumerate(bs): r = add(r, mulc(b, 256 ** i))
    return r

def make(I, st, ty, name, neg=False, cls=None, nz=None, tag=None, top=1 << 40):
    """a value of the variant with symbolic components, and what identifies them: (value, {component: bytes})"""
    V = [v[0] for v in I.T[ty]['variants']]
    idx = V.index(name)
    kn = name if tag is None else (tag, name)
    fts = [f[1] for f in I.T[ty]['variants'][idx][2]]
    comp, fs = [], []
    for j, ft in enumerate(fts):
        t = I.T[ft]
        if nz is not None and t['k'] == 'uint':
            # exactly the components in nz are not zero
            n = t['bits'] // 8
            bs = bytesym((kn, j), n) if j in nz else [ZERO] * n
            if j in nz: st.f.assume(p_le(ONE, tot(bs)))
            fs.append(('i', tot(bs))); comp.append(bs)
        elif nz is not None and t['k'] == 'bool':
            fs.append(('b', ('c', j in nz))); comp.append(fs[-1])
        elif t['k'] in ('uint', 'int'):
            n = t['bits'] // 8
            bs = bytesym((kn, j), n)
            v = tot(bs)
            if t['k'] == 'int':
                st.f.assume(p_le(C(128), bs[-1]) if neg else p_le(bs[-1], C(127)))
                if neg: v = addc(v, -(256 ** n))
            fs.append(('i', v)); comp.append(bs)
        elif t['k'] == 'bool':
            b = I.mk(ft, K('in', kn, j, root=True)); fs.append(b); comp.append(b)
        elif t['k'] == 'float':
            v = ('f', K('in', 'float' if tag is None else ('float', tag), root=True)); fs.append(v); comp.append(v)
        elif I.is_vec(t):
            from . import c17
            n, bs = c17.number(I, st, cls, 'n' if tag is None else ('n', tag))
            st.f.assume(p_le(n, C(top)))
            key = K('pktf', 'bytes' if tag is None else 'bytes%s' % tag, root=True)
            o = ('A', 'bytes' if tag is None else 'bytes%s' % tag); st.m[o] = ('q', I.u8(), n, (('src', key, ZERO, n),))
            fs.append(('v', o)); comp.append((cls, n, bs, key))
        else: return None
    return ('a', ty, idx, tuple(fs)), comp

def layout_ok(I, st, name, comp, q):
    """do the appended bytes q encode the components?  -> [(key, verdict, message)]"""
    if q is None: return [('prefix', None, '')]
    fx = lambda segs: ('q', I.u8(), addsum(segs), I.compact(tuple(segs)))
    el = lambda bs: [('el', ('i', b), ONE) for b in bs]
    if name == 'Null': return [('bytes', eq_seqs(I, st, q, fx([])), 'bytes are written for NULL')]
    if name in NUM: return [('bytes', eq_seqs(I, st, q, fx(el(comp[0]))), '%s is not written as %d little-endian bytes' % (name, NUM[name][2]))]
    if name in ('Float', 'Double'):
        n = 4 if name == 'Float' else 8
        e = fx([('src', K('fbytes', comp[0]), ZERO, C(n))])
        return [('bytes', eq_seqs(I, st, q, e), '%s is not written as its %d bytes' % (name, n))]
    if name == 'Bytes':
        from . import c17
        cls, n, bs, key = comp[0]
        e = c17.enc(I, cls, bs)
        return [('bytes', eq_seqs(I, st, q, ('q', e[1], add(e[2], n), e[3] + (('src', key, ZERO, n),))), 'a byte string is not written as its length followed by its bytes')]
    # temporal
    n = st.f.const(q[2])
    if n is None: return [('bytes', None, '')]
    bs = []
    for i in range(n):
        v = I.qget(st, q, C(i))
        if v[0] != 'i': return [('bytes', None, '')]
        bs.append(v[1])
    if not bs: return [('bytes', False, 'a temporal value is written without its length byte')]
    L = st.f.const(bs[0])
    if L is None: return [('bytes', None, '')]
    if L != n - 1: return [('bytes', False, 'the length byte of a temporal value is not the number of bytes that follow')]
    if name == 'Time':
        if L not in (0, 8, 12): return [('bytes', False, 'a time is written with length %d' % L)]
        parts = [comp[0]] + list(comp[1:])
        take = {0: 0, 8: 5, 12: 6}[L]
    else:
        parts = list(comp)
        take = {0: 0, 4: 3, 7: 6, 11: 7}.get(L)
        if take is None or take > len(parts): return [('bytes', False, '%s is written with length %d' % (name, L))]
    out, pos = [], 1
    for j, c in enumerate(parts):
        what = 'component %d of %s' % (j, name)
        if type(c) is tuple and c[0] == 'b':
            # sign: one byte, 1 if set
            if j < take:
                p = I.topred(st, c)
                f1, f0 = st.f.copy(), st.f.copy()
                r = True
                for f, pp, val in ((f1, p, 1), (f0, neg(p), 0)):
                    try: f.assume(pp)
                    except Infeasible: continue
                    e = f.entails(p_eq(bs[pos], C(val)))
                    if e is not True: r = False if e is False else None if r is not False else r
                out.append((what, r, 'the sign of a time is not written as 1 for negative and 0 otherwise'))
                pos += 1
        elif j < take:
            r = True
            for b in c:
                e = st.f.entails(p_eq(bs[pos], b))
                if e is None and may_differ(st, bs[pos], b): e = False
                if e is not True: r = e if r is True or e is False else r
                pos += 1
            out.append((what, r, '%s is not written at its position' % what))
        else:
            r = True
            for b in c:
                e = st.f.entails(p_eq(b, ZERO))
                if e is None and free(st, b[2][0][0]) and not st.f.dim: e = False
                if e is not True: r = e if r is True or e is False else r
            out.append((what, r, '%s is left out although it need not be zero' % what))
    return out

def addsum(segs):
    r = ZERO
    for s in segs: r = add(r, s[-1])
    return r

def kinds(name):
    if name in NUM and not NUM[name][1]: return [dict(neg=False), dict(neg=True)]
    if name == 'Bytes': return [dict(cls=c) for c in (1, 2, 3, 8)]
    if name in TEMPORAL: return [dict(nz=tuple(j for j in range(TEMPORAL[name]) if m >> j & 1)) for m in range(1 << TEMPORAL[name])]
    return [dict()]

def names(prog): return [v[0] for v in prog.types[vty(prog)]['variants']]

def boxed(I, st, v):
    o = ('A', 'value'); st.m[o] = v
    return ('r', o, ())

def encoder(prog, iid, name):
    ty = vty(prog)
    rs = []
    for kw in kinds(name):
        def setup(I, st, b, box):
            box['v'], box['c'] = make(I, st, ty, name, **kw)
            box['o'] = Out(I, st)
            return [boxed(I, st, box['v']), box['o'].ref(I, st)]
        def judge(I, st, v, box): return layout_ok(I, st, name, box['c'], box['o'].appended(I, st))
        rs.append(case(prog, iid, setup, judge, '%s %s' % (name, kw or ''), what=W + ' ' + name))
    return merge(rs)

def counted(prog, iid, enc, name):
    """size function against the encoder: both are run on the same value and their results joined on the facts of the path"""
    ty = vty(prog)
    rs = []
    for kw in kinds(name):
        def setup(I, st, b, box):
            box['v'], box['c'] = make(I, st, ty, name, **kw)
            return [boxed(I, st, box['v'])]
        def judge(I, st, v, box):
            if name == 'Bytes':
                cls, n, bs, key = box['c'][0]
                return [('size', eq_int(I, st, v, addc(n, 1 if cls == 1 else cls + 1)), 'the size counted for a byte string is not the number of bytes written')]
            # the encoder, under the facts of this path
            out = []
            def setup2(I2, st2, b2, box2):
                st2.f = st.f.copy()
                box2['o'] = Out(I2, st2)
                return [boxed(I2, st2, box['v']), box2['o'].ref(I2, st2)]
            def judge2(I2, st2, v2, box2):
                q = box2['o'].appended(I2, st2)
                out.append(('size', None if q is None else st2.f.entails(p_eq(v[1], q[2])), 'the size counted for a %s is not the number of bytes written' % name))
                return []
            case(prog, enc, setup2, judge2)
            return out
        rs.append(case(prog, iid, setup, judge, '%s %s' % (name, kw or ''), what=W + ' ' + name))
    return merge(rs)

def coltype(prog, iid):
    ty = vty(prog)
    rs = []
    for name in names(prog):
        def setup(I, st, b, box):
            v, _ = make(I, st, ty, name, **kinds(name)[0])
            return [boxed(I, st, v)]
        def judge(I, st, v, box):
            c = st.f.const(I.discr(st, v)) if v[0] in 'ae' else None
            want = NUM[name][0] if name in NUM else TYPES.get(name)
            return [('type', None if c is None or want is None else c in want, 'type %s is announced for %s' % (c, name))]
        rs.append(case(prog, iid, setup, judge, name, what=W + ' ' + name))
    return merge(rs)

def sign(prog, iid):
    ty = vty(prog)
    rs = []
    for name in names(prog):
        if name not in NUM: continue
        def setup(I, st, b, box):
            v, _ = make(I, st, ty, name, **kinds(name)[0])
            return [boxed(I, st, v)]
        def judge(I, st, v, box):
            p = I.topred(st, v)
            e = st.f.entails(p)
            return [('sign', None if e is None else e == NUM[name][1], '%s is announced as %ssigned' % (name, 'un' if e else ''))]
        rs.append(case(prog, iid, setup, judge, name, what=W + ' ' + name))
    return merge(rs)

# ---------------------------------------------------------------- rows
def colslice(I, st, ty, cols):
    """&[Column] with the given (type code, flags)"""
    el = None
    t = I.T[ty]
    while t['k'] in ('ref', 'ptr', 'slice'): ty = t['of']; t = I.T[ty]
    els = []
    for n, (code, flags) in enumerate(cols):
        fs = []
        for j, f in enumerate(t['variants'][0][2]):
            ft = I.T[f[1]]
            p = ft.get('path') or ''
            if p.endswith('ColumnType'):
                k = next(i for i, v in enumerate(ft['variants']) if v[1] == code)
                fs.append(('a', f[1], k, ()))
            elif p.endswith('ColumnFlags'): fs.append(const_newtype(I, f[1], flags))
            else: fs.append(I.mk(f[1], K('in', 'col', n, j, root=True)))
        els.append(('el', ('a', ty, 0, tuple(fs)), ONE))
    o = ('A', 'cols')
    st.m[o] = ('q', ty, C(len(els)), tuple(els))
    return ('l', o, (), ZERO, C(len(els)))

def const_newtype(I, ty, n):
    t = I.T[ty]
    if t['k'] in ('uint', 'int'): return ('i', C(n))
    return ('a', ty, 0, (const_newtype(I, t['variants'][0][2][0][1], n),))

def row_values(I, st, v):
    """values of an Ok row, or None"""
    if variant(I, v) != 'Ok': return None
    q = seq(I, st, v[3][0])
    n = st.f.const(q[2]) if q is not None else None
    if n is None or n > 64: return False
    return [I.qget(st, q, C(i)) for i in range(n)]

def bin_value(p, name, neg=False, cls=0, ln=None):
    """append the layout of a value of the variant to packet p; components in p.f under (name, j)"""
    if name in NUM:
        n = NUM[name][2]
        for i in range(n): p.byte(p.sym((name, 0, i), 128 if neg and i == n - 1 else 0, 127 if not NUM[name][1] and not neg and i == n - 1 else 255))
        v = ZERO
        for i in range(n): v = add(v, mulc(p.sym((name, 0, i), 128 if neg and i == n - 1 else 0, 127 if not NUM[name][1] and not neg and i == n - 1 else 255), 256 ** i))
        return [('int', addc(v, -(256 ** n)) if neg else v)]
    if name in ('Float', 'Double'):
        n = 4 if name == 'Float' else 8
        p.raw(name, C(n))
        return [('float', p.f[name][1])]
    if name == 'Bytes':
        p.lenstr('bytes', cls)
        return [('seq', p.f['bytes'][1])]
    w = dict(Date=(2, 1, 1), Datetime=(2, 1, 1, 1, 1, 1, 4), Time=(1, 4, 1, 1, 1, 4))[name]
    take = ({0: 0, 8: 5, 12: 6} if name == 'Time' else {0: 0, 4: 3, 7: 6, 11: 7})[ln]
    p.lit(ln)
    out = []
    for j, n in enumerate(w):
        if j >= take: out.append(('int', ZERO) if not (name == 'Time' and j == 0) else ('bool', False)); continue
        if name == 'Time' and j == 0:
            p.lit(1 if neg else 0); out.append(('bool', neg)); continue
        p.int(n, (name, j)); out.append(('int', p.f[(name, j)][1]))
    return out

def row_decoder(prog, iid, name):
    """BinaryProtocol row of one column holding the layout of the value"""
    rs = []
    codes = NUM[name][0] if name in NUM else TYPES[name]
    if name in ('Tiny', 'Short', 'Int'): codes = codes + {'Tiny': (), 'Short': (13,), 'Int': (9,)}[name]
    fl = [UNS if name in NUM and NUM[name][1] else 0]
    fl.append(fl[0] | 0x1001)
    lens = {'Date': (0, 4), 'Datetime': (0, 4, 7, 11), 'Time': (0, 8, 12)}.get(name, (None,))
    for code in codes:
        for flags in fl:
            for ln in lens:
                for ng in ((False, True) if name in ('Tiny', 'Short', 'Int', 'Long') or name == 'Time' and ln else (False,)):
                    for cls in ((0, 2, 3, 8) if name == 'Bytes' else (0,)):
                        def setup(I, st, b, box):
                            p = Pkt(I, st)
                            p.lit(0, 0)
                            box['c'] = bin_value(p, name, ng, cls, ln)
                            p.put()
                            return [p.ref(), colslice(I, st, b.locals[2], [(code, flags)])]
                        def judge(I, st, v, box): return judge_row(I, st, v, [(name, box['c'])])
                        rs.append(case(prog, iid, setup, judge, '%s type %d%s' % (name, code, '' if ln is None else ' length %d' % ln), what='decoding ' + name))
    return merge(rs)

def judge_row(I, st, v, want):
    vals = row_values(I, st, v)
    if vals is None: return [('rejected', False if variant(I, v) == 'Err' else None, 'a well-formed row is refused')]
    if vals is False: return [('row', None, '')]
    if len(vals) != len(want): return [('columns', False, 'the row has %d values instead of %d' % (len(vals), len(want)))]
    out = []
    for i, (x, (name, comp)) in enumerate(zip(vals, want)):
        if variant(I, x) is None: out.append(('variant', None, '')); continue
        if variant(I, x) != name: out.append(('variant', False, 'decodes to %s' % variant(I, x))); continue
        for j, (kind, e) in enumerate(comp):
            y = x[3][j]
            if kind == 'int': r = eq_int(I, st, y, e)
            elif kind == 'bool': r = st.f.entails(I.topred(st, y) if e else neg(I.topred(st, y)))
            elif kind == 'float':
                r = None
                if y[0] == 'f':
                    kk = KINFO[y[1]][0]
                    r = eq_content(I, st, ('q', I.u8(), e[2], kk[2]), e) if kk[0] == 'flt' else None
            else: r = eq_seq(I, st, y, e)
            out.append(('component %d' % j, r, 'component %d is not taken from its position' % j))
    return out

def bitmap_rows(prog, iid):
    """NULLs of a binary row are exactly the columns whose bit is set"""
    rs = []
    for n in (1, 2, 5, 6, 7, 8, 13, 14, 15):
        for nulls in [()] + [(i,) for i in range(n)] + [tuple(range(n))]:
            def setup(I, st, b, box):
                bits = sum(1 << (i + 2) for i in nulls)
                p = Pkt(I, st)
                p.lit(0, bits.to_bytes((n + 9) // 8, 'little'))
                want = []
                for i in range(n):
                    if i in nulls: want.append(('Null', []))
                    else: p.int(1, i, 0, 127); want.append(('Tiny', [p.f[i]]))
                p.put(); box['w'] = want
                return [p.ref(), colslice(I, st, b.locals[2], [(1, 0)] * n)]
            def judge(I, st, v, box): return judge_row(I, st, v, box['w'])
            rs.append(case(prog, iid, setup, judge, '%d columns, NULL %s' % (n, list(nulls)), what='NULL bitmap of a row'))
    return merge(rs)

def run(c):
    p = c.prog('full')
    if vty(p) is None: c.undec('no Value type found')
    S1 = lambda pred: decode.select(p, pred)
    isv = lambda i: 'types::Value' in i['path'] or 'types::value' in i['path']
    takes = lambda i, k: p.body(i['id']).argc == k and p.types[p.body(i['id']).locals[1]]['k'] == 'ref' and p.types[p.body(i['id']).locals[1]]['of'] == vty(p)
    enc = S1(lambda i: i['name'] == 'serialize' and takes(i, 2))
    size = S1(lambda i: i['name'] == 'bin_len' and takes(i, 1))
    ct = S1(lambda i: i['name'] == 'column_type' and takes(i, 1))
    sg = S1(lambda i: i['name'] == 'is_unsigned' and takes(i, 1))
    rows = S1(lambda i: i['name'] == 'read_result_set_row' and 'Binary' in (i.get('full') or i['path']))
    for what, l in (('encoder', enc), ('size function', size), ('type function', ct), ('sign function', sg), ('binary row decoder', rows)):
        if not l: c.undec('no %s of Value found' % what)
    for name in names(p):
        for i in enc: c.task('encode %s' % name, encoder, p, i, name)
        for i in size:
            if enc: c.task('size of %s' % name, counted, p, i, enc[0], name)
        for i in rows:
            if name != 'Null': c.task('decode %s' % name, row_decoder, p, i, name)
    for i in ct: c.task('types', coltype, p, i)
    for i in sg: c.task('signs', sign, p, i)
    for i in rows: c.task('NULL bitmap', bitmap_rows, p, i)
    c.floor('variants of Value', len(names(p)), 15)
    c.rules.append('bytes, size, type code, sign and decoded components equal the binary protocol layout of the variant')
    c.run_tasks()
