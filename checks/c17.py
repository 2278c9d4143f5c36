from .sync import *
from . import decode
from .layouts import merge
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the length-encoding writers, readers and size functions on symbolic integers and byte strings'
EXPLANATION = ('For each of the four length classes, with every byte of the integer symbolic, the appended bytes must be the marker and the little-endian bytes and nothing else, '
  'the size functions must return exactly the number of bytes written, and the readers must yield the value and leave exactly the rest of the buffer; strings are their length followed by their bytes.')
CL = {1: (0, 250), 2: (251, 65535), 3: (65536, (1 << 24) - 1), 8: (1 << 24, (1 << 64) - 1)}
MARK = {2: 0xFC, 3: 0xFD, 8: 0xFE}
W = 'length encoding'

def number(I, st, cls, key='n'):
    """symbolic integer of the class, with its bytes"""
    bs = [S(sym(('b', kr(K('in', key, i, root=True))), 0, 255)) for i in range(cls)]
    n = ZERO
    for i, b in enumerate(bs): n = add(n, mulc(b, 256 ** i))
    lo, hi = CL[cls]
    st.f.assume(p_le(C(lo), n)); st.f.assume(p_le(n, C(hi)))
    return n, bs

def enc(I, cls, bs):
    segs = [('k', bytes([MARK[cls]]), ONE)] if cls > 1 else []
    segs += [('el', ('i', b), ONE) for b in bs]
    return ('q', I.u8(), C(len(segs)), I.compact(tuple(segs)))

def consts():
    for v in (0, 1, 250, 251, 252, 253, 254, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 32) - 1, 1 << 32, (1 << 64) - 1):
        c = 1 if v < 251 else 2 if v < 65536 else 3 if v < 1 << 24 else 8
        yield v, c

def writer(prog, iid):
    rs = []
    def go(label, mkn):
        def setup(I, st, b, box):
            box['o'] = Out(I, st)
            n, q = mkn(I, st); box['q'] = q
            return [box['o'].ref(I, st), ('i', n)]
        def judge(I, st, v, box):
            return [('int', eq_seqs(I, st, box['o'].appended(I, st), box['q']), 'an integer is not written as marker and little-endian bytes')]
        rs.append(case(prog, iid, setup, judge, label, what=W + ' (write)'))
    for cls in CL:
        def mkn(I, st, cls=cls):
            n, bs = number(I, st, cls)
            return n, enc(I, cls, bs)
        go('class %d' % cls, mkn)
    for v, cls in consts():
        go(str(v), lambda I, st, v=v, cls=cls: (C(v), enc(I, cls, [C(v >> 8 * i & 255) for i in range(cls)])))
    return merge(rs)

def sized(I, st, cls, name):
    """a byte string whose length lies in the class"""
    s = Src(I, st, name)
    lo, hi = CL[cls]
    st.f.assume(p_le(C(lo), s.n)); st.f.assume(p_le(s.n, C(min(hi, 1 << 40))))
    return s

def slice_writer(prog, iid):
    rs = []
    for cls in CL:
        def setup(I, st, b, box, cls=cls):
            n, bs = number(I, st, cls)
            st.f.assume(p_le(n, C(1 << 40)))
            key = K('pktf', 'body', root=True)
            o = ('A', 'body'); st.m[o] = ('q', I.u8(), n, (('src', key, ZERO, n),))
            e = enc(I, cls, bs)
            box['o'] = Out(I, st); box['q'] = ('q', e[1], add(e[2], n), e[3] + (('src', key, ZERO, n),))
            return [box['o'].ref(I, st), ('l', o, (), ZERO, n)]
        def judge(I, st, v, box):
            return [('slice', eq_seqs(I, st, box['o'].appended(I, st), box['q']), 'a string is not written as its length followed by its bytes')]
        rs.append(case(prog, iid, setup, judge, 'class %d' % cls, what=W + ' (write)'))
    return merge(rs)

def size(prog, iid, of_slice):
    rs = []
    for cls in CL:
        def setup(I, st, b, box, cls=cls):
            if of_slice:
                s = sized(I, st, cls, 's')
                box['exp'] = addc(s.n, 1 if cls == 1 else cls + 1)
                return [s.ref()]
            n, _ = number(I, st, cls)
            box['exp'] = C(1 if cls == 1 else cls + 1)
            return [('i', n)]
        def judge(I, st, v, box): return [('size', eq_int(I, st, v, box['exp']), 'the computed size is not the number of bytes written')]
        rs.append(case(prog, iid, setup, judge, 'class %d' % cls, what=W + ' (size)'))
    if not of_slice:
        for v, cls in consts():
            def setup(I, st, b, box): return [('i', C(v))]
            def judge(I, st, x, box, cls=cls): return [('size', eq_int(I, st, x, C(1 if cls == 1 else cls + 1)), 'the computed size of %d is wrong' % v)]
            rs.append(case(prog, iid, setup, judge, str(v), what=W + ' (size)'))
    return merge(rs)

def reader(prog, iid, kind):
    """kind: int | seq.  Result by value or in a Result"""
    rs = []
    b0 = prog.body(iid)
    checked = prog.types[b0.locals[0]].get('path') == 'std::result::Result'
    for cls in CL:
        for cut in ([False] + ([True] if checked and prog.insts[iid]['name'].startswith('checked') else [])):
            def setup(I, st, b, box, cls=cls, cut=cut):
                p = Pkt(I, st)
                if cls == 1: p.int(1, 'n', 0, 0xFA)
                else: p.lit(MARK[cls]).int(cls, 'n')
                n = p.f['n'][1]
                if cut:
                    # the announced bytes are not all there
                    if kind == 'int':
                        p = Pkt(I, st, 'c')
                        if cls > 1:
                            p.lit(MARK[cls]); p.raw('part', p.sym('part', 0, cls - 1))
                    else:
                        st.f.assume(p_le(ONE, n))
                        m = S(sym(('b', kr(K('in', 'short', root=True))), 0, 1 << 40)); st.f.assume(p_lt(m, n)); p.raw('body', m)
                elif kind != 'int':
                    if cls == 8: st.f.assume(p_le(n, C(1 << 40)))
                    p.raw('body', n)
                if not cut: p.rest('rest')
                p.put(); box['p'] = p
                return [parsebuf(I, b.locals[1], p)]
            def judge(I, st, v, box, cut=cut):
                p = box['p']
                if checked:
                    if cut: return [('short', variant(I, v) == 'Err', 'a cut-off value is accepted')]
                    if variant(I, v) != 'Ok': return [('rejected', False, 'a well-formed value is refused')]
                    v = v[3][0]
                o = ('A', 'box', 0)
                rest = field(I, st.m[o], I.T[st.m[o][1]]['variants'][0][2][0][0])
                out = [('rest', eq_seq(I, st, rest, p.f['rest'][1]), 'not exactly the announced bytes are consumed')]
                if kind == 'int': out.append(('value', eq_int(I, st, v, p.f['n'][1]), 'the value read is not the little-endian value'))
                else: out.append(('value', eq_seq(I, st, v, p.f['body'][1]), 'the string read is not the announced bytes'))
                return out
            rs.append(case(prog, iid, setup, judge, 'class %d%s' % (cls, ' cut' if cut else ''), what=W + ' (read)'))
    return merge(rs)

def run(c):
    p = c.prog('full')
    n = 0
    def add(pat, fn, *a):
        nonlocal n
        ids = decode.select(p, lambda i: pat(i['name']))
        for i in ids:
            n += 1
            c.task('%s' % decode.name(p.insts[i]), fn, p, i, *a)
        return ids
    if not add(lambda s: s == 'put_lenenc_int', writer): c.undec('no writer of length-encoded integers found')
    if not add(lambda s: s == 'put_lenenc_slice', slice_writer): c.undec('no writer of length-encoded strings found')
    if not add(lambda s: s == 'lenenc_int_len', size, False): c.undec('no size function found')
    add(lambda s: s == 'lenenc_slice_len', size, True)
    if not add(lambda s: s.endswith('eat_lenenc_int'), reader, 'int'): c.undec('no reader found')
    add(lambda s: s.endswith(('eat_lenenc_slice', 'eat_lenenc_str')), reader, 'seq')
    c.floor('length encoding functions', n, 6)
    c.rules.append('bytes written / value read / rest of the buffer / size equal the protocol form for every integer of each class')
    c.run_tasks()
