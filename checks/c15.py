from .sync import *
from . import decode, c16
from .layouts import merge
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of both row decoders on one-column rows of every column type and signedness; variants of the decoded values compared; text forms with symbolic digits'
EXPLANATION = ('For every column type the client knows and every relevant flag combination, the set of value variants the text row decoder can produce from an arbitrary field equals the set the binary row decoder can produce; '
  'NULL gives NULL in both, and a type refused by one is refused by the other. Integers, dates and times given as text with symbolic digits must decode to the number and components those digits denote.')

def variants_of(prog, iid, code, flags, fill):
    """(variants of the only value over all Ok returns, any Err?) or None"""
    box = {}
    def setup(I, st, b):
        p = Pkt(I, st); fill(p); p.put()
        return [p.ref(), c16.colslice(I, st, b.locals[2], [(code, flags)])]
    try: I, m = decoder(prog, iid, setup, Mon(utf8=True), unroll=96)
    except NotConverged as e: return None, False
    out = set()
    for st, v in m.returns:
        vals = c16.row_values(I, st, v)
        if vals is None: continue
        if vals is False or len(vals) != 1: return None, False
        x = vals[0]
        if x[0] == 'a': out.add(variant(I, x))
        elif x[0] == 'e': out |= {I.T[x[1]]['variants'][k][0] for k, _ in x[3]}
        else: return None, False
    return out, True

def compare(prog, text, bin_, code):
    und, viol, good = [], [], 0
    names = [decode.name(prog.insts[text]), decode.name(prog.insts[bin_])]
    for flags in (0, 0x20, 0x1081, 0x10A1):
        def ft(p): p.byte(p.sym('len', 0, 0xFA)); p.raw('body', p.sym('len', 0, 0xFA))
        def fb(p): p.lit(0, 0); p.raw('body', p.sym('len', 0, 1 << 20))
        a, _ = variants_of(prog, text, code, flags, ft)
        b, _ = variants_of(prog, bin_, code, flags, fb)
        lab = 'type %d%s' % (code, ' unsigned' if flags & 0x20 else '')
        if a is None or b is None or len(a) > 1 or len(b) > 1: und.append('%s: variants not determined' % lab); continue
        if code == 6:
            # the NULL type: only NULL itself can be sent
            good += 1; continue
        if a != b:
            viol.append(dict(key='variants:%d:%d' % (code, flags & 0x20), what='%s decodes to %s in the text protocol and to %s in the binary protocol' % (lab, sorted(a) or 'an error', sorted(b) or 'an error'), where=names[0]))
        else: good += 1
        for nm, i, f in (('text', text, lambda p: p.lit(0xFB)), ('binary', bin_, lambda p: p.lit(0, 4))):
            n, _ = variants_of(prog, i, code, flags, f)
            if n is None: und.append('%s: NULL not determined (%s)' % (lab, nm))
            elif n != {'Null'}: viol.append(dict(key='null:%s' % nm, what='%s: NULL decodes to %s in the %s protocol' % (lab, sorted(n) or 'an error', nm), where=decode.name(prog.insts[i])))
            else: good += 1
    k = max(1, good) + len(viol)
    return dict(violations=viol, undecided=und, oblig=k, disch=k - len(viol), funcs=names, counts=dict(column_types=1))

def digits(p, name, n, first=0):
    """n symbolic decimal digits; returns the number"""
    v = ZERO
    for i in range(n):
        d = p.sym((name, i), 48 + (first if i == 0 else 0), 57)
        p.byte(d)
        v = add(mulc(v, 10), addc(d, -48))
    return v

def text_case(prog, iid, code, flags, name, fill, label):
    """fill(p) appends the text and returns the expected components"""
    def setup(I, st, b, box):
        body = Pkt(I, st, 'b'); want = fill(body)
        p = Pkt(I, st)
        p.byte(body.n)
        for s in body.segs: p._seg(s)
        p.put()
        box['c'] = want
        if box.get('assume'): pass
        return [p.ref(), c16.colslice(I, st, b.locals[2], [(code, flags)])]
    def judge(I, st, v, box): return c16.judge_row(I, st, v, [(name, box['c'])])
    return case(prog, iid, setup, judge, '%s type %d %s' % (name, code, label), what='text ' + name)

INTS = {1: ('Tiny', 'UTiny', 8), 2: ('Short', 'UShort', 16), 13: ('Short', 'UShort', 16), 9: ('Int', 'UInt', 32), 3: ('Int', 'UInt', 32), 8: ('Long', 'ULong', 64)}

def text_ints(prog, iid):
    rs = []
    for code, (s, u, bits) in INTS.items():
        for uns in (False, True):
            hi = (1 << (bits - (not uns))) - 1
            nd = len(str(hi)) - 1          # every number of that many digits fits
            for n in range(1, nd + 1):
                rs.append(text_case(prog, iid, code, 0x20 if uns else 0, u if uns else s, lambda p: [('int', digits(p, 'd', n))], '%d digits' % n))
                if not uns: rs.append(text_case(prog, iid, code, 0, s, lambda p: [('int', mulc(digits(p.lit(b'-'), 'd', n), -1))], '-%d digits' % n))
            for v in (hi,) if uns else (hi, -hi - 1):
                rs.append(text_case(prog, iid, code, 0x20 if uns else 0, u if uns else s, lambda p: [('int', C(v)) for _ in [p.lit(str(v).encode())]], str(v)))
    return merge(rs)

def small(p, name, tens):
    """two digits, first at most `tens`"""
    a = p.sym((name, 0), 48, 48 + tens); b = p.sym((name, 1), 48, 57)
    p.byte(a).byte(b)
    return add(mulc(addc(a, -48), 10), addc(b, -48))

def date(p):
    y = digits(p, 'y', 4); p.lit(b'-'); m = small(p, 'm', 1); p.lit(b'-'); d = small(p, 'd', 3)
    return [('int', y), ('int', m), ('int', d)]

def clock(p, frac):
    m = small(p, 'mi', 5); p.lit(b':'); s = small(p, 's', 5)
    u = ZERO
    if frac:
        p.lit(b'.'); u = mulc(digits(p, 'u', frac), 10 ** (6 - frac))
    return [('int', m), ('int', s), ('int', u)]

def text_times(prog, iid):
    rs = []
    rs.append(text_case(prog, iid, 10, 0x80, 'Date', date, ''))
    for code in (7, 12):
        for frac in range(7):
            def dt(p):
                r = date(p); p.lit(b' '); h = small(p, 'h', 1); p.lit(b':')
                return r + [('int', h)] + clock(p, frac)
            rs.append(text_case(prog, iid, code, 0x80, 'Datetime', dt, '%d fractional digits' % frac))
    for neg in (False, True):
        for frac in range(7):
            for hh in (b'00', b'07', b'23', b'24', b'47', b'48', b'99', b'100', b'239', b'838'):
                def tm(p):
                    if neg: p.lit(b'-')
                    h = int(hh); p.lit(hh, b':')
                    return [('bool', neg), ('int', C(h // 24)), ('int', C(h % 24))] + clock(p, frac)
                if frac in (0, 3, 6) or hh == b'07': rs.append(text_case(prog, iid, 11, 0x80, 'Time', tm, '%s%s, %d fractional digits' % ('-' if neg else '', hh.decode(), frac)))
    return merge(rs)

def text_bytes(prog, iid):
    rs = []
    for code in (0, 15, 16, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255):
        for cls in (0, 2, 3, 8):
            def setup(I, st, b, box):
                p = Pkt(I, st); p.lenstr('bytes', cls); p.put(); box['c'] = [('seq', p.f['bytes'][1])]
                return [p.ref(), c16.colslice(I, st, b.locals[2], [(code, 0)])]
            def judge(I, st, v, box): return c16.judge_row(I, st, v, [('Bytes', box['c'])])
            rs.append(case(prog, iid, setup, judge, 'type %d class %d' % (code, cls), what='text Bytes'))
    return merge(rs)

def mixed(prog, iid):
    """several columns: values in column order, NULL in place"""
    rs = []
    for nulls in ((), (0,), (1,), (2,), (0, 2), (0, 1, 2)):
        def setup(I, st, b, box):
            p = Pkt(I, st); want = []
            for i in range(3):
                if i in nulls: p.lit(0xFB); want.append(('Null', []))
                elif i == 1: p.lenstr(i, 0); want.append(('Bytes', [('seq', p.f[i][1])]))
                else: p.lit(2); want.append(('Short', [('int', digits(p, i, 2))]))
            p.put(); box['w'] = want
            return [p.ref(), c16.colslice(I, st, b.locals[2], [(2, 0), (253, 0), (2, 0)])]
        def judge(I, st, v, box): return c16.judge_row(I, st, v, box['w'])
        rs.append(case(prog, iid, setup, judge, 'NULL %s' % (nulls,), what='text row'))
    return merge(rs)

def run(c):
    p = c.prog('full')
    rows = decode.select(p, lambda i: i['name'] == 'read_result_set_row')
    bins = [i for i in rows if 'Binary' in (p.insts[i].get('full') or '')]
    texts = [i for i in rows if i not in bins]
    if not bins or not texts: c.undec('row decoders of both protocols not found')
    ty = next((t for t in p.types if (t.get('path') or '').endswith('ColumnType') and t['k'] == 'enum'), None)
    codes = [v[1] for v in ty['variants']] if ty else []
    for i in texts:
        for code in codes:
            for b in bins: c.task('type %d' % code, compare, p, i, b, code)
        c.task('text integers', text_ints, p, i)
        c.task('text dates and times', text_times, p, i)
        c.task('text strings', text_bytes, p, i)
        c.task('text rows', mixed, p, i)
    c.floor('column types', len(codes), 28)
    c.rules.append('same value variant from both row decoders for every column type and signedness; NULL is NULL; text digits denote the decoded components')
    c.run_tasks()
