"""Reference layouts of server packets, and the comparison of decoders with them (C18)."""
from .sync import *
from . import decode, err

def ret_of(prog, i, what):
    """does instance i return Result<..what.., _> (by value)?"""
    b = prog.body(i['id'])
    if b is None: return False
    t = prog.types[b.locals[0]]
    return t.get('path') == 'std::result::Result' and isinstance(t['args'][0], int) and (prog.types[t['args'][0]].get('path') or '').endswith('::' + what)

def decoders(prog, what, names=None):
    return decode.select(prog, lambda i: ret_of(prog, i, what) and (names is None or i['name'] in names) and takes_bytes(prog, i))

def takes_bytes(prog, i):
    b = prog.body(i['id'])
    return b.argc and any(x in prog.types[b.locals[1]]['s'] for x in ('[u8]', 'ParseBuf', 'PoolItem'))

def arg(I, st, ty, p, caps):
    t = I.T[ty]
    s = t['s']
    if 'CapabilityFlags' in s:
        def build(ty):
            t = I.T[ty]
            if t['k'] == 'uint': return ('i', C(caps))
            return ('a', ty, 0, (build(t['variants'][0][2][0][1]),))
        return build(ty)
    if 'PoolItem' in s:
        # a buffer taken from the pool, holding the packet
        o = ('A', 'pktvec')
        st.m[o] = st.m[p.obj]
        def fill(ty, d=0):
            t = I.T[ty]
            if I.is_vec(t): return ('v', o)
            if t['k'] == 'struct' and d < 5 and 'Vec<u8>' in t['s']:
                return ('a', ty, 0, tuple(fill(f[1], d + 1) for f in t['variants'][0][2]))
            if t.get('path') == 'std::option::Option' and 'Vec<u8>' in t['s']:
                return I.mkagg(ty, M.vidx(I, ty, 'Some'), (fill(t['args'][0], d + 1),))
            return I.mk(ty, K('pi', ty, d))
        return fill(ty)
    if '[u8]' in s or 'ParseBuf' in s: return parsebuf(I, ty, p)
    return I.mk(ty, K('arg', ty, root=True))

def run(prog, iid, build, getters, what, must='ok', caps=0, label=''):
    r = run1(prog, iid, build, getters, what, must, caps, label)
    if r['undecided'] and not r.get('violations') and must == 'ok' and getters:
        # constant propagation through the decoder settles what the linear domain leaves open
        for fix in range(3):
            q = run1(prog, iid, build, getters, what, must, caps, label, fix)
            if q.get('violations'): return q
    return r

def run1(prog, iid, build, getters, what, must, caps, label, fix=None):
    """build(p): packet; getters: {field: fn(I, st, value) -> value}; must: ok | err"""
    box = {}
    def setup(I, st, b):
        p = Pkt(I, st)
        p.fix = fix
        build(p)
        p.put()
        box['p'] = p
        return [arg(I, st, b.locals[k + 1], p, caps) for k in range(b.argc)]
    nm = decode.name(prog.insts[iid])
    und, viol = [], []
    try: I, m = decoder(prog, iid, setup, Mon(utf8=True), unroll=96)
    except NotConverged as e: return dict(undecided=['%s: %s' % (nm, e)], oblig=1, disch=0)
    p = box['p']
    n = good = 0
    def bad(key, msg):
        viol.append(dict(key='%s:%s' % (what, key), what='%s (%s): %s' % (what, label, msg), where=nm))
    for st, v in m.returns:
        n += 1
        if must == 'err':
            if variant(I, v) != 'Err' and st.f.dim: und.append('%s %s: hinges' % (nm, label))
            elif variant(I, v) != 'Err': bad('short-accepted', 'a packet too short for its mandatory fields is accepted')
            continue
        if variant(I, v) != 'Ok':
            if st.f.dim: und.append('%s %s: result hinges on a value that is not tracked exactly' % (nm, label))
            else: bad('rejected', 'a well-formed packet is refused')
            continue
        for fld, g in getters.items():
            exp = p.f.get(fld)
            val = g(I, st, v[3][0])
            if exp is None or val is None:
                und.append('%s: field %s not found' % (nm, fld)); continue
            kind, exp = exp
            if kind == 'none': r = True if variant(I, val) == 'None' else False if variant(I, val) == 'Some' else None
            elif kind == 'some':
                if variant(I, val) == 'None': r = False
                elif variant(I, val) == 'Some': r = eq_seq(I, st, val[3][0], exp)
                else: r = None
            elif kind == 'var': r = None if variant(I, val) is None else variant(I, val) == exp
            elif kind == 'int': r = eq_int(I, st, val, exp)
            else: r = eq_seq(I, st, val, exp)
            if r is False: bad(fld, 'field %s is not the one at its protocol position' % fld)
            elif r is None: und.append('%s (%s): field %s undecided' % (nm, label, fld))
            else: good += 1
    if not n: und.append('%s (%s) never returns' % (nm, label))
    viol = list({v['key']: v for v in reversed(viol)}.values())
    k = max(1, good) + len(viol)
    return dict(violations=viol, undecided=und, oblig=k, disch=k - len(viol), funcs=[nm], counts=dict(layout_variants=1),
                samples=[dict(entry=nm, variant=label, returns=n, fields_compared=good)])

def merge(rs):
    out = dict(violations=[], undecided=[], oblig=0, disch=0, funcs=[], samples=[], counts={})
    for r in rs:
        for k in ('violations', 'undecided', 'funcs', 'samples'): out[k] += r.get(k, [])
        for k in ('oblig', 'disch'): out[k] += r.get(k, 0)
        for k, n in r.get('counts', {}).items(): out['counts'][k] = out['counts'].get(k, 0) + n
    out['violations'] = list({v['key']: v for v in reversed(out['violations'])}.values())
    out['samples'] = out['samples'][:3]
    return out

def F(*path):
    def g(I, st, v):
        for name in path:
            v = field(I, v, name)
            if v is None: return None
        return v
    return g

SESSION_TRACK, DEPRECATE_EOF, PROTOCOL_41 = 1 << 23, 1 << 24, 1 << 9
BITS = [k for k in range(15) if k != 2]     # status flags the protocol defines
OKF = {k: F(k) for k in ('affected_rows', 'last_insert_id', 'status', 'warnings')}

def ok_packet(prog, iid, header, eofok):
    rs = []
    def build(a, b, status, msg=None, state=None):
        def go(p):
            p.lit(header).lenenc('affected_rows', a).lenenc('last_insert_id', b)
            p.lit(status & 255, status >> 8).int(2, 'warnings')
            p.f['status'] = ('int', C(status & 0x7FFB))
            if eofok: p.f['affected_rows'] = p.f['last_insert_id'] = ('int', ZERO)
            if msg is not None: p.lenstr('message', msg, lo=1); p.f['message'] = ('some', p.f['message'][1])
            if state is not None: p.lenstr('session_state_info', state, lo=1); p.f['session_state_info'] = ('some', p.f['session_state_info'][1])
        return go
    caps0 = PROTOCOL_41 | (DEPRECATE_EOF if eofok else 0)
    W = 'end of result' if eofok else 'OK packet'
    for a in (0, 2, 3, 8):
        for b in (0, 2, 3, 8):
            rs.append(run(prog, iid, build(a, b, 2), OKF, W, caps=caps0, label='%d,%d' % (a, b)))
    for k in BITS: rs.append(run(prog, iid, build(0, 0, 1 << k), OKF, W, caps=caps0, label='status bit %d' % k))
    g = dict(OKF, message=F('message'))
    for m in (0, 2, 3): rs.append(run(prog, iid, build(0, 2, 2, m), g, W, caps=caps0, label='message %d' % m))
    g2 = dict(g, session_state_info=F('session_state_info'))
    for m, s in ((0, 0), (2, 0), (0, 2)):
        rs.append(run(prog, iid, build(0, 0, 0x4002, m, s), g2, W, caps=caps0 | SESSION_TRACK, label='state %d,%d' % (m, s)))
    def nost(p):
        build(0, 0, 0x4002, 0)(p); p.lenstr('x', 0, lo=1); p.f['session_state_info'] = ('none', None)
    rs.append(run(prog, iid, nost, g2, W, caps=caps0, label='no session tracking'))
    # truncation: header, then fewer bytes than the mandatory fields
    for k in range(1, 7):
        rs.append(run(prog, iid, lambda p: p.lit(bytes([header, 1, 1, 2, 0, 0, 0][:k])), {}, W, must='err', caps=caps0, label='%d bytes' % k))
    return merge(rs)

def old_eof(prog, iid, caps):
    rs = []
    def build(status):
        def go(p):
            p.lit(0xFE).int(2, 'warnings').lit(status & 255, status >> 8)
            p.f['status'] = ('int', C(status & 0x7FFB))
        return go
    g = {k: F(k) for k in ('status', 'warnings')}
    for k in BITS: rs.append(run(prog, iid, build(1 << k), g, 'EOF packet', caps=caps, label='status bit %d' % k))
    for k in range(1, 5): rs.append(run(prog, iid, lambda p: p.lit(bytes([0xFE, 0, 0, 2][:k])), {}, 'EOF packet', must='err', caps=caps, label='%d bytes' % k))
    return merge(rs)

TYPES = {0: 'Decimal', 1: 'Tiny', 2: 'Short', 3: 'Long', 4: 'Float', 5: 'Double', 6: 'Null', 7: 'Timestamp', 8: 'LongLong', 9: 'Int24',
         10: 'Date', 11: 'Time', 12: 'DateTime', 13: 'Year', 15: 'VarChar', 16: 'Bit', 0xF5: 'Json', 0xF6: 'NewDecimal', 0xF7: 'Enum', 0xF8: 'Set',
         0xF9: 'TinyBlob', 0xFA: 'MediumBlob', 0xFB: 'LongBlob', 0xFC: 'Blob', 0xFD: 'VarString', 0xFE: 'String', 0xFF: 'Geometry'}
COLF = ('db', 'table', 'org_table', 'name', 'org_name')

def coldef(prog, iid, part):
    rs = []
    def build(cls, ty=0xFD, flags=None):
        def go(p):
            p.lit(3, b'def')
            for f, c in zip(COLF, cls): p.lenstr(f, c)
            p.lit(12).int(2, 'charset').int(4, 'length').lit(ty)
            if flags is None: p.int(2, 'flags')
            else: p.lit(flags & 255, flags >> 8); p.f['flags'] = ('int', C(flags))
            p.int(1, 'decimals').lit(0, 0)
            p.f['type'] = ('int', C(ty))
        return go
    def ty(I, st, v):
        x = F('type')(I, st, v)
        if x is None: x = F('r#type')(I, st, v)
        return None if x is None else ('i', I.discr(st, x))
    g = {f: F(f) for f in COLF + ('charset', 'length', 'decimals')}
    g['type'] = ty
    gf = dict(g, flags=F('flags'))
    if part == 0:
        for i in range(6):
            for c in (2, 3):
                cls = [0] * 5
                if i < 5: cls[i] = c
                rs.append(run(prog, iid, build(cls, flags=0), gf, 'column definition', label=str(cls)))
        for k in range(0, 13):
            def short(p, k=k):
                p.lit(3, b'def')
                for f in COLF: p.lenstr(f, 0)
                p.lit(bytes([12, 45, 0, 0, 0, 0, 0, 0xFD, 0, 0, 0, 0, 0])[:k])
            if k < 11: rs.append(run(prog, iid, short, {}, 'column definition', must='err', label='%d bytes of fixed part' % k))
    elif part == 1:
        for t in TYPES:
            rs.append(run(prog, iid, build([0] * 5, ty=t, flags=0), gf, 'column definition', label='type %d' % t))
    else:
        for k in range(15): rs.append(run(prog, iid, build([0] * 5, flags=1 << k), gf, 'column definition', label='flag bit %d' % k))
    return merge(rs)

PLUGINS = {'Clear': b'mysql_clear_password', 'Native': b'mysql_native_password', 'Sha2': b'caching_sha2_password'}
SECURE, PLUGIN_AUTH = 1 << 15, 1 << 19

def handshake(prog, iid):
    rs = []
    gs = {k: F(k) for k in ('protocol_version', 'connection_id', 'capabilities', 'default_collation', 'status_flags', 'nonce')}
    gs['server_version'] = F('server_version')
    def build(caps, plugin=None, adl=21, vlen=6, nul=True):
        def go(p):
            p.int(1, 'protocol_version')
            # a version without a zero byte
            els = []
            for i in range(vlen):
                x = p.sym(('v', i), 1, 127); p.byte(x); els.append(('el', ('i', x), ONE))
            p.f['server_version'] = ('seq', ('q', p.I.u8(), C(vlen), tuple(els)))
            p.lit(0).int(4, 'connection_id')
            p.raw('n1', C(8)).lit(0).lit(caps & 255, caps >> 8 & 255).int(1, 'default_collation').lit(2, 0)
            p.lit(caps >> 16 & 255, caps >> 24, adl, bytes(10))
            p.f['status_flags'] = ('int', C(2)); p.f['capabilities'] = ('int', C(caps))
            n1 = p.f['n1'][1][3]
            if caps & SECURE:
                n = max(13, adl - 8)
                p.raw('n2', C(12)); n2 = p.f['n2'][1][3]
                p.raw('n3', C(n - 12), field=False)
            else: n2 = (('k', bytes(12), C(12)),)
            p.f['nonce'] = ('seq', ('q', p.I.u8(), C(20), tuple(n1) + tuple(n2)))
            if plugin is not None:
                p.lit(PLUGINS[plugin]).lit(b'\0' if nul else b'')
                p.f['auth_plugin'] = ('someplugin', plugin)
            else: p.f['auth_plugin'] = ('noneplugin', None)
        return go
    base = PROTOCOL_41 | 8
    def plug(I, st, v):
        x = F('auth_plugin')(I, st, v)
        return x
    for caps, pl in ((base | SECURE | PLUGIN_AUTH, 'Native'), (base | SECURE | PLUGIN_AUTH, 'Sha2'), (base | SECURE | PLUGIN_AUTH, 'Clear'),
                     (base | SECURE | PLUGIN_AUTH | DEPRECATE_EOF, 'Native'), (base | SECURE, None), (base, None)):
        for adl in ((21, 0, 30) if caps & SECURE else (0,)):
            for nul in (True, False):
                if pl is None and not nul: continue
                def b(p, caps=caps, pl=pl, adl=adl, nul=nul):
                    build(caps, pl, adl, nul=nul)(p)
                    if pl is None: p.f['auth_plugin'] = ('none', None)
                    else: p.f['auth_plugin'] = ('var', pl)
                def ap(I, st, v, pl=pl):
                    x = F('auth_plugin')(I, st, v)
                    if pl is None or x is None or variant(I, x) != 'Some': return x
                    return x[3][0]
                rs.append(run(prog, iid, b, dict(gs, auth_plugin=ap), 'handshake', label='caps %x, %s, %d' % (caps, pl, adl)))
    full = b'\x0a8.0\0' + bytes(4) + b'abcdefgh\0' + bytes([8 | 0x00, 0x82]) + b'\x21\x02\0\x08\0\x15' + bytes(10) + b'ijklmnopqrst\0mysql_native_password\0'
    for k in (1, 4, 5, 9, 17, 18, 20, 23, 25, 26, 30, 35, 40): rs.append(run(prog, iid, lambda p: p.lit(full[:k]), {}, 'handshake', must='err', label='%d bytes' % k))
    return merge(rs)

def auth_switch(prog, iid):
    rs = []
    for pl, nm in PLUGINS.items():
        for term in (True, False):
            def build(p, pl=pl, nm=nm, term=term):
                p.lit(0xFE).lit(nm).lit(0)
                # 20 challenge bytes, not ending in zero
                els = []
                for i in range(20):
                    x = p.sym(('c', i), 1 if i == 19 else 0, 255); p.byte(x); els.append(('el', ('i', x), ONE))
                p.f['data'] = ('seq', ('q', p.I.u8(), C(20), tuple(els)))
                p.f['plugin'] = ('var', pl)
                if term: p.lit(0)
            rs.append(run(prog, iid, build, dict(plugin=F('plugin'), data=F('data')), 'authentication switch', label='%s %s' % (pl, term)))
    return merge(rs)

def stmt(prog, iid):
    rs = []
    def build(p): p.lit(0).int(4, 'id').int(2, 'columns_len').int(2, 'params_len').int(1, 'f').int(2, 'warning_count')
    rs.append(run(prog, iid, build, {k: F(k) for k in ('id', 'columns_len', 'params_len', 'warning_count')}, 'prepare reply'))
    for k in range(1, 12): rs.append(run(prog, iid, lambda p: p.lit(bytes(k)), {}, 'prepare reply', must='err', label='%d bytes' % k))
    return merge(rs)

def column(prog, iid):
    """conversion of a column definition into the public Column"""
    rs = []
    nm = decode.name(prog.insts[iid])
    src = {}
    class P: pass
    def prep(I, st, args):
        b = I.p.body(iid)
        ty = b.locals[1]
        fs = []
        for n, f in enumerate(I.T[ty]['variants'][0][2]):
            t = I.T[f[1]]
            if t['k'] == 'ref':
                s = Src(I, st, f[0])
                fs.append(s.ref()); src[f[0]] = ('seq', s.seg(ZERO, s.n))
            else:
                v = I.mk(f[1], K('cd', f[0], root=True)); fs.append(v)
                src[f[0]] = ('val', v)
        return [('a', ty, 0, tuple(fs))]
    m = Mon(utf8=True)
    try: I = run_fn(prog, iid, m, prep=prep, maxb=50000)
    except NotConverged as e: return dict(undecided=['%s: %s' % (nm, e)], oblig=1, disch=0)
    viol, und, good = [], [], 0
    for st, v in m.returns:
        if variant(I, v) == 'Err':
            viol.append(dict(key='column:rejected', what='a valid column definition is refused', where=nm)); continue
        c = v[3][0] if variant(I, v) == 'Ok' else v
        if c[0] == 's': c = I.expand(c)
        for n, f in enumerate(I.T[c[1]]['variants'][0][2]):
            if f[0] not in src: und.append('%s: no counterpart of %s' % (nm, f[0])); continue
            kind, exp = src[f[0]]
            if kind == 'seq': r = eq_seq(I, st, c[3][n], exp)
            else:
                a, b = unwrap1(I, c[3][n]), unwrap1(I, exp)
                r = True if a == b else st.f.entails(p_eq(a[1], b[1])) if a[0] == 'i' and b[0] == 'i' else \
                    (False if a[0] == 's' and b[0] == 's' and a[1] == b[1] else None)
            if r is False: viol.append(dict(key='column:' + f[0], what='Column::%s is not taken from the column definition' % f[0], where=nm))
            elif r is None: und.append('%s: %s undecided' % (nm, f[0]))
            else: good += 1
    k = max(1, good) + len(viol)
    return dict(violations=viol, undecided=und, oblig=k, disch=k - len(viol), funcs=[nm])
