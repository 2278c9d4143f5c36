"""Requests of single commands (engine/cmds.py): C19 and C20."""
import time, os
from engine.dom import *
from . import c16
from .sync import eq_seqs, eq_content, may_differ

def src(key, off, n): return ('src', key, off, n)

def spec_make(spec):
    """spec: [(variant, kwargs)] -> generator of values and their judge"""
    def gen(I, st):
        ty = c16_vty(I)
        vals, comps = [], []
        for i, (name, kw) in enumerate(spec):
            v, c = c16.make(I, st, ty, name, tag=i, **kw)
            vals.append(v); comps.append(c)
        return vals, lambda m, I, st, ctx, q: judge(m, I, st, ctx, q, spec, comps)
    return gen

def c16_vty(I): return c16.vty(I.p)

def tot4(m): return c16.tot(m.stmt_id())

def judge(m, I, st, ctx, q, spec, comps):
    v = I.qget(st, q, ZERO)
    c = st.f.const(v[1]) if v[0] == 'i' else None
    if c == 0x18 and (m.big or m.big is None): return longdata(m, I, st, ctx, q, spec, comps)
    V = lambda what, ok, msg: (m.verdict(I, st, ctx, 'C20', what, ok, msg), m.verdict(I, st, ctx, 'C19', 'execute:' + what, ok, msg))
    V('command', None if c is None else c == 0x17, 'the request after binding the parameters is %s, not an execution' % (c,))
    if c != 0x17: return []
    if m.big:
        for i, (name, kw) in enumerate(spec):
            if name != 'Bytes': continue
            done = st.m.get(('A', 'ld%d' % i))
            ok = False if done is None else st.f.entails(p_eq(done[1], comps[i][0][1]))
            V('long-data-complete', ok, 'the statement is executed before all bytes of a parameter sent as long data were sent')
    n = len(spec)
    idq = [('el', ('i', x), ONE) for x in m.stmt_id()]
    head = [m.k(b'\x17'), *idq, m.k(b'\0\x01\0\0\0')]
    V('head', m.same(I, st, I.qsub(st, q, ZERO, C(10)), head), 'the execution request does not start with its command byte, the statement number, no cursor and one iteration')
    if n == 0:
        V('length', m.same(I, st, q, head), 'bytes follow although there are no parameters')
        return []
    bm = bytearray((n + 7) // 8)
    for i, (name, kw) in enumerate(spec):
        if name == 'Null': bm[i >> 3] |= 1 << (i & 7)
    pos = 10
    V('bitmap', m.same(I, st, I.qsub(st, q, C(pos), C(len(bm) + 1)), [m.k(bytes(bm) + b'\x01')]), 'the NULL bitmap (%d parameters) does not mark exactly the NULL parameters, followed by the marker for new types' % n)
    pos += len(bm) + 1
    for i, (name, kw) in enumerate(spec):
        a, b = I.qget(st, q, C(pos))[1], I.qget(st, q, C(pos + 1))[1]
        a, b = st.f.const(a), st.f.const(b)
        codes = c16.NUM[name][0] if name in c16.NUM else c16.TYPES[name]
        V('type:' + name, None if a is None else a in codes, 'the type code announced for a %s parameter is %s' % (name, a))
        uns = name in c16.NUM and c16.NUM[name][1]
        if name in c16.NUM: V('sign:' + name, None if b is None else b == (0x80 if uns else 0), 'the sign flag of a %s parameter is %s' % (name, b))
        pos += 2
    # values, in order
    off = C(pos)
    for i, (name, kw) in enumerate(spec):
        if name == 'Null' or m.big and name == 'Bytes': continue
        if name in c16.NUM: ln = C(c16.NUM[name][2])
        elif name in ('Float', 'Double'): ln = C(4 if name == 'Float' else 8)
        elif name == 'Bytes':
            cls, nn, bs, key = comps[i][0]
            ln = addc(nn, 1 if cls == 1 else cls + 1)
        else:
            b = st.f.const(I.qget(st, q, off)[1])
            if b is None:
                V('values', None, ''); return []
            ln = C(b + 1)
        if st.f.entails(p_le(add(off, ln), q[2])) is not True:
            V('values', False if st.f.entails(p_le(add(off, ln), q[2])) is False or may_differ(st, add(off, ln), q[2]) else None, 'the request ends before parameter %d' % i)
            return []
        for key, ok, msg in c16.layout_ok(I, st, name, comps[i], I.qsub(st, q, off, ln)):
            V('value:%s:%s' % (name, key), ok, 'parameter %d: %s' % (i, msg))
        off = add(off, ln)
    ok = st.f.entails(p_eq(off, q[2]))
    if ok is None and may_differ(st, off, q[2]): ok = False
    V('end', ok, 'the request does not end after the last parameter')
    return []

def longdata(m, I, st, ctx, q, spec, comps):
    V = lambda what, ok, msg: (m.verdict(I, st, ctx, 'C20', what, ok, msg), m.verdict(I, st, ctx, 'C19', 'long-data:' + what, ok, msg))
    idq = [('el', ('i', x), ONE) for x in m.stmt_id()]
    V('head', m.same(I, st, I.qsub(st, q, ZERO, C(5)), [m.k(b'\x18'), *idq]), 'a long-data packet does not start with its command byte and the statement number')
    a, b = I.qget(st, q, C(5)), I.qget(st, q, C(6))
    i = None
    if a[0] == b[0] == 'i':
        x, y = st.f.const(a[1]), st.f.const(b[1])
        if x is not None and y is not None: i = x + 256 * y
    V('index', None if i is None else i < len(spec) and spec[i][0] == 'Bytes', 'long data is sent for parameter %s, which is no byte string' % i)
    if i is None or i >= len(spec) or spec[i][0] != 'Bytes': return []
    cls, nn, bs, key = comps[i][0]
    done = st.m.get(('A', 'ld%d' % i))
    off = ZERO if done is None else done[1]
    ln = addc(q[2], -7)
    ok = st.f.entails(p_le(add(off, ln), nn))
    V('past', True if ok else None if ok is None and not may_differ(st, add(off, ln), nn) else False if ok is False else None, 'more long data is sent than the parameter has')
    V('data', eq_content(I, st, I.qsub(st, q, C(7), ln), ('q', I.u8(), ln, (src(key, off, ln),))), 'the long data of a packet is not the next stretch of the parameter')
    st.m[('A', 'ld%d' % i)] = ('i', add(off, ln))
    st.seta(ch=st.a('ch', 0) + 1, pos='L')
    return [st]

def analyse(prog, root, props, maxb, kw, spec, label):
    from engine.wire import run_async, NotConverged
    from engine.cmds import Cmd
    STICKY or STICKY.append(1)
    big = kw.pop('big', False)
    m = Cmd(props=props, params=spec_make(spec) if spec is not None else None, big=big, **kw)
    und, I = [], None
    t0 = time.time()
    try: I = run_async(prog, 'client::' + root, m, prep=lambda I, st, ups: m.prep(I, st, ups), maxd=400, maxb=maxb)
    except NotConverged as e: und.append('%s: not converged (%s)' % (label, e))
    viol = [dict(key=k, what='%s: %s' % (label, v['msg']), where=v['where'], trace=v['chain']) for k, v in m.found.items() if v['prop'] in props]
    und += ['%s: %s' % (label, u) for k, u in m.unsure.items()]
    n = sum(m.nobl.get(p, 0) for p in props)
    res = dict(violations=viol, undecided=und, oblig=n, disch=n - len(viol) - len(m.unsure) if I else 0)
    if I:
        for k, v in m.reports.items():
            und.append('%s: frame not understood: %s' % (label, v['msg']))
        res['funcs'] = [f for f in (prog.insts[f].get('full') or prog.insts[f]['path'] for f in I.funcs if prog.insts[f]['krate'] == 'mysql_connector')]
        res['counts'] = dict(blocks=I.stats['blocks'], contexts=I.stats['ctxs'], commands=1, packets=m.sentn)
        res['samples'] = [dict(entry=label, blocks=I.stats['blocks'], obligations=n, packets=m.sentn, ended=m.ended, seconds=round(time.time() - t0, 1),
                               unmodelled=sorted(I.unknown)[:6], forced=I.stats['forced'])]
        if not n and not viol: und.append('%s: nothing was sent' % label)
    if os.environ.get('DBGT'): print('%5.1fs %s' % (time.time() - t0, label), flush=True)
    return res

INT, NUL, UINT, B1 = ('Int', {}), ('Null', {}), ('UInt', {}), ('Bytes', dict(cls=1))

def singles(prog):
    out = []
    for name in c16.names(prog):
        for kw in c16.kinds(name):
            if 'nz' in kw and kw['nz'] not in ((), tuple(range(c16.TEMPORAL[name])), tuple(range(c16.TEMPORAL[name]))[:-1]): continue
            if kw.get('cls') in (3, 8): continue
            out.append([(name, kw)])
    return out

def lists():
    out = [[]]
    for m in range(8): out.append([NUL if m >> i & 1 else (INT, UINT, B1)[i] for i in range(3)])
    for n in (8, 9, 16, 17):
        for at in [()] + [(i,) for i in sorted({0, 6, 7, 8, n - 1}) if i < n] + [tuple(range(n))]:
            out.append([NUL if i in at else ('Tiny', {}) for i in range(n)])
    out += [[B1, INT, B1], [('Long', {}), ('Bytes', dict(cls=2, top=60000)), ('ULong', {}), NUL], [('Double', {}), B1, ('Short', {}), NUL, ('UTiny', {})]]
    return out

def add_execute(c, p, prop):
    for spec in singles(p):
        sp = [(n, dict(kw, top=60000) if n == 'Bytes' else kw) for n, kw in spec]
        c.task('execute %s' % (spec,), analyse, p, 'k_execute', (prop,), 200000, dict(op='execute', count=1), sp, 'execute(%s %s)' % (spec[0][0], spec[0][1] or ''))
    for spec in lists():
        lab = '[%s]' % ', '.join(n for n, _ in spec)
        for dep in ((0, 1) if len(spec) < 3 else (1,)):
            c.task('execute %s %d' % (lab, dep), analyse, p, 'k_execute', (prop,), 200000, dict(op='execute', count=len(spec), dep=dep), spec, 'execute(%s)' % lab)
    for root in ('k_pquery', 'k_named'):
        for spec in ([], [INT, NUL, B1], [NUL] * 8 + [INT], [B1, UINT]):
            lab = '[%s]' % ', '.join(n for n, _ in spec)
            c.task('%s %s' % (root, lab), analyse, p, root, (prop,), 200000, dict(op='execute', count=len(spec)), spec, '%s(%s)' % (root, lab))
    add_long(c, p, prop)

def add_long(c, p, prop):
    for spec in ([('Bytes', dict(cls=8, top=20 << 20))], [INT, ('Bytes', dict(cls=8, top=20 << 20)), NUL, B1], [B1, ('Bytes', dict(cls=8, top=20 << 20)), UINT]):
        lab = '[%s]' % ', '.join(n + (' of more than 16 MiB' if kw.get('cls') == 8 else '') for n, kw in spec)
        for root in ('k_execute', 'k_pquery'):
            c.task('%s %s' % (root, lab), analyse, p, root, (prop,), 300000, dict(op='execute', count=len(spec), big=True), spec, '%s(%s)' % (root, lab))

def add_count(c, p, prop):
    for root in ('k_execute', 'k_pquery', 'k_named'):
        for n, k in ((0, 1), (1, 0), (2, 1), (1, 2), (9, 8), (0, 9)):
            spec = [INT] * n
            c.task('%s %d of %d' % (root, n, k), analyse, p, root, (prop,), 200000, dict(op='execute', count=k), spec, '%s(%d parameters, %d expected)' % (root, n, k))

def add_text(c, p, prop):
    for root, op in (('k_exec', 'exec'), ('k_query', 'query'), ('k_quit', 'quit')):
        for dep in (0, 1):
            c.task('%s %d' % (root, dep), analyse, p, root, (prop,), 200000, dict(op=op, dep=dep), None, root[2:])
