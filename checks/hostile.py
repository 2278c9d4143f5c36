"""A server that sends anything: C11 (no panic) and C14 (allocations)."""
from . import decode
from .connect import SMALL, name_of
OPS = ('exec', 'cleanup', 'query_next', 'query_one', 'query_finish_into_inner', 'prepare', 'prep_execute', 'prep_query', 'disconnect')
OWN = ('StmtExecuteRequest',)      # functions that only ever see parameters of the caller

def inside(p): return '::connection::packets::' in p or '::connection::parse_buf::' in p or '::connection::serialization::' in p

def entry(prog, i):
    """decoders of packets the rest of the crate calls (with the length check of `parse` where they are called through it)"""
    full = i.get('full') or i['path']
    if '::packets::' not in full or any(x in full for x in ('fmt::', '::clone::', '::cmp::', 'Serialize>::', '_request::Stmt', 'Response')): return False
    b = prog.body(i['id'])
    tys = [prog.types[b.locals[k + 1]]['s'] for k in range(b.argc)]
    return any('ParseBuf' in s or '[u8]' in s or 'Vec<u8>' in s for s in tys)

def ops(prog, root, multi, prop):
    from engine.wire import Wire, run_async, NotConverged
    m = mixed(Wire, prop)(); m.multi = multi
    name = root + (', packets of several chunks' if multi else '')
    try: I = run_async(prog, 'client::' + root, m, maxd=400, maxb=500000)
    except NotConverged as e: return dict(undecided=['%s: not converged (%s)' % (name, e)], oblig=1, disch=0)
    return finish(prog, I, m, name, prop)

def login(prog, root, kw, prop):
    from engine.wire import run_async, NotConverged
    from engine.wild import Wild
    m = mixed(Wild, prop)(props=(), secure=root.endswith('secure'), **kw)
    name = name_of(root, kw)
    try: I = run_async(prog, 'client::' + root, m, prep=m.prep, maxd=400, maxb=500000)
    except NotConverged as e: return dict(undecided=['%s: not converged (%s)' % (name, e)], oblig=1, disch=0)
    r = finish(prog, I, m, name, prop)
    if m.over: r['undecided'].append('%s: more than %d packets in the connection phase' % (name, m.most))
    return r

def mixed(cls, prop):
    if prop != 'C14': return cls
    from engine.alloc import Allocs
    return type(cls.__name__ + 'A', (Allocs, cls), {})

def sync(prog, iid, prop):
    from engine.base import Base
    m = mixed(Base, prop)()
    if prop == 'C11': return decode.analyse(prog, iid)
    from engine.base import run_fn, NotConverged
    nm = decode.name(prog.insts[iid])
    try: I = run_fn(prog, iid, m, maxd=64, maxb=250000)
    except NotConverged as e: return dict(undecided=['%s: not converged (%s)' % (nm, e)], oblig=1, disch=0)
    return finish(prog, I, m, nm, prop)

def finish(prog, I, m, name, prop):
    m.reports.clear()          # framing is C01/C02
    if prop == 'C11':
        for k in [k for k in m.panics if any(x in k[0] for x in OWN)]: del m.panics[k]
        return decode.summarise(prog, I, m, name)
    m.panics.clear()
    al = getattr(m, 'allocs', {})
    r = decode.summarise(prog, I, m, name)
    r['oblig'] = getattr(m, 'nalloc', 0)
    r['disch'] = max(0, r['oblig'] - len(al))
    for (fn, what), v in al.items():
        if v['sure']: r['violations'].append(dict(key='alloc:%s:%s' % (decode.clean(fn), what), what='%s: the size passed to %s is a number sent by the server (up to %d), not backed by received data' % (fn, what, v['hi']), where=v['where'], trace=v['chain']))
        else: r['undecided'].append('%s: size of %s at %s' % (name, what, v['where']))
    return r

def add(c, p, prop):
    ids = [i for i in decode.boundary(p, inside) if entry(p, p.insts[i])]
    c.floor('packet decoders', len(ids), 6)
    c.rules.append('entries: ' + ', '.join(decode.name(p.insts[i]) for i in ids))
    c.rules.append('entries: connect (plain and secure), ' + ', '.join(OPS))
    c.assumptions.append('a vector never holds more than isize::MAX bytes (std)')
    for r, kw in (('connect_plain', dict(plugin='Sha2', conf=dict(plugin=None, clear=True, key=False, pwlen=SMALL))),
                  ('connect_plain', dict(plugin='Sha2', conf=dict(plugin='Sha2', clear=False, key=True, pwlen=SMALL))),
                  ('connect_secure', dict(plugin='Sha2', conf=dict(plugin=None, clear=True, key=False, pwlen=SMALL, db=True)))):
        c.task(name_of(r, kw), login, p, r, kw, prop)
    for o in OPS: c.task(o, ops, p, o, False, prop)
    c.task('exec, packets of several chunks', ops, p, 'exec', True, prop)
    for i in ids: c.task(decode.name(p.insts[i]), sync, p, i, prop)
