"""Monitors of the connection phase: an arbitrary server against Connection::connect."""
import time, os
from engine.dom import STICKY

SMALL = (1, 249)

def name_of(root, kw):
    c = kw.get('conf', {})
    out = ['%s handshake' % kw.get('plugin', 'Native')]
    if c.get('plugin'): out.append('%s configured' % c['plugin'])
    for k in ('clear', 'key', 'db'):
        if c.get(k): out.append(k if c[k] is True else '%s %s' % (c[k], k))
    if c.get('user') == 'empty': out.append('empty user')
    if 'caps' in kw: out.append('flags %#x' % kw['caps'])
    if 'version' in kw: out.append(kw['version'].decode())
    if c.get('pwlen'): out.append('password of %d..%d' % c['pwlen'])
    return '%s (%s)' % (root, ', '.join(out))

def analyse(prog, root, props, maxb, kw):
    from engine.wire import run_async, NotConverged
    from engine.login import Login
    if {'C19', 'C28', 'C32'} & set(props): STICKY or STICKY.append(1)
    m = Login(props=props, secure=root.endswith('secure'), **kw)
    und, I = [], None
    name = name_of(root, kw)
    t0 = time.time()
    try: I = run_async(prog, 'client::' + root, m, prep=m.prep, maxd=400, maxb=maxb)
    except NotConverged as e: und.append('%s: not converged (%s)' % (name, e))
    viol = [dict(key=k, what='%s: %s' % (name, v['msg']), where=v['where'], trace=v['chain']) for k, v in m.found.items() if v['prop'] in props]
    und += ['%s: %s' % (name, u) for k, u in m.unsure.items()]
    n = sum(m.nobl.get(p, 0) for p in props)
    res = dict(violations=viol, undecided=und, oblig=n, disch=n - len(viol) - len(m.unsure) if I else 0)
    if I:
        res['funcs'] = [f for f in (prog.insts[f].get('full') or prog.insts[f]['path'] for f in I.funcs if prog.insts[f]['krate'] == 'mysql_connector')]
        res['counts'] = dict(blocks=I.stats['blocks'], contexts=I.stats['ctxs'], connections=1)
        res['samples'] = [dict(entry=name, blocks=I.stats['blocks'], obligations=n, returns=len(m.returns), accepted=m.accepted, seconds=round(time.time() - t0, 1),
                               unmodelled=sorted(I.unknown)[:6], forced=I.stats['forced'])]
    if os.environ.get('DBGT'): print('%5.1fs %s' % (time.time() - t0, name), flush=True)
    return res

def matrix(roots=('connect_plain', 'connect_secure'), plugins=('Sha2', 'Native', 'Clear'), conf=(None, 'Sha2', 'Native', 'Clear'), clear=(True,), key=(False,), **kw):
    out = []
    for r in roots:
        for p in plugins:
            for cp in conf:
                for cl in clear:
                    for k in key:
                        if not cl and 'Clear' in (cp, p if cp is None else None): continue   # connecting fails right away
                        out.append((r, dict(kw, plugin=p, conf=dict(plugin=cp, clear=cl, key=k, pwlen=kw.get('pwlen', SMALL), db=kw.get('db', False)))))
    for _, k in out: k.pop('pwlen', None); k.pop('db', None)
    return out

def run(c, prop, cases, least, maxb=300000, finish=True):
    p = c.prog('full')
    for r, kw in cases:
        c.task(name_of(r, kw), analyse, p, r, (prop,), maxb, kw)
    c.assumptions.append('hash functions, RSA and the random generator are named operations on their inputs; the server may answer with any packet of the kinds listed in engine/login.py (every first byte, every method name, empty packets)')
    if finish:
        c.run_tasks()
        c.floor('connection-phase obligations', c.oblig, least)
