"""No-panic obligations of synchronous entry points (abstract interpretation of their MIR)."""
import time
from .common import Undecidable

def select(prog, pred):
    out = []
    for i in prog.insts:
        if i['krate'] == 'mysql_connector' and '{closure' not in i['path'] and prog.body(i['id']) is not None and pred(i):
            out.append(i['id'])
    return out

def name(i): return i.get('full') or i['path']

def analyse(prog, iid, maxb=250000, maxd=64, ignore=(), monitor=None):
    """-> result dict for common.Check.run_tasks"""
    from engine.base import Base, run_fn, NotConverged
    m = monitor or Base()
    i = prog.insts[iid]
    nm = name(i)
    try:
        I = run_fn(prog, iid, m, maxd=maxd, maxb=maxb)
    except NotConverged as e:
        return dict(undecided=['%s: not converged (%s)' % (nm, e)], oblig=1, disch=0)
    return summarise(prog, I, m, nm, ignore)

def summarise(prog, I, m, nm, ignore=()):
    viol, und = [], []
    bad = set()
    for (path, where, kind), v in m.panics.items():
        if kind in ignore: continue
        key = 'panic:%s:%s' % (clean(path), kind)
        if v['dim']:
            und.append('%s: %s at %s hinges on an unmodelled value' % (nm, kind, where))
        else:
            viol.append(dict(key=key, what='%s can panic (%s)' % (clean(path), kind), where=where, trace=v['chain']))
        bad.add((where, kind))
    for (path, where, kind), v in m.reports.items():
        key = '%s:%s' % (kind, clean(path))
        viol.append(dict(key=key, what='%s: %s' % (kind, v['msg'][:200]), where=where, trace=v['chain']))
        bad.add((where, kind))
    fs = [name(prog.insts[f]) for f in I.funcs if prog.insts[f]['krate'] == 'mysql_connector']
    n = len(I.oblig)
    return dict(violations=viol, undecided=und, oblig=n + 1, disch=max(0, n + 1 - len(bad)), funcs=fs,
                samples=[dict(entry=nm, blocks=I.stats['blocks'], obligations=n, returns=len(m.returns),
                              unmodelled=sorted(I.unknown)[:6], forced=I.stats['forced'])],
                counts=dict(blocks=I.stats['blocks'], entries=1))

def clean(p):
    return p.replace(' ', '')

def callees(prog, iid):
    b = prog.body(iid)
    if b is None: return
    for blk in b.blocks:
        if blk is None: continue
        t = blk[1]
        if t['k'] == 'call' and 'fn' in t: yield t['fn'], t
        if t['k'] == 'drop' and t.get('fn') is not None: yield t['fn'], t

def boundary(prog, inside):
    """functions of the subject for which inside(path) holds and that are called from
    outside, or that are not called at all within the dump (public entry points)"""
    called_in, called_out = set(), set()
    for i in prog.insts:
        if prog.body(i['id']) is None: continue
        src = i['krate'] == 'mysql_connector' and inside(i['path'])
        for f, _ in callees(prog, i['id']):
            (called_in if src else called_out).add(f)
    out = []
    for i in select(prog, lambda i: inside(i['path'])):
        if i in called_out or i not in called_in: out.append(i)
    return out
