"""Protocol monitors run over sequences of client operations (fixture/src/client.rs)."""
import time
from .common import Undecidable

ROOTS = ('r_query_exec@0', 'r_query_exec@1', 'r_query_cleanup@0', 'r_query_cleanup@1', 'r_exec_exec@1', 'r_exec_exec@0',
         'r_prep_exec@0', 'r_prep_exec@1', 'r_prep_query@0', 'r_prep_query@1', 'r_prep_ld@0', 'r_prep_ld@1')
COST = {'r_prep_ld': 0, 'r_prep_query': 1, 'r_query_exec': 2, 'r_query_cleanup': 3, 'r_prep_exec': 4, 'r_exec_exec': 5}

def analyse(prog, root, dep, props, maxb, kw):
    from engine.wire import run_async, NotConverged
    from engine.proto import Proto
    # packets of any length, except where long data (whose frames are followed symbolically) is sent
    waits = bool({'C09', 'C10'} & set(props))
    if root != 'r_prep_ld' and not {'C01', 'C02'} & set(props) and not (waits and root == 'r_prep_query') and not kw.get('resume'): kw = dict(kw, multi_w=True)
    m = Proto(props, dep=dep, **kw)
    name = '%s (DEPRECATE_EOF %s)' % (root, 'negotiated' if dep else 'not negotiated')
    und, I = [], None
    t0 = time.time()
    try: I = run_async(prog, 'client::' + root, m, maxb=maxb)
    except NotConverged as e: und.append('%s: not converged (%s)' % (name, e))
    viol = [dict(key=k, what=v['msg'], where=v['where'], trace=v['chain']) for k, v in m.found.items() if v['prop'] in props]
    und += ['%s: %s' % (name, u) for u in m.unsure.values()]
    n = sum(m.nobl.get(p, 0) for p in props)
    res = dict(violations=viol, undecided=und, oblig=n, disch=n - len(viol) if I else 0)
    if I:
        res['funcs'] = [f for f in (prog.insts[f].get('full') or prog.insts[f]['path'] for f in I.funcs if prog.insts[f]['krate'] == 'mysql_connector')]
        res['counts'] = dict(blocks=I.stats['blocks'], contexts=I.stats['ctxs'], sequences=1)
        res['samples'] = [dict(entry=name, blocks=I.stats['blocks'], obligations=n, returns=len(m.returns), seconds=round(time.time() - t0, 1),
                               unmodelled=sorted(I.unknown)[:6], forced=I.stats['forced'])]
        if not m.returns and not viol: res['undecided'].append('%s: no complete execution found' % name)
    return res

def run(c, prop, roots=ROOTS, least=100, maxb=260000, **kw):
    p = c.prog('full')
    have = set(i['path'].rsplit('::', 1)[-1] for i in p.insts if i['krate'] == 'verif_fixture')
    for r in sorted(roots, key=lambda r: COST.get(r[:-2], 9)):
        c.task(r, analyse, p, r[:-2], int(r[-1]), (prop,), maxb, kw)
    c.run_tasks()
    c.floor('reference automaton obligations', c.oblig, least)
    c.assumptions.append('the server follows the MySQL protocol up to the position reached (deviations are the subject of C02 and C11); operation sequences are those of fixture/src/client.rs')
