"""Result sets of a scripted server (engine/rows.py): C02."""
import time, os
from engine.dom import STICKY

def analyse(prog, root, props, maxb, full, dep):
    from engine.wire import run_async, NotConverged
    from engine.rows import Rows
    STICKY or STICKY.append(1)
    label = '%s, DEPRECATE_EOF %s' % ('any number of rows' if full is None else 'row of %d full chunks and a shorter one' % full, 'negotiated' if dep else 'not negotiated')
    m = Rows(props, full=full, dep=dep)
    und, I = [], None
    t0 = time.time()
    try: I = run_async(prog, 'client::' + root, m, prep=lambda I, st, ups: m.prep(I, st, ups), maxd=400, maxb=maxb)
    except NotConverged as e: und.append('%s: not converged (%s)' % (label, e))
    viol = [dict(key=k, what='%s: %s' % (label, v['msg']), where=v['where'], trace=v['chain']) for k, v in m.found.items() if v['prop'] in props]
    und += ['%s: %s' % (label, u) for k, u in m.unsure.items()]
    n = sum(m.nobl.get(p, 0) for p in props)
    res = dict(violations=viol, undecided=und, oblig=n, disch=n - len(viol) - len(m.unsure) if I else 0)
    if I:
        for k, v in m.reports.items(): und.append('%s: frame not understood: %s' % (label, v['msg']))
        if not m.rowsn and not viol: und.append('%s: no row was handed out' % label)
        res['funcs'] = [f for f in (prog.insts[f].get('full') or prog.insts[f]['path'] for f in I.funcs if prog.insts[f]['krate'] == 'mysql_connector')]
        res['counts'] = dict(blocks=I.stats['blocks'], contexts=I.stats['ctxs'], replies=1, rows=m.rowsn)
        res['samples'] = [dict(entry=label, blocks=I.stats['blocks'], obligations=n, rows=m.rowsn, ended=m.ended, seconds=round(time.time() - t0, 1),
                               unmodelled=sorted(I.unknown)[:6], forced=I.stats['forced'])]
    if os.environ.get('DBGT'): print('%5.1fs %s' % (time.time() - t0, label), flush=True)
    return res
