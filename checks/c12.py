from . import decode
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of MIR (interval + linear facts, typed byte-buffer model): every panic, bounds and overflow site reachable from the row decoders is an obligation'
EXPLANATION = ('Both row decoders and the per-value text/binary decoders are interpreted abstractly from an arbitrary packet, '
  'arbitrary column count, types and flags; each assert terminator, slice operation, unwrap and panic call reached is an obligation that must be infeasible.')

def pred(i):
    p = i['path']
    return (p.endswith('::read_result_set_row') or p.endswith('Value>::deserialize_text') or p.endswith('::deserialize_bin')
            or p.endswith('::read_row') or p.endswith('Value::deserialize_text'))

def run(c):
    p = c.prog('full')
    ids = decode.select(p, pred)
    rows = [i for i in ids if 'read_result_set_row' in p.insts[i]['path']]
    c.floor('row decoders', len(rows), 2)
    c.rules.append('no reachable panic, slice-bounds or arithmetic-overflow site from ' + ', '.join(decode.name(p.insts[i]) for i in ids))
    for i in ids: c.task(decode.name(p.insts[i]), decode.analyse, p, i)
    c.run_tasks()
    c.assumptions.append('the packet length and the column count fit in isize (guaranteed by Vec)')
