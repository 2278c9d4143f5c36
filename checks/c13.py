from . import decode
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of MIR: every panic, bounds and overflow site reachable from key parsing, padding and scrambling is an obligation'
EXPLANATION = ('Every function of the key/encryption and scramble code that the rest of the crate (or a user) can call is interpreted from arbitrary '
  'arguments (any PEM/DER bytes, any password and challenge length, any modulus and exponent); each assert terminator, slice operation, unwrap, '
  'division and panic call reached must be infeasible. Digest, big-integer and RNG primitives are modelled by their documented output lengths and preconditions.')

def inside(p):
    return 'utils::crypt' in p or 'utils::scramble' in p or p.startswith('mysql_connector::PublicKey::')

def run(c):
    p = c.prog('full')
    ids = sorted(set(decode.boundary(p, inside)) | set(decode.select(p, lambda i: i.get('pub') and '::PublicKey>::' in i['path'] and ' as ' not in i['path'])))
    ids = [i for i in ids if not any(x in p.insts[i]['path'] for x in ('fmt::Debug', 'fmt::Display', 'clone::Clone'))]
    c.floor('key parsing / encryption entry points', len(ids), 4)
    c.rules.append('no reachable panic from ' + ', '.join(decode.name(p.insts[i]) for i in ids))
    for i in ids: c.task(decode.name(p.insts[i]), decode.analyse, p, i)
    c.run_tasks()
