from . import hostile
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of MIR with an arbitrary-server wire model: every panic, bounds and overflow site reachable from a packet is an obligation'
EXPLANATION = ('(1) Every packet decoder is interpreted on arbitrary bytes of any length, with any capability flags. (2) The connection phase and every operation of a connection, a prepared statement and a result set are '
  'interpreted against a server that sends arbitrary bytes (any header, any payload, packets of any length, I/O errors), with the decoders replaced by arbitrary results of their type. Each assert terminator, slice operation, unwrap, '
  'division and panic call reached must be infeasible. Row and column decoding is C12, keys and scrambles are C13; sums of the lengths of the caller\'s own parameters are not packet data.')

def run(c):
    p = c.prog('full')
    c.rules.append('no reachable panic')
    hostile.add(c, p, 'C11')
    c.run_tasks()
    c.floor('panic obligations', c.oblig, 100)
