from . import protocol, connect, commands
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR with a frame automaton on every write to the transport (obligations on the length and sequence number of each header, and on the concatenated payloads)'
EXPLANATION = ('Every write to the transport is an event: a header must announce exactly the bytes written behind it (equality of linear expressions) and carry the next sequence number, a chunk of the maximum length must be followed by another chunk before anything is awaited or returned, '
  'no chunk may follow a complete packet, and commands start at 0. Requests with a text of up to 40 MiB are put together from their chunks and compared with the request byte by byte.')

def run(c):
    c.rules += ['header = length of the chunk written behind it, next sequence number modulo 256', 'a full chunk is followed by another one, a shorter one ends the packet', 'the payloads of the chunks put together are the request', 'commands start at sequence number 0']
    p = c.prog('full')
    commands.add_text(c, p, 'C01')
    for dep in (0, 1): c.task('k_prepare %d' % dep, commands.analyse, p, 'k_prepare', ('C01',), 200000, dict(op='prepare', dep=dep), None, 'prepare')
    commands.add_long(c, p, 'C01')
    cases = connect.matrix(plugins=('Sha2', 'Native', 'Clear'), conf=(None,)) + [('connect_plain', dict(plugin='Sha2', conf=dict(pwlen=connect.SMALL, key=True)))]
    connect.run(c, 'C01', cases, least=0, finish=False)
    protocol.run(c, 'C01', roots=('r_query_exec@1', 'r_query_exec@0', 'r_exec_exec@1', 'r_prep_exec@1', 'r_prep_query@1'), least=100)
