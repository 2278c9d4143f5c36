from . import protocol, connect, rows
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR with an arbitrary sequence number on every incoming chunk and a scripted result set of up to 64 MiB compared byte by byte'
EXPLANATION = ('Every header the client reads carries either the expected or any other sequence number; after another one, the client may touch the transport no more and must not report success (operation sequences, connection phase, result sets). '
  'A reply whose chunks all carry the expected numbers must be accepted: any number of rows (numbers modulo 256) and a row cut into up to four chunks of the maximum length, whose value as handed to the caller must be the concatenation of the bytes of the chunks. The bytes read behind a header are exactly as many as it announces.')

def run(c):
    c.rules += ['after a chunk with an unexpected sequence number nothing more is read or sent and the operation fails', 'a reply with the expected sequence numbers is accepted', 'reads behind a header: exactly the announced length', 'value handed out = concatenation of the chunks']
    p = c.prog('full')
    for full in (None, 0, 1, 2, 3):
        for dep in (1, 0): c.task('rows %s %d' % (full, dep), rows.analyse, p, 'k_rows', ('C02',), 300000, full, dep)
    cases = connect.matrix(plugins=('Sha2', 'Native'), conf=(None,)) + [('connect_plain', dict(plugin='Sha2', conf=dict(pwlen=connect.SMALL, key=True)))]
    connect.run(c, 'C02', cases, least=0, finish=False)
    protocol.run(c, 'C02', least=100)
