from . import protocol, err, connect
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR against a reference automaton of the MySQL conversation (typestate over transport events), plus abstract interpretation of the error packet decoder'
EXPLANATION = ('Each client operation is interpreted with a server that may answer an error packet at every position; the operation must return that error (Error::Server) '
  'and must not read or send anything between the error packet and its return. That decoding a well-formed error packet yields the server error with its code and message is '
  'an obligation of its own on the decoder, for every code, state and message.')

def run(c):
    c.rules.append('an operation that read an error packet returns Error::Server, and touches the transport no more before it returns')
    c.rules.append('the error packet decoder returns the server error (code and message taken from the packet) for every well-formed error packet')
    p = c.prog('full')
    ids = err.entries(p)
    c.floor('error packet decoders', len(ids), 1)
    for i in ids:
        for s in (True, False): c.task('error packet, state marker %s' % s, err.analyse, p, i, s)
    c.rules.append('connecting fails with Error::Server whenever the server answers with an error packet, from the handshake to the last reply of the authentication')
    cases = connect.matrix(roots=('connect_plain',), plugins=('Sha2', 'Native'), conf=(None, 'Sha2'), key=(False,)) + [('connect_secure', dict(plugin='Sha2', conf=dict(pwlen=connect.SMALL))), ('connect_plain', dict(plugin='Sha2', conf=dict(pwlen=connect.SMALL, key=True)))]
    connect.run(c, 'C03', cases, least=0, finish=False)
    protocol.run(c, 'C03', least=60)
