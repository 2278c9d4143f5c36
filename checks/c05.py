from . import connect
LEVEL = 'proof'
TECHNIQUE = 'taint analysis by abstract interpretation of the async MIR of Connection::connect: provenance of every byte sent, per authentication position, over an arbitrary server'
EXPLANATION = ('Every payload written during connection set-up is traced byte by byte to where it comes from; bytes of the password itself may only appear on a secure transport, or for the cleartext method with the opt-in set. Hashes and public-key encryptions are named operations that hide their input.')

def run(c):
    c.rules.append('no payload written on an insecure transport contains bytes of the password, unless the cleartext method is in effect and allowed')
    exact = [('connect_plain', dict(plugin='Sha2', conf=dict(plugin=cp, key=k, pwlen=(n, n)))) for cp in (None, 'Sha2') for k in (False, True) for n in (3, 23)]
    connect.run(c, 'C05', connect.matrix(roots=('connect_plain',), clear=(False, True), key=(False, True)) + exact, least=100)
