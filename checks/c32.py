from . import connect
from engine.login import CAPS, LENENC
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR of Connection::connect with hash functions as named operations: the credential sent is compared, byte by byte, with the published formula over the current challenge'
EXPLANATION = ('The bytes of the credential in the handshake response and in the reply to a method switch are terms over hash applications, xor, the password and the challenge bytes received; they must be equal to the terms of the published formulas. What is handed to the public-key encryption is compared in the same way for passwords of fixed lengths around the challenge length.')

def run(c):
    c.rules.append('native: H(p) xor H(challenge, H(H(p))), SHA-1; SHA-2: H(p) xor H(H(H(p)), challenge), SHA-256; empty password: empty credential')
    c.rules.append('the challenge is the most recent one: of the method switch if there was one')
    c.rules.append('the input of the public-key encryption is (password, 0) xor the challenge, repeated')
    cases = []
    for plug in ('Native', 'Sha2'):
        for caps in (CAPS, CAPS & ~LENENC):
            for pw in ((0, 0), (1, 65534)):
                cases.append(('connect_plain', dict(stop=True, caps=caps, plugin=plug, conf=dict(pwlen=pw, db=True))))
        for pw in ((0, 0), (1, 65534)):
            cases.append(('connect_plain', dict(plugin=plug, replies=('00', 'FE:Native', 'FE:Sha2', 'FE:Clear', '01:4'), conf=dict(pwlen=pw, clear=True))))
    for pw in (1, 3, 18, 19, 20, 21, 25, 41):
        for rep in (('01:4', '01:hi'), ('FE:Sha2', '01:4', '01:hi')):
            cases.append(('connect_plain', dict(plugin='Sha2', replies=rep, conf=dict(pwlen=(pw, pw), plugin='Sha2', key=pw % 2))))
    connect.run(c, 'C32', cases, least=60)
