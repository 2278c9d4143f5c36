from . import connect
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR of Connection::connect against a reference automaton of the authentication exchange (which credential is sent for which method; provenance of the encryption key)'
EXPLANATION = ('For every configured method and every method the server names, in the handshake or in a switch, the payload sent is checked to be for the configured method; with a configured key, neither the key request nor the construction of a key from received bytes may be reached, and the key handed to the encryption is the configured one.')

def run(c):
    c.rules.append('with a method configured, no credential is sent for another one')
    c.rules.append('with a server key configured, no key is requested or built from server bytes, and the configured key encrypts')
    connect.run(c, 'C06', connect.matrix(key=(False, True)), least=80)
