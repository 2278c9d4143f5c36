from . import protocol
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR against a reference automaton of the MySQL conversation (typestate over transport events)'
EXPLANATION = ('Every packet read is classified by the automaton (row, terminator, error, other) from its symbolic first byte, its length and the negotiated DEPRECATE_EOF flag; what next/one/collect/finish report at each return is compared with that classification, and no packet may be read past the terminator.')

def run(c):
    c.rules.append('next/one/collect/finish report a row iff a row packet was read, the end iff its terminator was read, and nothing is read past the terminator')
    protocol.run(c, 'C08')
