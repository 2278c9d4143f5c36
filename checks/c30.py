from . import protocol
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR against a reference automaton of the MySQL conversation (typestate over transport events)'
EXPLANATION = ('A write leaves the transport dirty, a completed flush makes it clean; starting to read while dirty, or completing successfully while dirty, is a violation.')

def run(c):
    c.rules.append('no read of the transport may start, and no operation may succeed, while written bytes have not been flushed since')
    protocol.run(c, 'C30', least=60)
