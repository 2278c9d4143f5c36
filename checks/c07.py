from . import protocol
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR against a reference automaton of the MySQL conversation (typestate over transport events)'
EXPLANATION = ('The operations of the public API are interpreted abstractly, in sequences, against a scripted-by-automaton server that may answer anything the protocol allows. The automaton advances on the bytes that cross the transport; a command byte written while it still expects rows is a violation.')

def run(c):
    c.rules.append('no fresh command header may be written while the automaton is in a state where rows or column definitions of an earlier result are outstanding')
    protocol.run(c, 'C07')
