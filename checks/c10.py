from . import protocol
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR against a reference automaton of the MySQL conversation (typestate over transport events)'
EXPLANATION = ('Transport reads, writes and flushes may stay pending, fail, or time out at any point, and the caller may drop the operation there; after that, no later operation may use the transport other than to flush or shut it down, no operation may wait for a packet while no reply is outstanding, and no operation may succeed with part of its reply unread.')

def run(c):
    c.rules.append('after a transfer was cut short (drop at an await point, I/O error, elapsed timer) the transport is not used again; a successful operation has consumed its whole reply')
    protocol.run(c, 'C10')
