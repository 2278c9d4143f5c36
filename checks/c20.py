from . import commands
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR of prepare / execute / query with symbolic parameter values: the packets sent are compared with the protocol layout for the arguments (obligations per field)'
EXPLANATION = ('For lists of parameters of every kind, with symbolic contents, the packets sent by execute and query are reassembled from their frames and compared byte by byte: statement number as received, NULL bitmap, types and signs, values in order; parameters sent as long data must be covered exactly once, contiguously and before the execution. Lists of a length other than the number the server announced must be refused before anything is sent.')

def run(c):
    p = c.prog('full')
    c.rules.append('a list of the wrong length: nothing is sent, a runtime error is returned')
    c.rules.append('0x17, statement number, flags 0, iterations 1, bitmap of exactly the NULLs, 1, types, values in order, nothing after them')
    c.rules.append('long data: 0x18, statement number, index of a byte-string parameter, the next stretch of its bytes; complete before the execution')
    commands.add_count(c, p, 'C20')
    commands.add_execute(c, p, 'C20')
    c.run_tasks()
    c.floor('parameter obligations', c.oblig, 400)
