from . import hostile, decode, c12
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of MIR with an arbitrary-server wire model: the size passed to every allocation is an obligation (linear bounds, provenance of the numbers it is made of)'
EXPLANATION = ('The same entries and the same arbitrary server as in C11, and the row decoders of C12. At every Vec/String allocation, reservation or resize the size must be a constant, at most 64 MiB for every value the server may send '
  '(a chunk announces at most 16 MiB), or bounded by the length of a sequence that already exists in memory. Copies of existing sequences and one-by-one pushes are bounded by what was received.')

def run(c):
    p = c.prog('full')
    c.rules.append('allocation size: constant, <= 64 MiB, or <= 8 x the length of an existing sequence')
    hostile.add(c, p, 'C14')
    for i in decode.select(p, c12.pred): c.task(decode.name(p.insts[i]), hostile.sync, p, i, 'C14')
    c.run_tasks()
    c.floor('allocation obligations', c.oblig, 20)
