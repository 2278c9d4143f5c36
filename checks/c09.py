from . import protocol
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR against a reference automaton of the MySQL conversation (typestate over transport events)'
EXPLANATION = ('Every transport call may return Pending. At each Pending that leaves the operation the pending wait must be raced against a timer created with the configured timeout after that wait began; once that timer fires the operation must return a timed-out I/O error without touching the transport again.')

def run(c):
    c.rules.append('every Pending returned while a transport call is pending is covered by a running timer built from ConnectionOptions::timeout; an elapsed timer surfaces as ErrorKind::TimedOut')
    protocol.run(c, 'C09')
    protocol.run(c, 'C09', roots=('r_exec_exec@1',), resume=True)
