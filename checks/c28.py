from . import connect
from engine.login import CAPS
LEVEL = 'bounded'
TECHNIQUE = 'abstract interpretation of the async MIR of Connection::connect over enumerated capability words: announced flags, optional handshake parts, and the flags the connection goes on with'
EXPLANATION = ('For capability words with each flag present or absent in turn, the flags in the handshake response are compared with what the server offered, what the options require and what the client implements; after a successful connect the flags used for decoding must be the announced ones.')
FLAGS = [i for i in range(32)]

def run(c):
    c.rules.append('announced flags are offered ones, apart from PLUGIN_AUTH and CONNECT_WITH_DB, and never ones the client has no code for')
    c.rules.append('CONNECT_WITH_DB is announced iff a database is configured')
    c.rules.append('the flags that decide packet layouts after connecting are the announced ones')
    rep = ('00', 'FE:Native', '01:3')
    cases = []
    full = CAPS | 0x1000000 | 0x800000
    for i in FLAGS:
        for base in (full ^ 1 << i,):
            if not base & 0x8000: continue
            for db in (False, True): cases.append(('connect_plain', dict(stop=True, caps=base, plugin='Native', conf=dict(pwlen=(1, 249), db=db))))
    for caps in (full, CAPS, full & ~0x200000, full & ~0x80000, full & ~0x2000, full & ~0x40000, full & ~0x800000, 0xFFFFFFFF):
        for db in (False, True):
            cases.append(('connect_plain', dict(caps=caps, plugin='Native', replies=rep, conf=dict(pwlen=(1, 249), db=db))))
    connect.run(c, 'C28', cases, least=200)
