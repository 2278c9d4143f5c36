from . import commands, connect
from engine.login import CAPS, LENENC
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the async MIR of connect, query, execute, prepare and disconnect with symbolic arguments: every packet sent is compared byte by byte with the protocol layout (obligations per field)'
EXPLANATION = ('The payload of every packet is obtained as a sequence of terms over the arguments, options and received bytes, and must be equal to the layout of the protocol: the handshake response for the announced flags (all credential length classes, with and without database and method), the replies to method switches, full authentication, and the requests query, prepare, execute, long data and quit.')
REP = ('00', 'FE:Native', 'FE:Sha2', 'FE:Clear', '01:4')

def run(c):
    p = c.prog('full')
    c.rules.append('handshake response: flags, packet limit, collation, 23 zero bytes, user, credential (length-encoded, one-byte length or terminated, as announced), database, method (as announced)')
    c.rules.append('requests: 03 text, 16 text, 17 number flags iterations bitmap types values, 18 number index data, 01')
    cases = []
    PW = dict(z=(0, 0), s=(1, 249), a=(250, 250), b=(251, 254), c=(255, 255), nz=(1, 65534))
    for caps in (CAPS, CAPS & ~LENENC, CAPS & ~0x80000):
        for plug, pws in (('Native', ('z', 'nz')), ('Sha2', ('z', 'nz')), ('Clear', ('z', 's', 'a', 'b', 'c'))):
            for pw in pws:
                for db in (False, 'empty', 'some'):
                    cases.append(('connect_plain', dict(stop=True, caps=caps, plugin=plug, conf=dict(pwlen=PW[pw], clear=True, db=db, user='empty' if pw == 's' and db != 'empty' else 'some'))))
    for v in (b'5.5.2', b'5.5.3', b'5.6.51-log', b'10.6.4-MariaDB', b'8.4.0', b'4.1.22'):
        for mp in (None, 1 << 20):
            cases.append(('connect_plain', dict(stop=True, version=v, plugin='Native', conf=dict(pwlen=PW['nz'], max_packet=mp))))
    for cp in (None, 'Native', 'Sha2', 'Clear'):
        cases.append(('connect_plain', dict(stop=True, plugin='Native', conf=dict(pwlen=PW['s'], clear=True, plugin=cp))))
    for plug in ('Native', 'Sha2', 'Clear'):
        for pw in ('z', 's'):
            for r in ('plain', 'secure'):
                cases.append(('connect_' + r, dict(plugin=plug, replies=REP, conf=dict(pwlen=PW[pw], clear=True))))
    connect.run(c, 'C19', cases, least=0, finish=False)
    commands.add_text(c, p, 'C19')
    commands.add_execute(c, p, 'C19')
    c.run_tasks()
    c.floor('layout obligations', c.oblig, 400)
