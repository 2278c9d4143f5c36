from . import layouts as L, err, decode
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the packet decoders on symbolic packets built from reference layouts; decoded fields compared with the bytes the protocol assigns to them'
EXPLANATION = ('For every server packet the client decodes, the decoder is interpreted on packets whose every field is symbolic (all integer values, all strings of each length class, '
  'all length-prefix classes, all capability combinations that change the layout). Each field of the decoded value must provably be the linear expression or byte range of the packet at its protocol position; '
  'well-formed packets must be accepted and packets cut short inside the mandatory part must be refused.')

def run(c):
    p = c.prog('full')
    n = 0
    def add(what, ids, fn, *a):
        nonlocal n
        if not ids: c.undec('no decoder found for the %s' % what)
        for i in ids:
            n += 1
            c.task('%s %s %s' % (what, decode.name(p.insts[i]), a), fn, p, i, *a)
    add('OK packet', L.decoders(p, 'OkPacket', ('read_ok',)), L.ok_packet, 0, False)
    add('end of result', L.decoders(p, 'OkPacket', ('read_eof',)), L.ok_packet, 0xFE, True)
    add('EOF packet', L.decoders(p, 'OkPacket', ('read_eof', 'read_old_eof')), L.old_eof, L.PROTOCOL_41)
    cd = L.decoders(p, 'ColumnDef', ('deserialize',))
    for part in range(3): add('column definition', cd, L.coldef, part)
    add('handshake', L.decoders(p, 'HandshakePacket', ('deserialize',)), L.handshake)
    add('authentication switch', L.decoders(p, 'AuthSwitchRequest', ('deserialize',)), L.auth_switch)
    add('prepare reply', L.decoders(p, 'Stmt', ('deserialize',)), L.stmt)
    for s in (True, False): add('error packet', err.entries(p), err.analyse, s)
    add('column', decode.select(p, lambda i: i['name'] == 'try_from' and 'Column as ' in (i.get('full') or '') and 'ColumnDef' in (i.get('full') or '')), L.column)
    c.floor('packet decoders x layouts', n, 12)
    c.rules.append('each decoded field equals the little-endian value / byte range at its protocol position; too short packets are errors')
    c.run_tasks()
    c.assumptions.append('info and session state of OK packets are length-encoded strings, as the server source writes them')
