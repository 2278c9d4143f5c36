"""Connection phase: the reference automaton of the MySQL handshake and authentication
exchange, driven by an arbitrary server, and the layout of what the client answers.

Positions: h handshake awaited · w response to be written · a reply awaited · s method switch
received · m full authentication requested · k key requested · y key received · f final reply
awaited · o accepted · e refused · b anything the client cannot accept.
"""
from .dom import *
from .absint import FROM
from .wire import *
from .wire import gi, si
from . import models as M
from .models import fork, content
from .models_crypto import hkey
from .proto import pin

PLUGINS = {'Clear': b'mysql_clear_password', 'Native': b'mysql_native_password', 'Sha2': b'caching_sha2_password'}
DECODING = 0x200 | 0x2000 | 0x800000 | 0x1000000 | 0x2000000 | 0x8000000 | 0x20000000
FOREIGN = 0x20 | 0x80 | 0x800 | 0x2000000 | 0x8000000 | 0x10000000   # things this client has no code for
LENENC, SECURE_CONN, PLUGIN_AUTH, WITH_DB, ATTRS = 0x200000, 0x8000, 0x80000, 0x8, 0x100000
PROTOCOL_41, DEPRECATE_EOF, SESSION_TRACK = 0x200, 0x1000000, 0x800000
CAPS = PROTOCOL_41 | SECURE_CONN | 0x2000 | 0x40000 | PLUGIN_AUTH | WITH_DB | LENENC

def text(I, st, name, lo=0, hi=(1 << 16) - 2):
    """an arbitrary string: (segments, length)"""
    n = S(sym(('b', kr(K('pktf', name, 'len', root=True))), lo, hi))
    return (('src', K('pktf', name, root=True), ZERO, n),), n

class Login(Wire):
    pend = False
    ioerr = True

    def __init__(self, caps=CAPS, plugin='Native', version=b'8.0.30', conf=None, secure=False, stop=False, props=(), replies=None):
        super().__init__()
        self.caps, self.plugin, self.version, self.secure, self.stop = caps, plugin, version, secure, stop
        self.conf = dict(conf or {})
        self.props = tuple(props)
        self.found, self.unsure, self.nobl = {}, {}, {}
        self.opaque = OPAQUE + ('::OkPacket',)
        self.labels = set()
        self.accepted = 0
        self.replies = replies
        self.announced = set()

    # ---- reporting -----------------------------------------------------
    def check(self, prop): self.nobl[prop] = self.nobl.get(prop, 0) + 1
    def bad(self, I, st, ctx, prop, what, msg, sp=None):
        key = '%s:%s' % (prop, what)
        if TAINT and st.sw or st.f.dim:
            self.unsure[key] = what + ' hinges on an unmodelled value'
            return
        if key not in self.found and not contradictory(st.f):
            if ctx is None: where, chain = 'connect', []
            else:
                c, s = I.subj_site(ctx, sp)
                where, chain = I.where(c, s), I.chain_of(ctx)
            self.found[key] = dict(prop=prop, msg=msg, where=where, chain=chain)

    def verdict(self, I, st, ctx, prop, what, ok, msg):
        self.check(prop)
        if ok is False: self.bad(I, st, ctx, prop, what, msg)
        elif ok is None: self.unsure['%s:%s' % (prop, what)] = what + ' undecided'

    def frame(self, I, st, ctx, what, ok, msg, sp=None):
        if 'C01' in self.props: self.verdict(I, st, ctx, 'C01', what, ok, msg)
        else: super().frame(I, st, ctx, what, ok, msg, sp)

    # ---- configuration -------------------------------------------------
    def prep(self, I, st, ups):
        I.unroll = 96
        u8 = I.u8()
        def put(name, v):
            obj, p, ty = field_loc(I, st, ups[0], (name,))
            I.store(st, (obj, p, None), v(ty))
        def string(name):
            segs, n = text(I, st, name) if name != 'password' else self.pw(I, st)
            o = ('A', 'opt', name)
            st.m[o] = ('q', u8, n, segs)
            return lambda ty: ('a', ty, 0, (('v', o),)) if I.T[ty]['k'] == 'struct' else ('v', o)
        put('user', string('user')); put('password', string('password'))
        def some(ty, x): return I.mkagg(ty, vidx(I, ty, 'Some'), (x,))
        def none(ty): return I.mkagg(ty, vidx(I, ty, 'None'), ())
        db = self.conf.get('db', False)
        put('db_name', (lambda ty: some(ty, string('db')(payload_ty(I, ty, 'Some')))) if db else none)
        mp = self.conf.get('max_packet', 0x12345678)
        put('max_allowed_packet', none if mp is None else lambda ty: some(ty, ('i', C(mp))))
        put('allow_cleartext_password', lambda ty: ('b', ('c', bool(self.conf.get('clear', False)))))
        def plug(ty):
            k = self.conf.get('plugin')
            if k is None: return none(ty)
            pt = payload_ty(I, ty, 'Some')
            return some(ty, I.mkagg(pt, vidx(I, pt, k), ()))
        put('auth_plugin', plug)
        try:
            put('server_key', (lambda ty: some(ty, I.mk(payload_ty(I, ty, 'Some'), K('cfg', 'server_key', root=True)))) if self.conf.get('key') else none)
        except KeyError: pass
        for o in ('user', 'db'):
            w = self.conf.get(o)
            n = text(I, st, o)[1]
            if w == 'empty': st.f.assume(p_eq(n, ZERO))
            elif w == 'some': st.f.assume(p_le(ONE, n))
        lo, hi = self.conf.get('pwlen', (0, (1 << 16) - 2))
        pn = self.pw(I, st)[1]
        st.f.assume(p_le(C(lo), pn)); st.f.assume(p_le(pn, C(hi)))
        st.seta(pos='h')

    # ---- server --------------------------------------------------------
    def header(self, I, st, ctx, L, seq):
        exp = gi(st, 'seq')
        y, n = fork(st, p_eq(seq, ZERO if exp is None else exp))
        out = [] if y is None else [y]
        if n is not None and 'C02' in self.props:
            n.seta(bad=1)
            out.append(n)
        return out

    def packet(self, I, st, cls, ctx): return []

    def do_read(self, I, st, ctx, bb, t, sl, n):
        if st.a('rp', 0) or st.f.const(n) != 4: return super().do_read(I, st, ctx, bb, t, sl, n)
        # the server's next packet is chosen with its header
        if not self.unfinished(I, st, ctx, 'a reply is awaited'): return []
        pos = st.a('pos')
        if 'C02' in self.props:
            self.check('C02')
            if st.a('bad'):
                self.bad(I, st, ctx, 'C02', 'reads-on', 'reads on after a packet with an unexpected sequence number')
                return []
        if pos in 'obe':
            if 'C03' in self.props and pos == 'e': self.bad(I, st, ctx, 'C03', 'reads-on', 'reads on after the server reported an error')
            if 'C04' in self.props and pos == 'b': self.bad(I, st, ctx, 'C04', 'reads-on', 'goes on waiting after a reply it must not accept (%s)' % st.a('why'))
            return []
        out = []
        tok = I.fresh(st, ctx, bb, 'pkt')
        for w in self.options(pos, st.a('sw', 0)):
            s = st.copy()
            segs, ln = self.segs(I, w, tok)
            s.seta(opt=w)
            sq = gi(s, 'seq')
            sq = ZERO if sq is None else sq
            c, sc = s.f.const(ln), s.f.const(sq)
            if c is None or sc is None:
                out += super().do_read(I, s, ctx, bb, t, sl, n)
                continue
            if 'C02' in self.props:
                b = s.copy()
                x = S(sym(('b', kr(K('hb', kr(tok), 3))), 0, 255))
                _, b = fork(b, p_eq(x, C(sc)))
                if b is not None:
                    I.store(b, (sl[1], sl[2], (sl[3], sl[4])), ('q', I.u8(), C(4), (('k', c.to_bytes(3, 'little'), C(3)), ('el', ('i', x), ONE))))
                    b.seta(bad=1)
                    if c == 0: out += self.arrive(I, b, w, ctx)
                    else:
                        b.seta(rp=PAY); si(b, 'rlen', C(c))
                        out.append(b)
            I.store(s, (sl[1], sl[2], (sl[3], sl[4])), ('q', I.u8(), C(4), (('k', c.to_bytes(3, 'little') + bytes([sc]), C(4)),)))
            si(s, 'seq', C((sc + 1) % 256))
            if c == 0: out += self.arrive(I, s, w, ctx)
            else:
                s.seta(rp=PAY); si(s, 'rlen', C(c))
                out.append(s)
        return out

    def segs(self, I, what, tok):
        """contents of a server packet -> (segments, length)"""
        f = lambda name, n, root=True: ('src', K('pktf', name, root=root), ZERO, C(n) if isinstance(n, int) else n)
        k = lambda b: ('k', b, C(len(b)))
        rest = lambda lo=0: ('src', K('tl', kr(tok)), ZERO, S(sym(('b', kr(K('tll', kr(tok)))), lo, 1 << 23)))
        by = lambda lo, hi, t='b': ('el', ('i', S(sym(('b', kr(K('el0', kr(tok), t))), lo, hi))), ONE)
        if what == 'hs':
            c = self.caps
            out = [k(b'\x0a' + self.version + b'\0'), f('cid', 4), f('n1', 8), k(b'\0' + bytes([c & 255, c >> 8 & 255])), f('coll', 1), k(b'\x02\0'),
                   k(bytes([c >> 16 & 255, c >> 24, 21]) + bytes(10))]
            if c & SECURE_CONN: out += [f('n2', 12), k(b'\0')]
            if c & PLUGIN_AUTH: out.append(k(PLUGINS[self.plugin] + b'\0'))
        elif what == 'FF': out = [k(b'\xff'), f('ec', 1), by(0, 0xFE), k(b'#'), f('es', 5), ('src', K('utf8', kr(tok)), ZERO, S(sym(('b', kr(K('tll', kr(tok)))), 0, 1 << 16)))]
        elif what.startswith('FE:'): out = [k(b'\xfe' + PLUGINS[what[3:]] + b'\0'), f('sn', 19), ('el', ('i', S(sym(('b', kr(K('pktf', 'sn19', root=True))), 1, 255))), ONE), k(b'\0')]
        elif what == 'FE?': out = [k(b'\xfeunknown_method\0'), rest()]
        elif what == 'EMPTY': out = []
        elif what == 'FE0': out = [k(b'\xfe')]
        elif what == '00': out = [k(b'\0'), rest(6)]
        elif what == '01:3': out = [k(b'\x01\x03')]
        elif what == '01:4': out = [k(b'\x01\x04')]
        elif what == '01': out = [k(b'\x01')]
        elif what == '01:lo': out = [k(b'\x01'), by(0, 2), rest()]
        elif what == '01:hi': out = [k(b'\x01'), by(5, 255), rest()]
        elif what == 'FFh': out = [k(b'\xff'), f('ec', 1), by(0, 0xFE), ('el', ('i', S(sym(('b', kr(K('el0', kr(tok), 'm'))), 0x24, 0x7F))), ONE), ('src', K('utf8', kr(tok)), ZERO, S(sym(('b', kr(K('tll', kr(tok)))), 0, 1 << 16)))]
        elif what == 'lo': out = [by(2, 0xFD), rest()]
        else: raise Exception(what)
        n = ZERO
        for s in out: n = add(n, s[-1])
        return tuple(out), n

    def options(self, pos, sw):
        if pos == 'h': r = ('hs', 'FFh', 'FF', 'EMPTY') if not self.stop else ('hs',)
        else: r = ('00', 'FF', 'FE:Clear', 'FE:Native', 'FE:Sha2', 'FE?', 'FE0', '01:3', '01:4', '01', '01:lo', '01:hi', 'lo', 'EMPTY')
        if self.replies: r = tuple(x for x in r if x in self.replies or pos == 'h' and x == 'hs')
        return r

    def payload(self, I, st, ctx, sl, n, tok):
        st.seta(rp=None); si(st, 'rlen', None)
        w = st.a('opt')
        segs, ln = self.segs(I, w, tok)
        try: st.f.assume(p_eq(n, ln))
        except Infeasible: return []
        if st.f.const(ln) is not None: n = ln
        I.store(st, (sl[1], sl[2], (sl[3], sl[4])), ('q', I.u8(), n, I.compact(segs)))
        return self.arrive(I, st, w, ctx)

    def arrive(self, I, st, w, ctx):
        pos, sw = st.a('pos'), st.a('sw', 0)
        if pos == 'h':
            st.seta(pos='w' if w == 'hs' else 'e' if w[0] == 'F' else 'b', why=w)
            return [st]
        if w == 'FF': st.seta(pos='e', why=pos); return [st]
        nx = 'b'
        if pos == 'a':
            if w == '00': nx = 'o'
            elif w.startswith('FE:') and not sw:
                st.seta(sw=1, plug=w[3:]); nx = 's'
            elif w.startswith('01'):
                eff = self.conf.get('plugin') or st.a('plug') or self.plugin
                if eff == 'Sha2' and w == '01:3': nx = 'f'
                elif eff == 'Sha2' and w == '01:4': nx = 'm'
        elif pos == 'f' and w == '00': nx = 'o'
        elif pos == 'k' and w.startswith('01'): nx = 'y'
        st.seta(pos=nx, why='%s after %s%s' % (w, pos, ' (second switch)' if w.startswith('FE:') and sw else ''))
        return [st]

    # ---- client --------------------------------------------------------
    def cmd_start(self, I, st, ctx, fresh, n):
        if st.a('bad') and 'C02' in self.props:
            self.bad(I, st, ctx, 'C02', 'sends-on', 'sends a packet after one with an unexpected sequence number')
            return []
        if 'C01' in self.props:
            self.check('C01')
            q = gi(st, 'seq')
            if st.a('pos') == 'o':
                if not fresh:
                    self.bad(I, st, ctx, 'C01', 'command-seq', 'a command does not start at sequence number 0')
                    return []
            elif fresh:
                self.bad(I, st, ctx, 'C01', 'seq', 'a packet of the connection phase does not carry the next sequence number')
                return []
            elif st.a('pos') in 'akf':
                self.bad(I, st, ctx, 'C01', 'extra', 'another chunk follows a complete packet')
                return []
        if st.a('pos') == 'o' or fresh and st.a('pos') not in 'w':
            # a new exchange begins: login is over
            self.ended(I, st, ctx, 'a command is sent')
            return []
        return [st]

    def ended(self, I, st, ctx, how):
        if 'C02' in self.props:
            self.check('C02')
            if st.a('bad'): self.bad(I, st, ctx, 'C02', 'accepted', '%s although a packet with an unexpected sequence number was received' % how)
        if 'C04' in self.props:
            self.check('C04')
            if st.a('pos') != 'o': self.bad(I, st, ctx, 'C04', 'unaccepted:%s' % st.a('pos'), '%s although the server has not accepted the authentication (%s)' % (how, st.a('why')))
            else: self.accepted += 1

    def pw(self, I, st):
        segs, n = text(I, st, 'password')
        lo, hi = self.conf.get('pwlen', (0, 1))
        return (segs, n) if lo != hi else (((segs[0][:3] + (C(lo),)),) if lo else (), C(lo))

    def nonce(self, st):
        if st.a('sw'):
            return (('src', K('pktf', 'sn', root=True), ZERO, C(19)), ('el', ('i', S(sym(('b', kr(K('pktf', 'sn19', root=True))), 1, 255))), ONE))
        if self.caps & SECURE_CONN: return (('src', K('pktf', 'n1', root=True), ZERO, C(8)), ('src', K('pktf', 'n2', root=True), ZERO, C(12)))
        return (('src', K('pktf', 'n1', root=True), ZERO, C(8)), ('k', bytes(12), C(12)))

    def scramble(self, I, st, plug):
        """published formula: H(pw) xor H(nonce, H(H(pw))) resp. H(pw) xor H(H(H(pw)), nonce)"""
        pw, n = self.pw(I, st)
        al, ln = ('Sha1', 20) if plug == 'Native' else ('Sha256', 32)
        dig = lambda segs: K('digest', kr(hkey(I, al, segs)))
        src = lambda k: (('src', k, ZERO, C(ln)),)
        d1 = dig(pw); d2 = dig(src(d1))
        no = self.nonce(st)
        d3 = dig(no + src(d2)) if plug == 'Native' else dig(src(d2) + no)
        out = []
        for i in range(ln):
            a, b = I.el_from_src(I.u8(), d1, C(i))[1], I.el_from_src(I.u8(), d3, C(i))[1]
            out.append(('el', ('i', I.bitop(st, 'BitXor', a, b, 0, 255)), ONE))
        return tuple(out)

    def cred(self, I, st, plug):
        """[(state, acceptable credentials)]"""
        pw, n = self.pw(I, st)
        z, nz = fork(st, p_eq(n, ZERO))
        out = []
        if z is not None: out.append((z, [()] if plug != 'Clear' else [(), (('k', b'\0', ONE),)]))
        if nz is not None:
            if plug == 'Clear':
                # length classes of the credential
                for lo, hi in ((1, 249), (250, 250), (251, 254), (255, 255), (256, (1 << 16) - 2)):
                    s = nz.copy()
                    try: s.f.assume(p_le(C(lo), n)); s.f.assume(p_le(n, C(hi)))
                    except Infeasible: continue
                    out.append((s, [pw, pw + (('k', b'\0', ONE),)]))
            else: out.append((nz, [self.scramble(I, nz, plug)]))
        return out

    def leak(self, I, q):
        """does the payload contain bytes of the password?"""
        pk = K('pktf', 'password', root=True)
        seen = set()
        def has(k):
            if k == pk: return True
            if k in seen: return False
            seen.add(k)
            p = KINFO[k][0]
            if p[0] in ('digest', 'enc', 'pktf', 'cfg', 'bbytes'): return False
            return any(seg(s) for s in FROM.get(k, ())) or p[0] in ('qr', 'qw', 'qs', 'qx') and segs(p[1:])
        def seg(s):
            if s[0] == 'src': return has(s[1])
            if s[0] == 'el' and s[1][0] == 'i': return any(pk in symroots(x) for x, _ in s[1][1][2])
            return False
        def segs(x):
            return type(x) is tuple and (len(x) > 1 and x[0] in ('src', 'el') and seg(x) or any(segs(y) for y in x))
        for s in q[3]:
            if s[0] == 'src' and has(s[1]): return s
            if s[0] == 'el' and s[1][0] == 'i':
                for x, _ in s[1][1][2]:
                    for r in symroots(x):
                        if r == pk: return s
        return None

    def on_call(self, I, st, ctx, bb, t, inst, args):
        p = inst['path']
        if inst['krate'] == 'verif_fixture' and p.endswith('client::caps'):
            if 'C28' in self.props and st.a('ann') is not None:
                b = st.f.const(args[0][1]) if args[0][0] == 'i' else None
                self.verdict(I, st, ctx, 'C28', 'goes-on-with', None if b is None else not ((b ^ st.a('ann')) & DECODING),
                             'announced %#x but goes on with %#x' % (st.a('ann'), b or 0))
            return [(st, I.UNIT)]
        if st.a('pos') == 'e' and inst['name'] == 'from_utf8' and inst['krate'] in ('core', 'alloc', 'std'):
            # the text of a well-formed error packet is UTF-8
            r = M.EXACT.get(inst['path'])
            out = r(I, st, ctx, bb, t, inst, args) if r else None
            if out is not None:
                return [(s, v) for s, v in out if not (v[0] == 'a' and I.T[v[1]]['variants'][v[2]][0] == 'Err')]
        if inst['krate'] == 'mysql_connector' and inst.get('pub') and 'PublicKey' in p and t.get('to') is not None:
            rt = I.T[t['dst'][2]]
            if rt.get('path') == 'std::result::Result':
                okt = payload_ty(I, t['dst'][2], 'Ok')
                tok = I.fresh(st, ctx, bb, 'pk')
                e = err(I, t['dst'][2], I.mk(payload_ty(I, t['dst'][2], 'Err'), K('pke', kr(tok))))
                if (I.T[okt].get('path') or '').endswith('PublicKey'):
                    # a key is built from bytes
                    self.check('C06')
                    if self.conf.get('key'): self.bad(I, st, ctx, 'C06', 'offered-key', 'a key offered by the server is used although a server key is configured')
                    return [(st.copy(), ok(I, t['dst'][2], I.mk(okt, K('offeredkey', root=True)))), (st, e)]
                if I.is_vec(I.T[okt]):
                    if 'C32' in self.props: self.encin(I, st, ctx, args)
                    key = 0
                    for a in args:
                        v = a
                        for _ in range(4):
                            if v[0] in ('r',) or v[0] == 's' and I.T[v[1]]['k'] in ('ref', 'ptr'): v = M.load(I, st, v)
                        if v[0] in 'sa' and (I.T[v[1]].get('path') or '').endswith('PublicKey'): key = self.keyname(I, v)
                    s2 = st.copy()
                    ln = S(sym(('b', kr(K('encl', kr(tok)))), 1, 1 << 16))
                    v = M.newvec(I, s2, ctx, bb, I.u8(), ln, (('src', K('enc', key, kr(tok)), ZERO, ln),))
                    return [(s2, ok(I, t['dst'][2], v)), (st, e)]
        return super().on_call(I, st, ctx, bb, t, inst, args)

    def encin(self, I, st, ctx, args):
        """what is encrypted: the password and its terminator, xor the challenge, repeated"""
        from checks.sync import eq_content
        pw, n = self.pw(I, st)
        lo, hi = self.conf.get('pwlen', (0, 1))
        if lo != hi: return
        n = lo
        bs = [M.load(I, st, a) if a[0] == 'r' else a for a in args]
        bs = [a for a in bs if a[0] == 'l']
        if len(bs) != 1: return self.verdict(I, st, ctx, 'C32', 'encrypted', None, '')
        no = self.nonce(st)
        nl = 20
        nq = ('q', I.u8(), C(nl), I.compact(no))
        exp = []
        for i in range(n + 1):
            a = I.el_from_src(I.u8(), pw[0][1], C(i))[1] if i < n else ZERO
            b = I.qget(st, nq, C(i % nl))[1]
            exp.append(('el', ('i', I.bitop(st, 'BitXor', a, b, 0, 255)), ONE))
        r = eq_content(I, st, content(I, st, bs[0]), ('q', I.u8(), C(n + 1), I.compact(tuple(exp))))
        self.verdict(I, st, ctx, 'C32', 'encrypted', r, 'what is encrypted is not the password and a zero byte, combined with the current challenge byte by byte')

    def keyname(self, I, v):
        ks = set()
        def walk(x):
            if type(x) is tuple:
                if len(x) == 3 and x[0] == 's' and isinstance(x[2], int): ks.update(KINFO[x[2]][1])
                for y in x: walk(y)
        walk(v)
        names = set(KINFO[k][0][0] if KINFO[k][0][0] != 'cfg' else 'configured' for k in ks)
        return ','.join(sorted(names))

    def sent(self, I, st, ctx, q, n):
        pos = st.a('pos')
        P = self.props
        eff = self.conf.get('plugin') or st.a('plug') or (self.plugin if self.caps & PLUGIN_AUTH else 'Native')
        if pos == 'w':
            out = []
            for s in self.response(I, st, ctx, q, eff):
                s.seta(pos='a')
                if not self.stop: out.append(s)
            return out
        if pos == 's':
            if 'C06' in P:
                self.check('C06')
                if self.conf.get('plugin') and st.a('plug') != self.conf['plugin']:
                    self.bad(I, st, ctx, 'C06', 'other-method', 'credentials are sent for %s although %s is configured' % (st.a('plug'), self.conf['plugin']))
            self.clear(I, st, ctx, q, st.a('plug'))
            out = []
            for s, creds in self.cred(I, st, st.a('plug')):
                if 'C32' in P or 'C19' in P:
                    r = self.anyeq(I, s, q, creds)
                    for pr in ('C32', 'C19'):
                        if pr in P and (pr == 'C19' or st.a('plug') != 'Clear'): self.verdict(I, s, ctx, pr, 'switch-reply:' + st.a('plug'), r, 'the reply to a switch to %s is not the credential computed from the new challenge' % st.a('plug'))
                s.seta(pos='a'); out.append(s)
            return out
        if pos in 'my':
            self.clear(I, st, ctx, q, 'Sha2')
            self.sealed(I, st, ctx, q)
            if pos == 'm':
                v = I.qget(st, q, ZERO) if st.f.entails(p_eq(n, ONE)) else None
                if v is not None and v[0] == 'i' and st.f.const(v[1]) == 2:
                    if 'C06' in P:
                        self.check('C06')
                        if self.conf.get('key'): self.bad(I, st, ctx, 'C06', 'key-request', 'the server is asked for its key although one is configured')
                    st.seta(pos='k')
                    return [st]
            if 'C06' in P and self.conf.get('key'):
                self.check('C06')
                e = [KINFO[s[1]][0] for s in q[3] if s[0] == 'src' and KINFO[s[1]][0][0] == 'enc']
                for k in e:
                    if k[1] != 'configured': self.unsure['C06:key'] = 'key used for encryption not identified (%s)' % (k[1],)
            if self.secure and 'C19' in P and pos == 'm':
                pw, pn = self.pw(I, st)
                r = self.anyeq(I, st, q, [pw + (('k', b'\0', ONE),)])
                self.verdict(I, st, ctx, 'C19', 'full-password', r, 'what is sent for full authentication over a secure transport is not the password and a zero byte')
            st.seta(pos='f')
            return [st]
        if pos in 'be':
            if 'C04' in P:
                self.check('C04')
                self.bad(I, st, ctx, 'C04', 'continues:%s' % pos, 'the client goes on after a reply it must not accept (%s)' % st.a('why'))
            return []
        # writes while a reply is outstanding
        self.clear(I, st, ctx, q, eff)
        return [st]

    def anyeq(self, I, st, q, creds):
        from checks.sync import eq_content
        r = False
        for c in creds:
            n = ZERO
            for s in c: n = add(n, s[-1])
            e = eq_content(I, st, q, ('q', I.u8(), n, I.compact(tuple(c))))
            if e is True: return True
            if e is None: r = None
        if r is None and creds:
            # hashes of different inputs differ
            have, want = self.mixed(q[3]), set().union(*[self.mixed(c) for c in creds])
            if have and not any(inexact_sym(x) for x in have | want) and not have <= want: return False
        return r

    def mixed(self, segs):
        return set(x for s in segs if s[0] == 'el' and s[1][0] == 'i' for x, _ in s[1][1][2] if SKEY[x][0] == 'xor')

    def clear(self, I, st, ctx, q, plug):
        """C05: password bytes only over a secure transport or with the clear method opted into"""
        if 'C05' not in self.props: return
        self.check('C05')
        if self.secure or (self.conf.get('clear') and plug == 'Clear'): return
        s = self.leak(I, q)
        if s is not None and not st.f.entails(p_eq(s[-1], ZERO)):
            self.bad(I, st, ctx, 'C05', 'clear:' + str(st.a('pos')), 'bytes of the password are sent in clear over an insecure transport')
            return
        for s in q[3]:
            if s[0] == 'src' and KINFO[s[1]][0][0] not in ('pktf', 'digest', 'enc', 'cfg', 'bbytes'):
                self.unsure['C05:' + str(st.a('pos'))] = 'origin of the bytes sent is not known'

    def sealed(self, I, st, ctx, q):
        """C05: full authentication over an insecure transport sends an encryption"""
        if 'C05' not in self.props or self.secure: return
        self.check('C05')
        if any(s[0] == 'src' and KINFO[s[1]][0][0] == 'enc' for s in q[3]): return
        if all(s[0] == 'k' for s in q[3]): return
        if all(s[0] in ('k', 'el') or s[0] == 'src' and KINFO[s[1]][0][0] in ('pktf', 'cfg') for s in q[3]):
            self.bad(I, st, ctx, 'C05', 'not-encrypted', 'the reply to the request for full authentication is not an encryption')

    def response(self, I, st, ctx, q, eff):
        """handshake response"""
        P = self.props
        self.clear(I, st, ctx, q, eff)
        if not ({'C19', 'C28', 'C32'} & set(P)): return [st]
        bs = [I.qget(st, q, C(i)) for i in range(4)]
        cs = [st.f.const(b[1]) if b[0] == 'i' else None for b in bs]
        if None in cs:
            for p in P: self.unsure['%s:flags' % p] = 'announced capabilities not constant'
            return [st]
        c = sum(x << 8 * i for i, x in enumerate(cs))
        st.seta(ann=c)
        self.announced.add(c)
        if 'C28' in P:
            self.verdict(I, st, ctx, 'C28', 'not-offered', not (c & ~(self.caps | self.needed)), 'announces capabilities %#x that the server did not offer' % (c & ~(self.caps | self.needed)))
            self.verdict(I, st, ctx, 'C28', 'db-flag', bool(c & WITH_DB) == bool(self.conf.get('db')), 'the flag for a database is %s although %s is configured' % ('set' if c & WITH_DB else 'not set', 'one' if self.conf.get('db') else 'none'))
            self.verdict(I, st, ctx, 'C28', 'foreign', not c & FOREIGN, 'announces %#x, which the client does not implement' % (c & FOREIGN))
            if self.caps & PROTOCOL_41: self.verdict(I, st, ctx, 'C28', 'protocol', bool(c & PROTOCOL_41), 'protocol 4.1 is not announced although everything relies on it')
        v = tuple(int(x) for x in self.version.split(b'-')[0].split(b'.')[:3])
        u8 = I.u8()
        k = lambda b: ('k', b, C(len(b)))
        mp = self.conf.get('max_packet', 0x12345678)
        mp = (4 << 20) if mp is None else mp
        user, un = text(I, st, 'user'); db, dn = text(I, st, 'db')
        out = []
        for s, creds in self.cred(I, st, eff):
            ex = []
            if not c & LENENC and c & SECURE_CONN and not s.f.entails(p_le(self.pw(I, s)[1], C(255))) and eff == 'Clear':
                out.append(s)   # the one-byte length cannot express such a password
                continue
            for cr in creds:
                n = ZERO
                for x in cr: n = add(n, x[-1])
                for pre, p2 in self.prefixed(I, s, c, n):
                    if pre is None: continue
                    e = [k(c.to_bytes(4, 'little') + mp.to_bytes(4, 'little') + bytes([45 if v >= (5, 5, 3) else 33]) + bytes(23)), *user, k(b'\0'), *pre, *cr]
                    if p2: e.append(k(p2))
                    if c & WITH_DB: e += [*db, k(b'\0')]
                    if c & PLUGIN_AUTH: e.append(k(PLUGINS[eff] + b'\0'))
                    ex.append(tuple(e))
            r = self.anyeq(I, s, q, ex)
            what = 'response:%s' % ('empty' if s.f.entails(p_eq(self.pw(I, s)[1], ZERO)) else eff)
            for pr in ('C19', 'C32'):
                if pr in P and not (pr == 'C32' and eff == 'Clear'):
                    self.verdict(I, s, ctx, pr, what, r, 'the handshake response is not flags, packet limit, collation, filler, user, %s credential%s%s for the announced flags %#x' % (eff, ', database' if c & WITH_DB else '', ', method' if c & PLUGIN_AUTH else '', c))
            out.append(s)
        return out

    needed = PLUGIN_AUTH | WITH_DB

    def prefixed(self, I, st, c, n):
        """encodings of the credential's length for the announced flags: [(prefix segments, suffix)]"""
        nc = st.f.const(n)
        if c & (LENENC | SECURE_CONN):
            if nc is not None and nc < 251: return [((('k', bytes([nc]), ONE),), b'')]
            if c & LENENC: hi = 250
            else: hi = 255
            if st.f.entails(p_le(n, C(hi))): return [((('el', ('i', n), ONE),), b'')]
            if c & LENENC and st.f.entails(p_le(C(251), n)) and st.f.entails(p_le(n, C(65535))):
                return [((('k', b'\xfc', ONE), ('le', n, C(2))), b'')]
            return [(None, None)]
        return [((), b'\0')]

    def on_return(self, I, st, ctx, v):
        super().on_return(I, st, ctx, v)
        r = v
        if r[0] == 'a' and I.T[r[1]]['variants'][r[2]][0] == 'Ready': r = r[3][0]
        if r[0] != 'a': return
        nm = I.T[r[1]]['variants'][r[2]][0]
        if nm == 'Ok':
            self.ended(I, st, None, 'connecting succeeds')
            if 'C03' in self.props and st.a('pos') == 'e':
                self.bad(I, st, None, 'C03', 'connect-ok', 'connecting succeeds although the server reported an error')
        elif 'C03' in self.props and st.a('pos') == 'e':
            self.check('C03')
            e = r[3][0]
            if e[0] == 's': e = I.expand(e)
            vn = I.T[e[1]]['variants'][e[2]][0] if e[0] == 'a' else None
            if vn is None: self.unsure['C03:connect'] = 'error value not known'
            elif vn != 'Server': self.bad(I, st, None, 'C03', 'connect-error:%s' % vn, "the server's error is reported as %s" % vn)

def symroots(s):
    """what a byte reveals: the origins it can be computed back to"""
    k = SKEY[s]
    if k[0] == 'xor':
        a, b = xor_roots(k)
        return set() if a is None or b is None else a | b
    if k[0] == 'b':
        kk = KINFO[k[1][1]][0]
        if kk[0] in ('digest', 'enc'): return set()
        if kk[0] == 'at' and KINFO[kk[1][1]][0][0] in ('digest', 'enc', 'bbytes'): return set()
    return allroots(k)

def allroots(k):
    out = set()
    def walk(x):
        if type(x) is tuple:
            if len(x) == 2 and x[0] == 'k' and isinstance(x[1], int): out.update(KINFO[x[1]][1])
            for y in x: walk(y)
    walk(k)
    return out

def hidden(s):
    k = SKEY[s]
    if k[0] != 'b': return False
    kk = KINFO[k[1][1]][0]
    return kk[0] in ('digest', 'enc') or kk[0] == 'at' and KINFO[kk[1][1]][0][0] in ('digest', 'enc', 'bbytes')

def xor_roots(k):
    r = []
    for x in k[1:3]:
        ss = [s for s, _ in x[2]]
        r.append(None if any(hidden(s) for s in ss) else set().union(*[symroots(s) for s in ss]) if ss else set())
    return r
