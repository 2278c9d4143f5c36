"""Single commands on an idle connection: what is sent, byte by byte.

The server is a fixed script (the reply to a prepare with a given number of parameters); the
packets the client sends are put together from their frames and compared with the layout of the
protocol for the arguments of the call.
"""
from .dom import *
from .wire import *
from .wire import gi, si
from . import models as M
from .models import content

def lenstr(b): return bytes([len(b)]) + b
COLDEF = lenstr(b'def') + lenstr(b'') * 3 + lenstr(b'?') + lenstr(b'') + b'\x0c' + (63).to_bytes(2, 'little') + bytes(4) + b'\xfd' + bytes(2) + b'\0' + bytes(2)

class Cmd(Wire):
    """params: None, or (make(I, st) -> ([values], judge)), count: parameters the server announces"""
    ioerr = False
    multi_w = True

    def __init__(self, op, props, dep=1, params=None, count=0, named=False, big=False):
        super().__init__()
        self.op, self.props, self.dep, self.params, self.count, self.named, self.big = op, props, dep, params, count, named, big
        self.opaque = OPAQUE + ('::OkPacket',)
        self.found, self.unsure, self.nobl = {}, {}, {}
        self.ended = 0
        self.sentn = 0

    def check(self, prop): self.nobl[prop] = self.nobl.get(prop, 0) + 1
    def verdict(self, I, st, ctx, prop, what, ok, msg):
        if prop not in self.props: return
        self.check(prop)
        key = '%s:%s' % (prop, what)
        if ok is None or ok is False and (TAINT and st.sw or st.f.dim): self.unsure[key] = '%s undecided' % what
        elif ok is False and key not in self.found and not contradictory(st.f):
            where, chain = (('call', []) if ctx is None else (I.where(*I.subj_site(ctx, None)), I.chain_of(ctx)))
            self.found[key] = dict(prop=prop, msg=msg, where=where, chain=chain)

    def frame(self, I, st, ctx, what, ok, msg, sp=None):
        if 'C01' in self.props: self.verdict(I, st, ctx, 'C01', what, ok, msg)
        else: super().frame(I, st, ctx, what, ok, msg, sp)

    def prep(self, I, st, ups):
        I.unroll = 96
        ups = list(ups)
        if len(ups) > 1:
            # the text: up to 40 MiB where it is the whole request
            key = K('pktf', 'text', root=True)
            n = S(sym(('b', kr(K('pktf', 'text', 'len', root=True))), 0, 40 << 20))
            if self.params is not None: st.f.assume(p_le(n, C(60000)))
            o = ('A', 'text')
            st.m[o] = self.q = ('q', I.u8(), n, (('src', key, ZERO, n),))
            ups[1] = ('l', o, (), ZERO, n)
            root = st.m[('A', 'root')]
            st.m[('A', 'root')] = root[:3] + (tuple(ups),) + root[4:]
        if self.params is not None:
            vals, self.judge = self.params(I, st)
            T = I.T
            root = st.m[('A', 'root')]
            vt = T[T[root[1]]['upvars'][2]]['of']
            et = T[vt]['of']
            if T[et].get('path', '').endswith('NamedValue'):
                fts = [f[1] for f in T[et]['variants'][0][2]]
                vals = [('a', et, 0, (I.mk(fts[0], K('pktf', 'name%d' % i, root=True)), v)) for i, v in enumerate(vals)]
            o = ('A', 'params')
            st.m[o] = ('q', et, C(len(vals)), tuple(('el', v, ONE) for v in vals))
            ups[2] = ('l', o, (), ZERO, C(len(vals)))
            st.m[('A', 'root')] = root[:3] + (tuple(ups),) + root[4:]

    # ---- hooks -----------------------------------------------------------
    def on_call(self, I, st, ctx, bb, t, inst, args):
        if inst['krate'] == 'verif_fixture':
            n = inst['name'] or inst['path'].rsplit('::', 1)[-1]
            if n == 'facts':
                s = M.fork(st, args[0][1])[0 if self.dep else 1]
                return [(s, I.UNIT)] if s is not None else []
            if n == 'idle':
                st.seta(pos='I')
                return [(st, I.UNIT)]
            if n == 'end':
                self.unfinished(I, st, ctx, 'the call returns')
                code = st.f.const(args[1][1])
                self.ended += 1
                if self.params is not None and self.count != self.nparams(I, st):
                    self.verdict(I, st, ctx, 'C20', 'count', code == 7, 'executing with %d parameters a statement that has %d does not end in a runtime error' % (self.nparams(I, st), self.count))
                return []
        return super().on_call(I, st, ctx, bb, t, inst, args)

    def nparams(self, I, st): return st.f.const(st.m[('A', 'params')][2])

    # ---- server ----------------------------------------------------------
    def do_read(self, I, st, ctx, bb, t, sl, n):
        pos = st.a('pos')
        if pos is None: return []
        if not self.unfinished(I, st, ctx, 'a reply is awaited'): return []
        if st.a('rp', 0) == PAY:
            segs, ln = self.pkt(I, pos)
            st.seta(rp=None); si(st, 'rlen', None)
            I.store(st, (sl[1], sl[2], (sl[3], sl[4])), ('q', I.u8(), n, I.compact(segs)))
            nx = self.nextpos(pos)
            st.seta(pos=nx)
            return [st]
        if st.f.const(n) != 4 or pos not in self.script():
            return []
        segs, ln = self.pkt(I, pos)
        sq = gi(st, 'seq')
        I.store(st, (sl[1], sl[2], (sl[3], sl[4])), ('q', I.u8(), C(4), (('k', ln.to_bytes(3, 'little'), C(3)), ('el', ('i', sq), ONE))))
        si(st, 'seq', I.wrapto(st, addc(sq, 1), I.u8()))
        st.seta(rp=PAY); si(st, 'rlen', C(ln))
        return [st]

    def script(self):
        s = ['p']
        s += ['d%d' % i for i in range(self.count)]
        if self.count and not self.dep: s.append('eof')
        return s
    def nextpos(self, pos):
        s = self.script()
        i = s.index(pos)
        return s[i + 1] if i + 1 < len(s) else 'S'
    def stmt_id(self): return [S(sym(('b', kr(K('pktf', 'id%d' % i, root=True))), 0, 255)) for i in range(4)]
    def pkt(self, I, pos):
        if pos == 'p':
            b = bytes(2) + self.count.to_bytes(2, 'little') + bytes(3)
            return (('k', b'\0', ONE),) + tuple(('el', ('i', x), ONE) for x in self.stmt_id()) + (('k', b, C(len(b))),), 12
        b = b'\xfe' + bytes(4) if pos == 'eof' else COLDEF
        return (('k', b, C(len(b))),), len(b)

    # ---- client ----------------------------------------------------------
    def cmd_start(self, I, st, ctx, fresh, n):
        if st.a('pos') is None: return []
        st.m.pop(('A', 'acc'), None)
        if st.a('pos') not in 'ISL': return []
        self.frame(I, st, ctx, 'command-seq', bool(fresh), 'a command does not start at sequence number 0, or an extra chunk follows a complete packet')
        return [st] if fresh else []

    def acc(self, I, st, q):
        st.seta(fr=st.a('fr', 0) + 1)     # frames are followed one by one
        a = st.m.get(('A', 'acc'))
        st.m[('A', 'acc')] = q if a is None else ('q', q[1], add(a[2], q[2]), I.compact(tuple(a[3]) + tuple(q[3])))
    def first_full(self, I, st, ctx, q, n):
        self.acc(I, st, q)
        return [st]
    def wrote_payload(self, I, st, ctx, q, n):
        if not st.a('wl') and not st.a('wf'): self.acc(I, st, q); return [st]
        return super().wrote_payload(I, st, ctx, q, n)
    def last_chunk(self, I, st, ctx, q, n, cont):
        self.acc(I, st, q)
        st.seta(fr=None)
        return self.whole(I, st, ctx, st.m.pop(('A', 'acc')))

    def k(self, b): return ('k', b, C(len(b)))

    def same(self, I, st, q, segs):
        from checks.sync import eq_content
        n = ZERO
        for s in segs: n = add(n, s[-1])
        return eq_content(I, st, q, ('q', I.u8(), n, I.compact(tuple(segs))))

    def whole(self, I, st, ctx, q):
        pos = st.a('pos')
        self.sentn += 1
        if pos == 'I':
            if self.op == 'quit':
                self.verdict(I, st, ctx, 'C19', 'quit', self.same(I, st, q, [self.k(b'\x01')]), 'disconnecting does not send the command byte 01 alone')
                return []
            what, c = ('query', 3) if self.op in ('exec', 'query') else ('prepare', 0x16)
            ok = self.same(I, st, q, [self.k(bytes([c])), *self.q[3]])
            self.verdict(I, st, ctx, 'C01', 'payload', ok, 'the chunks of a %s request put together are not the request' % what)
            self.verdict(I, st, ctx, 'C19', what, ok, 'a %s request is not the command byte %#x followed by the text' % (what, c))
            if c == 3: return []
            st.seta(pos='p')
            return [st] if self.op != 'prepare' else []
        if pos in 'SL':
            np = self.nparams(I, st)
            if self.count != np:
                self.verdict(I, st, ctx, 'C20', 'count-sent', False, '%d parameters are sent for a statement that has %d' % (np, self.count))
                return []
            return self.judge(self, I, st, ctx, q)
        return []
