"""Result sets of a scripted server, packet by packet and chunk by chunk (C02).

big: one row whose only value has an arbitrary length of up to 40 MiB, cut into chunks as the
protocol prescribes; otherwise any number of short rows.  Every chunk may carry the expected or
any other sequence number.
"""
from .dom import *
from .wire import *
from .wire import gi, si
from .models import fork
from .cmds import Cmd, COLDEF

class Rows(Cmd):
    def __init__(self, props, full=None, dep=1, bad=True):
        super().__init__('query', props, dep=dep)
        self.opaque, self.summarise = (), False
        self.full, self.badseq = full, bad
        self.rowsn = 0

    def V(self, I, st, ctx, what, ok, msg): self.verdict(I, st, ctx, 'C02', what, ok, msg)

    def prep(self, I, st, ups):
        super().prep(I, st, ups)
        n = self.q[2]
        st.f.assume(p_le(n, C(1000)))
        self.key = K('pktf', 'value', root=True)
        if self.full is not None:
            h = self.h = [S(sym(('b', kr(K('pktf', 'last%d' % i, root=True))), 0, 255)) for i in range(3)]
            L = self.L = add(h[0], add(mulc(h[1], 256), mulc(h[2], 65536)))
            st.f.assume(p_le(L, C(MAX - 1)))
            if not self.full: st.f.assume(p_le(C(4), L))
            si(st, 'keep', L)    # what is known of it is needed throughout
            self.n = addc(L, self.full * MAX - (9 if self.full else 4))
        else: self.n = C(3)
        self.value = [('src', self.key, ZERO, self.n)]

    def on_call(self, I, st, ctx, bb, t, inst, args):
        if inst['krate'] == 'verif_fixture':
            n = inst['name'] or inst['path'].rsplit('::', 1)[-1]
            if n == 'row':
                self.rowsn += 1
                self.progress(I, st, ctx, 'hands out a row')
                q = content(I, st, args[0])
                ok = None
                if st.f.const(q[2]) == 1:
                    v = I.qget(st, q, ZERO)
                    if v[0] == 'a' and v[3]: ok = self.same(I, st, I.seq_of(st, v[3][0]), self.value)
                self.V(I, st, ctx, 'content', ok, 'the value handed to the caller is not the concatenation of the bytes of the chunks')
                return [(st, I.UNIT)] if not st.a('bad') else []
            if n == 'end':
                code = st.f.const(args[1][1])
                self.ended += 1
                if code in (1, 2): self.progress(I, st, ctx, 'reports success')
                if not st.a('bad') and st.a('pos') != 'I': self.V(I, st, ctx, 'rejected', code in (1, 2), 'a reply whose packets all carry the expected sequence number is not accepted')
                return []
        return super().on_call(I, st, ctx, bb, t, inst, args)

    def progress(self, I, st, ctx, what):
        """the client goes on"""
        self.V(I, st, ctx, 'sequence', not st.a('bad'), '%s although a packet with an unexpected sequence number was received' % what)
        self.V(I, st, ctx, 'chunks', not st.a('rcont'), '%s although a chunk of the maximum length is followed by another' % what)

    def whole(self, I, st, ctx, q):
        st.seta(pos='q')
        return [st]
    def cmd_start(self, I, st, ctx, fresh, n):
        if st.a('pos') not in (None, 'I'):
            self.progress(I, st, ctx, 'sends another request')
            return []
        return super().cmd_start(I, st, ctx, fresh, n)

    def choices(self, pos):
        """next packets: (content, position afterwards)"""
        k = self.k
        if pos == 'q': return [([k(b'\x01')], 'd')]
        if pos == 'd': return [([k(COLDEF)], 'r' if self.dep else 'eof')]
        if pos == 'eof': return [([k(b'\xfe' + bytes(4))], 'r')]
        if pos == 'r':
            if self.full is not None: row = [k(b'\xfe' if self.full else b'\xfd'), ('le', self.n, *((8, C(8)) if self.full else (3, C(3)))), *self.value]
            else: row = [k(b'\x03'), *self.value]
            end = ([k(b'\xfe' + bytes(6 if self.dep else 4))], 'S')
            return [(row, 'e')] if self.full is not None else [(row, 'r'), end]
        if pos == 'e': return [([k(b'\xfe' + bytes(6 if self.dep else 4))], 'S')]
        return []

    def do_read(self, I, st, ctx, bb, t, sl, n):
        pos = st.a('pos')
        if pos is None: return []
        out = []
        if st.a('rp', 0) == PAY:
            L = gi(st, 'rlen')
            ok = st.f.entails(p_eq(n, L))
            if ok is None:
                from checks.sync import may_differ
                if may_differ(st, n, L): ok = False
            self.V(I, st, ctx, 'payload-length', ok, 'the bytes read behind a header are not the number it announces')
            if ok is not True: return []
            off = gi(st, 'poff')
            pk = st.m[('A', 'pkt')]
            I.store(st, (sl[1], sl[2], (sl[3], sl[4])), I.qsub(st, pk, off, L))
            if not st.a('rfull'): return [self.packet_end(st)]
            st.seta(rp=None, rfull=None, rcont=1, left=st.a('left', 0)); si(st, 'poff', add(off, L)); si(st, 'rlen', None)
            return [st]
        if st.f.const(n) != 4:
            self.unsure['header'] = 'a header is read in pieces'
            return []
        if st.a('bad'):
            self.V(I, st, ctx, 'sequence', False, 'reads on after a packet with an unexpected sequence number')
            return []
        self.check('C02')
        if not st.a('rcont'):
            ss = []
            for segs, np in self.choices(pos):
                s = st.copy()
                tot = ZERO
                for x in segs: tot = add(tot, x[-1])
                s.seta(npos=np); si(s, 'poff', ZERO)
                s.m[('A', 'pkt')] = ('q', I.u8(), tot, I.compact(tuple(segs)))
                ss.append(s)
            if not ss:
                self.V(I, st, ctx, 'past-end', False, 'reads another packet after the last one')
        else: ss = [st]
        for s in ss:
            left = s.a('left')
            if left is None: left = self.full if pos == 'r' and self.full else 0
            if left: L, hd = C(MAX), [('k', b'\xff\xff\xff', C(3))]
            elif pos == 'r' and self.full is not None: L, hd = self.L, [('el', ('i', x), ONE) for x in self.h]
            else:
                L = addc(s.m[('A', 'pkt')][2], 0)
                hd = [('k', st.f.const(L).to_bytes(3, 'little'), C(3))]
            exp = gi(s, 'seq')
            ways = [(s, exp, False)]
            if self.badseq:
                b = s.copy()
                w = S(sym(('b', kr(K('hb', kr(I.fresh(b, ctx, bb, 'hd')), 3))), 0, 255))
                _, b = fork(b, p_eq(w, exp))
                if b is not None: ways.append((b, w, True))
            for y, sq, bad in ways:
                if self.full: y.seta(ch=y.a('ch', 0) + 1)
                I.store(y, (sl[1], sl[2], (sl[3], sl[4])), ('q', I.u8(), C(4), (*hd, ('el', ('i', sq), ONE))))
                if bad: y.seta(bad=1)
                else: si(y, 'seq', I.wrapto(y, addc(sq, 1), I.u8()))
                z, y = fork(y, p_eq(L, ZERO))
                if z is not None: out.append(self.packet_end(z))
                if y is None: continue
                y.seta(rp=PAY, left=left - 1 if left else None, rfull=1 if left else None); si(y, 'rlen', L)
                out.append(y)
        return out

    def packet_end(self, st):
        st.seta(rp=None, rcont=None, rfull=None, left=None, pos=st.a('npos'), npos=None)
        si(st, 'poff', None); si(st, 'rlen', None); st.m.pop(('A', 'pkt'))
        return st
