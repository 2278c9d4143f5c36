"""Protocol monitor: position of the client in the conversation with the server.

The reference automaton below is the MySQL client/server protocol (command phase).
It advances on what crosses the transport and on the begin/end markers of the client
fixture, never on names inside the library.
"""
from .dom import *
from .wire import *
from .wire import gi, si
from . import models as M
from .models import fork, content

OPS = ('execute_query', 'cleanup', 'query', 'ResultSet::next', 'ResultSet::one', 'ResultSet::collect', 'ResultSet::finish',
       'ResultSet::finish_into_inner', 'prepare_statement', 'PreparedStatement::execute', 'PreparedStatement::query', 'disconnect')
EXEC, CLEANUP, QUERY, NEXT, RONE, COLLECT, FINISH, FINISHI, PREP, SEXEC, SQUERY, QUIT = range(12)
vint0 = ('i', C(0))
CANCEL, OK, ROW, SERVER, TIMEDOUT, OTHER, IO, RUNTIME = range(8)
OPEN = 'DER'           # a result whose terminator has not arrived
PREPOPEN = 'pecg'

def pin(I, st, loc, k):
    """name the first k bytes of the packet in memory, so that facts about them are kept"""
    sl = ('l', loc[1], loc[2], loc[3], loc[4])
    q = content(I, st, sl)
    els = tuple(('el', I.qget(st, q, C(i)), ONE) for i in range(k))
    r = I.split(st, q, C(k))
    if r is not None:
        I.store(st, (loc[1], loc[2], (loc[3], loc[4])), ('q', q[1], q[2], els + tuple(r[1])))

class Proto(Wire):
    props = ()
    errsum = True
    resume = False         # explore polling again after Pending (otherwise the operation is given up there)
    dep = None             # restrict to one negotiated DEPRECATE_EOF setting

    def __init__(self, props=(), **kw):
        super().__init__()
        self.props = tuple(props)
        self.found = {}
        self.nobl = {}
        self.unsure = {}
        self.free = False      # explore what happens after the server leaves the protocol
        self.opaque = OPAQUE + (('::OkPacket',) if 'C03' in self.props else ('::ErrPacket', '::OkPacket'))
        self._errdec = {}
        self.ioerr = bool({'C09', 'C10', 'C11'} & set(self.props))
        self.pend = bool({'C09', 'C10'} & set(self.props))
        for k, v in kw.items(): setattr(self, k, v)

    # ---- reporting -----------------------------------------------------
    def check(self, prop): self.nobl[prop] = self.nobl.get(prop, 0) + 1
    def bad(self, I, st, ctx, prop, what, msg, sp=None):
        op = st.a('op')
        op = OPS[op] if isinstance(op, int) else (op or 'connect')
        key = '%s:%s:%s' % (prop, what, op)
        if TAINT and st.sw:
            self.unsure[key] = 'hinges on an unmodelled value'
            return
        if key not in self.found and not contradictory(st.f):
            c, s = I.subj_site(ctx, sp)
            self.found[key] = dict(prop=prop, msg='%s: %s' % (op, msg), where=I.where(c, s), chain=I.chain_of(ctx))

    def frame(self, I, st, ctx, what, ok, msg, sp=None):
        if 'C01' not in self.props: return super().frame(I, st, ctx, what, ok, msg, sp)
        self.check('C01')
        if ok is False: self.bad(I, st, ctx, 'C01', what, msg, sp)
        elif ok is None: self.unsure['C01:' + what] = what + ' undecided'

    # ---- fixture hooks --------------------------------------------------
    def on_call(self, I, st, ctx, bb, t, inst, args):
        if inst['krate'] == 'verif_fixture':
            n = inst['name'] or inst['path'].rsplit('::', 1)[-1]
            h = getattr(self, 'fx_' + n, None)
            if h is not None:
                r = h(I, st, ctx, bb, t, args)
                return [(s, v if v is not None else I.UNIT) for s, v in r]
        if 'C03' in self.props and inst['krate'] == 'mysql_connector' and self.errsum:
            r = self.err_decoder(I, st, ctx, bb, t, inst, args)
            if r is not None: return r
        if st.a('err') == 'f' and inst['name'] == 'from_utf8' and inst['krate'] in ('core', 'alloc', 'std'):
            # the text of a well-formed error packet is UTF-8
            r = M.EXACT.get(inst['path'])
            out = r(I, st, ctx, bb, t, inst, args) if r else None
            if out is not None:
                return [(s, v) for s, v in out if not (v[0] == 'a' and I.T[v[1]]['variants'][v[2]][0] == 'Err')]
        return super().on_call(I, st, ctx, bb, t, inst, args)

    def err_decoder(self, I, st, ctx, bb, t, inst, args):
        """decoding an error packet: a well-formed one yields the server's error (what the
        decoder does with it is an obligation of its own, see checks/c03.py)"""
        iid = inst['id']
        z = self._errdec.get(iid)
        if z is None:
            b = I.p.body(iid)
            z = False
            if b is not None and t.get('to') is not None:
                rt = I.T[b.locals[0]]
                if rt.get('path') == 'std::result::Result' and (I.T[rt['args'][0]].get('path') or '').endswith('::ErrPacket'): z = rt['args'][0]
            self._errdec[iid] = z
        if z is False: return None
        bs = None
        for a in args:
            if a[0] == 'l': bs = a; continue
            if a[0] != 'r': continue
            v = M.load(I, st, a)
            if v[0] == 's': v = I.expand(v)
            if v[0] == 'a' and len(v[3]) == 1 and v[3][0][0] == 'l': bs = v[3][0]
        if bs is None: return None
        q = content(I, st, bs)
        if not st.f.entails(p_le(C(9), q[2])): return None
        b0, b3 = I.qget(st, q, ZERO)[1], I.qget(st, q, C(3))[1]
        if not (st.f.entails(p_eq(b0, C(0xFF))) and st.f.entails(p_eq(b3, C(0x23)))): return None
        if st.a('err') != 'f': return None
        tok = I.fresh(st, ctx, bb, 'errdec')
        for i, (a, o) in enumerate(zip(args, t['args'])):
            I.havoc(st, a, o[1][2] if o[0] in 'cm' else o[1]['t'], K('hv', kr(tok), i))
        for n, vv in enumerate(I.T[z]['variants']):
            if len(vv[2]) == 1 and (I.T[vv[2][0][1]].get('path') or '').endswith('::ErrorPacket'):
                e = ('a', z, n, (I.mk(vv[2][0][1], K('err', kr(tok))),))
                self.summaries.add(inst.get('full') or inst['path'])
                return [(st, I.ctor(t['dst'][2], 'Ok', [e]))]
        return None

    def fx_nondet(self, I, st, ctx, bb, t, args):
        if st.a('pcan'):
            st.seta(pcan=None)
            return [(st, vint0)]
        tok = I.fresh(st, ctx, bb, 'nd')
        return [(st, ('i', S(sym(('b', kr(K('nd', kr(tok)))), 0, (1 << 32) - 1))))]

    def fx_facts(self, I, st, ctx, bb, t, args):
        out = []
        st.m[('A', 'tmo')] = args[1]
        y, n = fork(st, args[0][1])
        for s, d in ((y, 1), (n, 0)):
            if s is None: continue
            if self.dep is not None and self.dep != d: continue
            s.seta(dep=d)
            out.append((s, None))
        return out

    def fx_idle(self, I, st, ctx, bb, t, args):
        st.seta(pos='I', iop=None, tp=None, tm=None, lk=None)
        return [(st, None)]

    def fx_begin(self, I, st, ctx, bb, t, args):
        op = st.f.const(args[0][1])
        st.seta(op=op, ended=1 if st.a('pos') == 'I' else None, row=None, term=None, err=None)
        return [(st, None)]

    def fx_pending(self, I, st, ctx, bb, t, args):
        if st.a('iop') and 'C09' in self.props:
            self.check('C09')
            if not st.a('tp'):
                self.bad(I, st, ctx, 'C09', 'unbounded-wait', 'waits for the transport without a running timer')
                return []
            if st.a('tm') != 1:
                self.bad(I, st, ctx, 'C09', 'timer', 'the timer of a wait was not started with the configured timeout for this wait')
                return []
        st.seta(tp=None, pcan=None if self.resume else 1)
        return [(st, None)]

    def fx_end(self, I, st, ctx, bb, t, args):
        op, code = st.f.const(args[0][1]), st.f.const(args[1][1])
        pos = st.a('pos')
        if code is None: raise Exception('end code')
        if pos is None or pos == 'F': return []
        good = code in (OK, ROW)
        if code == CANCEL:
            if st.a('iop') and not (st.a('lk') == 'flush' and st.a('wp') is None): pos = 'X'
        elif not self.end_checks(I, st, ctx, op, code, pos, good): return []
        st.seta(pos=pos, op=None, ended=None, row=None, fl=None, term=None, err=None, el=None, iop=None, tp=None, tm=None, lk=None,
                rp=None, wp=None, wl=None, wc=None, wf=None, rcont=None, rfull=None, dirty=None, badseq=None)
        for x in ('rlen', 'wlen', 'h0', 'h1', 'h2', 'h3', 'b0', 'pn'): si(st, x, None)
        if pos in 'IXZQPR':
            for x in ('left', 'cols', 'seen'): si(st, x, None)
        if pos in 'IXZ': si(st, 'seq', None)
        return [(st, None)]

    def end_checks(self, I, st, ctx, op, code, pos, good):
        P = self.props
        err = st.a('err')
        if err and 'C03' in P:
            self.check('C03')
            if good or (err == 'f' and code != SERVER):
                self.bad(I, st, ctx, 'C03', 'swallowed', 'the server answered with an error packet, the operation reports ' +
                         ('success' if good else 'a different error'))
                return False
        if good and 'C01' in P:
            self.check('C01')
            if not self.unfinished(I, st, ctx, 'success is reported'): return False
        if st.a('badseq') and 'C02' in P:
            self.check('C02')
            if good:
                self.bad(I, st, ctx, 'C02', 'accepted', 'reports success although a packet with an unexpected sequence number was received')
                return False
        if st.a('el') and 'C09' in P:
            self.check('C09')
            if code != TIMEDOUT:
                self.bad(I, st, ctx, 'C09', 'not-reported', 'the timer fired, the operation does not return a timed-out error')
                return False
        if good and st.a('dirty') and 'C30' in P:
            self.check('C30')
            self.bad(I, st, ctx, 'C30', 'unflushed-end', 'completes while request bytes are still unflushed')
            return False
        if good and 'C08' in P and not err:
            self.check('C08')
            row, term = st.a('row'), st.a('term')
            done = st.a('ended') or term
            w = None
            if op == NEXT:
                if code == ROW and not row: w = 'a row is returned although no row packet was read'
                if code == OK and row: w = 'a row packet was read, the end of the result is reported'
                if code == OK and not done: w = 'the end of the result is reported without its terminator'
            elif op == RONE:
                if code == ROW and not row: w = 'a row is returned although no row packet was read'
                if code == OK and row: w = 'a row packet was read, the end of the result is reported'
                if not done: w = 'rows are left unread'
            elif op in (COLLECT, FINISH, FINISHI):
                if not done: w = 'the end of the result is reported without its terminator'
            elif op in (QUERY, SQUERY):
                if pos not in 'RI': w = 'a result set is returned at the wrong position of the reply'
            if w:
                self.bad(I, st, ctx, 'C08', 'result', w)
                return False
        if good and 'C10' in P and pos != 'F':
            self.check('C10')
            w = None
            if op in (EXEC, SEXEC, PREP) and pos != 'I': w = 'reports success although the reply was not read completely'
            if op == CLEANUP and pos in OPEN + PREPOPEN: w = 'reports success although unread rows remain'
            if w:
                self.bad(I, st, ctx, 'C10', 'incomplete', w)
                return False
        return True

    # ---- transport events ------------------------------------------------
    def io(self, I, st, ctx, bb, t, what, args):
        rd = what.startswith('read')
        pos = st.a('pos')
        P = self.props
        if pos is not None:
            if rd and 'C30' in P:
                self.check('C30')
                if st.a('dirty'):
                    self.bad(I, st, ctx, 'C30', 'unflushed', 'waits for a reply before the request was flushed', t['sp'])
                    return []
            if st.a('el') and 'C09' in P:
                self.check('C09')
                self.bad(I, st, ctx, 'C09', 'continues', 'goes on using the transport after the timer fired', t['sp'])
                return []
            if pos in 'XZ' and not (what in ('flush', 'shutdown')):
                if 'C10' in P:
                    self.check('C10')
                    self.bad(I, st, ctx, 'C10', 'reuse', 'the transport is used again after a transfer was cut short', t['sp'])
                return []
            if rd and 'C10' in P: self.check('C10')
        st.seta(lk='flush' if what == 'flush' else 'x')
        out = []
        for s, v in super().io(I, st, ctx, bb, t, what, args):
            if self.ready_val(I, v): s.seta(iop=None, tp=None, tm=None, lk=None)
            out.append((s, v))
        return out

    def ready_val(self, I, v):
        return v[0] == 'a' and I.T[v[1]]['variants'][v[2]][0] == 'Ready'

    def io_pending(self, I, st, ctx):
        st.seta(iop=1, tp=None)
        return [st]

    def io_error(self, I, st, ctx):
        if st.a('pos') not in (None, 'Z'): st.seta(pos='X')
        return [st]

    def timer_new(self, I, st, ctx, d):
        if st.a('pos') is None or 'C09' not in self.props: return
        if st.a('iop') and 'C09' in self.props:
            self.check('C09')
            self.bad(I, st, ctx, 'C09', 'restarted', 'the timer is restarted while a wait is in progress')
        st.seta(tm=1 if self.same_duration(I, st, d, st.m.get(('A', 'tmo'))) else 2)

    def same_duration(self, I, st, a, b):
        if a == b: return True
        if a is None or b is None: return False
        def leaves(v):
            if v[0] == 's': v = I.expand(v)
            if v[0] == 'a': return [y for x in v[3] for y in leaves(x)]
            return [v]
        x, y = leaves(a), leaves(b)
        return len(x) == len(y) and all(p == q or (p[0] == 'i' and q[0] == 'i' and st.f.entails(p_eq(p[1], q[1]))) for p, q in zip(x, y))

    def timer_pending(self, I, st, ctx, d):
        st.seta(tp=1)
        return [st]

    def timer_elapsed(self, I, st, ctx, d):
        if st.a('pos') is None: return [st]
        st.seta(el=1)
        if st.a('pos') != 'Z': st.seta(pos='X')
        return [st]

    # ---- incoming --------------------------------------------------------
    def header(self, I, st, ctx, L, seq):
        pos = st.a('pos')
        if pos is not None and not st.a('rcont') and not self.may_read(I, st, ctx, pos): return []
        if 'C02' in self.props: self.check('C02')
        if st.a('badseq') and 'C02' in self.props:
            self.bad(I, st, ctx, 'C02', 'continues', 'reads on after a packet with an unexpected sequence number')
            return []
        exp = gi(st, 'seq')
        if exp is None: return [st]
        y, n = fork(st, p_eq(seq, exp))
        out = [] if y is None else [y]
        if n is not None and 'C02' in self.props and pos not in (None, 'F'):
            n.seta(badseq=1)
            out.append(n)
        return out

    def may_read(self, I, st, ctx, pos):
        P = self.props
        if st.a('err') and 'C03' in P:
            self.check('C03')
            self.bad(I, st, ctx, 'C03', 'reads-on', 'reads another packet after the server reported an error')
            return False
        if 'C08' in P: self.check('C08')
        if pos == 'I':
            if 'C08' in P and st.a('ended') or 'C08' in P and st.a('term'):
                self.bad(I, st, ctx, 'C08', 'past-end', 'reads another packet although the result has ended')
            elif 'C10' in P:
                self.bad(I, st, ctx, 'C10', 'unsolicited', 'waits for a packet although no reply is outstanding')
            return False
        if st.a('op') == NEXT and st.a('row') and 'C08' in P:
            self.bad(I, st, ctx, 'C08', 'skips', 'reads a second packet although a row was read')
            return False
        return True

    def payload(self, I, st, ctx, sl, n, tok):
        if not (st.a('rcont') or st.a('rfull')):
            si(st, 'b0', S(sym(('b', kr(K('el0', kr(tok)))), 0, 255)))
            si(st, 'pn', n)
            st.m[('A', 'loc')] = sl
        return super().payload(I, st, ctx, sl, n, tok)

    def packet(self, I, st, cls, ctx):
        b0, n, loc = gi(st, 'b0'), gi(st, 'pn'), st.m.pop(('A', 'loc'), None)
        si(st, 'b0', None); si(st, 'pn', None)
        if st.a('badseq'):
            return [st]
        st.seta(fl=None)
        return self.step(I, st, cls, ctx, b0, n, loc)

    def server_err(self, I, st, n, loc):
        """error packet: well-formed ones carry a code other than the progress marker, the
        state marker, a state and a message in UTF-8"""
        st.seta(pos='I')
        si(st, 'left', None); si(st, 'cols', None); si(st, 'seen', None)
        if 'C03' not in self.props:
            st.seta(err=1)
            return [st]
        full, short = fork(st, p_le(C(9), n))
        out = []
        if full is not None:
            q = content(I, full, ('l', loc[1], loc[2], loc[3], loc[4]))
            b = [I.qget(full, q, C(i))[1] for i in (1, 2, 3)]
            full.f.assume(p_eq(b[2], C(0x23)))
            full.f.assume(p_le(b[1], C(0xFE)))
            pin(I, full, loc, 4)
            full.seta(err='f'); out.append(full)
        if short is not None: short.seta(err='m'); out.append(short)
        return out

    def to(self, st, pos):
        if pos == 'F' and not self.free: return []
        st.seta(pos=pos)
        return [st]

    def step(self, I, st, cls, ctx, b0, n, loc):
        pos = st.a('pos')
        if pos in (None, 'F'): return [st]
        if cls == 'EMPTY': return self.to(st, 'F')
        if cls == 'FF': return self.server_err(I, st, n, loc)
        if pos == 'Q':
            if cls == '00': st.seta(term=1); return self.to(st, 'I')
            if cls == 'FB': return self.to(st, 'X')
            if cls == 'lo':
                si(st, 'left', b0); si(st, 'seen', ZERO)
                return self.to(st, 'D')
            return self.to(st, 'F')
        if pos in 'Dpc': return self.defs(st, pos)
        if pos in 'Eeg':
            if cls != 'FEs': return self.to(st, 'F')
            if pos == 'E': return self.to(st, 'R')
            if pos == 'e': return self.cols(st)
            return self.to(st, 'I')
        if pos == 'R':
            if cls == 'FEs' and not st.a('dep'):
                a, b = fork(st, p_le(n, C(7)))
                out = []
                if a is not None: a.seta(term=1); out += self.to(a, 'I')
                if b is not None: out += self.to(b, 'F')
                return out
            if cls == 'FEs' or cls == 'FEl' and st.a('dep'):
                st.seta(term=1)
                return self.to(st, 'I')
            st.seta(row=1, fl=1 if cls == 'FEl' else None)
            return [st]
        if pos == 'P':
            if cls != '00': return self.to(st, 'F')
            ok, short = fork(st, p_le(C(12), n))
            out = []
            if short is not None: out += self.to(short, 'F')
            if ok is not None:
                q = content(I, ok, ('l', loc[1], loc[2], loc[3], loc[4]))
                pin(I, ok, loc, 9)
                b = [I.qget(ok, q, C(i))[1] for i in range(5, 9)]
                si(ok, 'cols', add(b[0], mulc(b[1], 256)))
                si(ok, 'left', add(b[2], mulc(b[3], 256)))
                z, nz = fork(ok, p_eq(gi(ok, 'left'), ZERO))
                if z is not None: out += self.cols(z)
                if nz is not None: si(nz, 'seen', ZERO); out += self.to(nz, 'p')
            return out
        return self.to(st, 'F')

    def cols(self, st):
        si(st, 'left', gi(st, 'cols')); si(st, 'cols', None)
        z, nz = fork(st, p_eq(gi(st, 'left'), ZERO))
        out = []
        if z is not None: si(z, 'left', None); out += self.to(z, 'I')
        if nz is not None: si(nz, 'seen', ZERO); out += self.to(nz, 'c')
        return out

    def defs(self, st, pos):
        l = addc(gi(st, 'seen'), 1)
        z, nz = fork(st, p_le(gi(st, 'left'), l))
        out = []
        if nz is not None: si(nz, 'seen', l); out.append(nz)
        if z is not None:
            si(z, 'left', None); si(z, 'seen', None)
            if not z.a('dep'): out += self.to(z, {'D': 'E', 'p': 'e', 'c': 'g'}[pos])
            elif pos == 'D': out += self.to(z, 'R')
            elif pos == 'p': out += self.cols(z)
            else: out += self.to(z, 'I')
        return out

    # ---- outgoing --------------------------------------------------------
    def cmd_start(self, I, st, ctx, fresh, n):
        pos = st.a('pos')
        st.seta(dirty=1)
        if pos in (None, 'F'): return [st]
        P = self.props
        if st.a('badseq') and 'C02' in P:
            self.bad(I, st, ctx, 'C02', 'continues', 'sends after a packet with an unexpected sequence number')
            return []
        if st.a('err') and 'C03' in P:
            self.check('C03')
            self.bad(I, st, ctx, 'C03', 'sends-on', 'sends a command before reporting the server error')
            return []
        if 'C01' in P: self.check('C01')
        if not fresh:
            if 'C01' in P: self.bad(I, st, ctx, 'C01', 'command-seq', 'a command does not start at sequence number 0')
            return []
        for p in ('C07', 'C10'):
            if p in P: self.check(p)
        if pos in OPEN:
            if 'C07' in P: self.bad(I, st, ctx, 'C07', 'rows-unread', 'a command is sent while rows of an earlier result are unread')
            if 'C10' in P and pos != 'R': self.bad(I, st, ctx, 'C10', 'leftover', 'a command is sent while column definitions of an earlier reply are unread')
            return []
        if pos in PREPOPEN or pos in 'QPW':
            if 'C10' in P: self.bad(I, st, ctx, 'C10', 'leftover', 'a command is sent while the reply to an earlier one is outstanding')
            return []
        return self.to(st, 'W')

    def sent(self, I, st, ctx, q, n):
        if st.a('pos') != 'W': return [st]
        v = I.qget(st, q, ZERO)
        c = st.f.const(v[1]) if v[0] == 'i' else None
        if c is None:
            self.unsure['command byte'] = 'command byte of a request is not known'
            return self.to(st, 'F')
        return self.to(st, {3: 'Q', 0x16: 'P', 0x17: 'Q', 0x18: 'I', 1: 'Z'}.get(c, 'F'))

    def first_full(self, I, st, ctx, q, n):
        return self.sent(I, st, ctx, q, n)

    def flushed(self, I, st, ctx):
        st.seta(dirty=None)
        return [st]
