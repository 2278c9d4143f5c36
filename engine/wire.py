"""Stream-level environment for the async analyses: an arbitrary server, an
arbitrary transport, and event hooks.

The library only ever touches the connection through tokio's read/write leaf
futures.  Every poll of such a leaf is an *event* here: reads are answered with
unconstrained bytes (header bytes, then a payload whose first byte is split into
packet classes), writes are parsed back into MySQL frames.
"""
from .dom import *
from .absint import Interp, State, NotConverged, short
from . import models as M
from .models import Models, vidx, ready, pendingv, ok, err, payload_ty, content, fork
from .base import Base

MAX = 0xFFFFFF
HDR, PAY = 'H', 'P'

CLASSES = (('00', 0, 0), ('FB', 0xFB, 0xFB), ('FE', 0xFE, 0xFE), ('FF', 0xFF, 0xFF), ('lo', 1, 0xFA), ('FC', 0xFC, 0xFD))

def gi(st, name):
    v = st.m.get(('A', name))
    return None if v is None else v[1]

def si(st, name, lin):
    if lin is None: st.m.pop(('A', name), None)
    else: st.m[('A', name)] = ('i', lin)

RSZ = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}

OPAQUE = ('::column_def::ColumnDef', '::types::Column', '::types::Value')
IO = ('Connection', 'Timeout', 'streams::', 'dyn ', 'tokio::', 'Coroutine', 'PreparedStatement', 'ResultSet')

def adts(I, ty, out=None, depth=0):
    """paths of the ADTs a type mentions by value or reference"""
    if out is None: out = set()
    t = I.T[ty]
    if depth > 12 or ty in out: return out
    out.add(ty)
    for a in t.get('args') or (): adts(I, a, out, depth + 1) if isinstance(a, int) else None
    if isinstance(t.get('of'), int): adts(I, t['of'], out, depth + 1)
    for a in t.get('elems') or (): adts(I, a, out, depth + 1)
    return out

class Wire(Base):
    opaque = OPAQUE
    summarise = True      # replace pure decoders of columns and rows by arbitrary results
    classes = CLASSES
    pend = False          # explore Pending at the leaves
    ioerr = True          # explore I/O errors at the leaves
    multi_w = False       # explore outgoing packets larger than one frame
    multi = False         # explore multi-chunk packets

    def __init__(self):
        super().__init__()
        self.events = {}
        self.sites = set()
        self._pure = {}
        self.summaries = set()

    def on_call(self, I, st, ctx, bb, t, inst, args):
        if not self.summarise or inst['krate'] not in ('mysql_connector', 'verif_fixture'): return None
        iid = inst['id']
        z = self._pure.get(iid)
        if z is None: z = self._pure[iid] = self.pure_decoder(I, t, inst)
        if not z: return None
        tok = I.fresh(st, ctx, bb, 'pure')
        for i, (a, o) in enumerate(zip(args, t['args'])):
            ty = o[1][2] if o[0] in 'cm' else o[1]['t']
            I.havoc(st, a, ty, K('hv', kr(tok), i))
        ty = t['dst'][2]
        tt = I.T[ty]
        out = []
        if tt['k'] == 'enum' and tt.get('path') in ('std::result::Result', 'std::option::Option'):
            for n in range(len(tt['variants'])):
                s = st.copy() if n == 0 else st
                fs = []
                for k, f in enumerate(tt['variants'][n][2]):
                    v = I.mk(f[1], K('pr', kr(tok), n, k))
                    if I.is_vec(I.T[f[1]]) and I.T[I.T[f[1]]['args'][0]]['s'].endswith('::types::Value'):
                        # one value per column (checked for the row decoders themselves by C12)
                        for a, o in zip(args, t['args']):
                            at = I.T[o[1][2] if o[0] in 'cm' else o[1]['t']]
                            if at['k'] == 'ref' and I.T[at['of']]['k'] == 'slice' and I.T[I.T[at['of']]['of']]['s'].endswith('::types::Column'):
                                ln = I.slice_len(s, a)
                                v = M.newvec(I, s, ctx, bb, I.T[f[1]]['args'][0], ln, (('src', K('row', kr(tok)), ZERO, ln),), 'row')
                    fs.append(v)
                out.append((s, ('a', ty, n, tuple(fs))))
            return out
        return [(st, I.mk(ty, K('pr', kr(tok))))]

    def pure_decoder(self, I, t, inst):
        """a function that cannot touch the connection and produces columns, values or models"""
        if inst['kind'] != 'fn' and inst['kind'] != 'item': pass
        b = I.p.body(inst['id'])
        if b is None or t.get('to') is None: return False
        for k in range(b.argc):
            if any(x in I.T[b.locals[k + 1]]['s'] for x in IO): return False
        r = b.locals[0]
        if I.T[r]['k'] in ('ref', 'ptr', 'coroutine', 'closure'): return False
        if any(x in I.T[r]['s'] for x in IO): return False
        raw = any(x in I.T[b.locals[k + 1]]['s'] for k in range(b.argc) for x in ('[u8]', 'ParseBuf', 'ColumnDef', 'PoolItem'))
        for a in adts(I, r):
            tt = I.T[a]
            p = tt.get('path') or ''
            if tt['k'] in ('ref', 'ptr'): continue
            if p.endswith(self.opaque) and raw or tt['s'].startswith('models::'):
                self.summaries.add(inst.get('full') or inst['path'])
                return True
        return False

    # ---- hooks for subclasses -----------------------------------------
    def packet(self, I, st, cls, ctx): return [st]
    def header(self, I, st, ctx, L, seq): return [st]
    def cmd_start(self, I, st, ctx, fresh, n): return [st]
    def sent(self, I, st, ctx, q, n): return [st]
    def flushed(self, I, st, ctx): return [st]
    def io_error(self, I, st, ctx): return [st]
    def io_pending(self, I, st, ctx): return [st]

    def viol(self, I, ctx, what, msg='', sp=None):
        c, s = I.subj_site(ctx, sp)
        key = (I.p.insts[c.inst]['path'], I.where(c, s), what)
        if key not in self.reports:
            self.reports[key] = dict(chain=I.chain_of(ctx), msg=msg)

    def frame(self, I, st, ctx, what, ok, msg, sp=None):
        """an obligation on the frames of an outgoing packet (True, False or None: undecided)"""
        if ok is not True: self.viol(I, ctx, 'wire:' + what, msg, sp)

    def eqv(self, st, a, b):
        ok = st.f.entails(p_eq(a, b))
        if ok is None:
            from checks.sync import may_differ
            if may_differ(st, a, b): ok = False
        return ok

    # ---- leaf futures --------------------------------------------------
    def io(self, I, st, ctx, bb, t, what, args):
        ty = t['dst'][2]
        rt = payload_ty(I, ty, 'Ready')
        out = []
        self.sites.add((I.where(*I.subj_site(ctx, t['sp'])), what))
        if self.pend:
            s = st.copy()
            for s in self.io_pending(I, s, ctx):
                out.append((s, pendingv(I, ty)))
        if self.ioerr:
            s = st.copy()
            e = I.mk(payload_ty(I, rt, 'Err'), K('ioe'))
            for s in self.io_error(I, s, ctx):
                out.append((s, ready(I, ty, err(I, rt, e))))
        if what in ('read_exact',):
            sl = args[1]
            n = content(I, st, sl)[2]
            for s in self.do_read(I, st, ctx, bb, t, sl, n):
                out.append((s, ready(I, ty, ok(I, rt, ('i', n)))))
        elif what.startswith('read_') and what[5:].replace('_le', '') in RSZ:
            n = RSZ[what[5:].replace('_le', '')]
            o = ('A', 'tmprd')
            st.m[o] = ('q', I.u8(), C(n), (('fill', ('i', ZERO), C(n)),))
            for s in self.do_read(I, st, ctx, bb, t, ('l', o, (), ZERO, C(n)), C(n)):
                q = s.m.pop(o)
                bs = [I.qget(s, q, C(i))[1] for i in range(n)]
                if not what.endswith('_le'): bs.reverse()
                v = ZERO
                for i, x in enumerate(bs): v = add(v, mulc(x, 256 ** i))
                out.append((s, ready(I, ty, ok(I, rt, ('i', v)))))
        elif what == 'read':
            raise Exception('partial read not modelled')
        elif what == 'write_all':
            q = content(I, st, args[1])
            for s in self.do_write(I, st, ctx, bb, t, q):
                out.append((s, ready(I, ty, ok(I, rt, I.UNIT))))
        elif what.startswith('write_') and what[6:].replace('_le', '') in RSZ:
            n = RSZ[what[6:].replace('_le', '')]
            v = I.toint(st, args[1])
            q = ('q', I.u8(), C(n), (M.int_seg(v, n, not what.endswith('_le')) if n > 1 else ('el', ('i', v), ONE),))
            for s in self.do_write(I, st, ctx, bb, t, q):
                out.append((s, ready(I, ty, ok(I, rt, I.UNIT))))
        elif what in ('flush', 'shutdown'):
            for s in self.flushed(I, st, ctx):
                out.append((s, ready(I, ty, ok(I, rt, I.UNIT))))
        else:
            raise Exception('leaf ' + what)
        return out

    # ---- reading -------------------------------------------------------
    def do_read(self, I, st, ctx, bb, t, sl, n):
        """n bytes are read into slice sl; returns successor states"""
        rp = st.a('rp', 0)
        nc = st.f.const(n)
        if st.a('wc') or st.a('wp'):
            if not self.unfinished(I, st, ctx, 'a reply is awaited'): return []
        if rp == PAY:
            L = gi(st, 'rlen')
            if L is None:
                self.viol(I, ctx, 'wire:read', 'read before a header'); L = n
            if nc == 0: return [st]
            if not st.f.entails(p_eq(n, L)):
                self.viol(I, ctx, 'wire:payload-length', 'payload read of %s bytes, header announced %s' % (n, L), t['sp'])
                return []
            tok = I.fresh(st, ctx, bb, 'pl')
            return self.payload(I, st, ctx, sl, n, tok)
        if nc is None or nc > 4 - rp:
            if nc != 0:
                self.viol(I, ctx, 'wire:header', 'header read of %s bytes' % (n,), t['sp'])
                return []
            return [st]
        tok = I.fresh(st, ctx, bb, 'hd')
        els = []
        for i in range(nc):
            b = S(sym(('b', kr(K('hb', kr(tok), rp + i))), 0, 255))
            si(st, 'h%d' % (rp + i), b)
            els.append(('el', ('i', b), ONE))
        I.store(st, (sl[1], sl[2], (sl[3], sl[4])), ('q', I.u8(), C(nc), tuple(els)))
        rp += nc
        if rp < 4:
            st.seta(rp=rp)
            return [st]
        L = add(gi(st, 'h0'), add(mulc(gi(st, 'h1'), 256), mulc(gi(st, 'h2'), 65536)))
        seq = gi(st, 'h3')
        for i in range(4): si(st, 'h%d' % i, None)
        out = []
        for s in self.header(I, st, ctx, L, seq):
            exp = gi(s, 'seq')
            # the announced number, named by what it was compared with where they agree
            nx = exp if exp is not None and s.f.entails(p_eq(seq, exp)) else seq
            if not isconst(nx):
                c = s.f.const(nx)
                if c is not None: nx = C(c)
            si(s, 'seq', I.wrapto(s, addc(nx, 1), I.u8()))
            s0, s1 = fork(s, p_eq(L, ZERO))
            if s0 is not None:
                s0.seta(rp=None)
                if s0.a('rcont'):
                    s0.seta(rcont=None)
                    out += self.packet_done(I, s0, ctx)
                else:
                    out += self.packet(I, s0, 'EMPTY', ctx)
            if s1 is not None:
                sm, sl_ = fork(s1, p_eq(L, C(MAX)))
                if sl_ is not None:
                    sl_.seta(rp=PAY); si(sl_, 'rlen', L)
                    out.append(sl_)
                if sm is not None and self.multi:
                    sm.seta(rp=PAY, rfull=1); si(sm, 'rlen', L)
                    out.append(sm)
        return out

    def packet_done(self, I, st, ctx): return [st]

    def payload(self, I, st, ctx, sl, n, tok):
        if st.a('rcont') or st.a('rfull'):
            # part of a packet larger than one chunk: contents unconstrained, no class
            I.store(st, (sl[1], sl[2], (sl[3], sl[4])), ('q', I.u8(), n, (('src', tok, ZERO, n),)))
            full = st.a('rfull')
            st.seta(rp=None, rfull=None, rcont=1 if full else None); si(st, 'rlen', None)
            return [st] if full else self.packet_done(I, st, ctx)
        out = []
        b0 = S(sym(('b', kr(K('el0', kr(tok)))), 0, 255))
        I.store(st, (sl[1], sl[2], (sl[3], sl[4])),
                ('q', I.u8(), n, (('el', ('i', b0), ONE), ('src', K('tl', kr(tok)), ZERO, addc(n, -1)))))
        st.seta(rp=None); si(st, 'rlen', None)
        for name, lo, hi in self.classes:
            s = st.copy()
            try:
                s.f.assume(p_le(C(lo), b0)); s.f.assume(p_le(b0, C(hi)))
            except Infeasible:
                continue
            if name == 'FE':
                for p, nm in ((p_lt(n, C(9)), 'FEs'), (p_le(C(9), n), 'FEl')):
                    s2 = s.copy()
                    try: s2.f.assume(p)
                    except Infeasible: continue
                    out += self.packet(I, s2, nm, ctx)
                continue
            out += self.packet(I, s, name, ctx)
        return out

    # ---- writing -------------------------------------------------------
    def unfinished(self, I, st, ctx, what):
        if (st.a('wp') or st.a('wc')) and contradictory(st.f): return True
        if st.a('wp') == PAY: self.frame(I, st, ctx, 'unfinished', False, '%s although the bytes announced by the last header are not written' % what)
        elif st.a('wc'): self.frame(I, st, ctx, 'unfinished', False, '%s although the chunk written last has the maximum length' % what)
        else: return True
        return False

    def do_write(self, I, st, ctx, bb, t, q):
        wp = st.a('wp', HDR)
        n = q[2]
        nc = st.f.const(n)
        if nc == 0: return [st]
        if wp == PAY:
            L = gi(st, 'wlen')
            ok = self.eqv(st, n, L)
            self.frame(I, st, ctx, 'write-length', ok, 'the number of bytes written behind a header is not the announced one', t['sp'])
            if ok is not True: return []
            st.seta(wp=None); si(st, 'wlen', None)
            return self.wrote_payload(I, st, ctx, q, n)
        if nc != 4:
            self.frame(I, st, ctx, 'write-header', None, 'a header is not written in one piece', t['sp'])
            return []
        v = None
        segs = q[3]
        if len(segs) == 1 and segs[0][0] == 'le': v = segs[0][1]
        elif all(s[0] in ('el', 'k') for s in segs):
            bs = [I.qget(st, q, C(i))[1] for i in range(4)]
            v = ZERO
            for i, x in enumerate(bs): v = add(v, mulc(x, 256 ** i))
        if v is None:
            self.frame(I, st, ctx, 'write-header', None, 'header write not understood', t['sp'])
            return []
        return self.wrote_header(I, st, ctx, t, v)

    def wrote_header(self, I, st, ctx, t, v):
        cont = st.a('wc')
        lo, hi = st.f.bounds(v)
        n = None
        if not cont and lo >= 0 and hi <= MAX:
            n, sq, start = v, ZERO, True
        else:
            sq = gi(st, 'seq')
            start = False
            if sq is not None:
                n = add(v, mulc(sq, -(1 << 24)))
                lo, hi = st.f.bounds(n)
                self.frame(I, st, ctx, 'seq', True if lo >= 0 and hi <= MAX else False if (lo > MAX or hi < 0) and not st.f.dim else None,
                           'the header of an outgoing chunk does not carry the next sequence number', t['sp'])
                if lo < 0 or hi > MAX: return []
            if n is None:
                self.frame(I, st, ctx, 'seq', None, 'a packet starts with an unknown sequence number', t['sp'])
                return []
        si(st, 'seq', I.wrapto(st, addc(sq, 1), I.u8()))
        out = []
        for s in ([st] if cont else self.cmd_start(I, st, ctx, start, n)):
            f, s = fork(s, p_eq(n, C(MAX)))
            if f is not None and self.multi_w:
                f.seta(wp=PAY, wc=1, wf=None if cont else 1); si(f, 'wlen', n)
                out.append(f)
            if s is None: continue
            s0, s1 = fork(s, p_eq(n, ZERO))
            if s0 is not None:
                s0.seta(wp=None, wc=None)
                out += self.last_chunk(I, s0, ctx, ('q', I.u8(), ZERO, ()), ZERO, cont)
            if s1 is not None:
                s1.seta(wp=PAY, wl=1); si(s1, 'wlen', n)
                out.append(s1)
        return out

    def wrote_payload(self, I, st, ctx, q, n):
        """payload bytes of one frame written"""
        if st.a('wl'):
            cont = st.a('wc')
            st.seta(wl=None, wc=None)
            return self.last_chunk(I, st, ctx, q, n, cont)
        if st.a('wf'):
            st.seta(wf=None)
            return self.first_full(I, st, ctx, q, n)
        return [st]

    def first_full(self, I, st, ctx, q, n):
        """first, full-sized frame of a packet that continues"""
        return [st]
    def last_chunk(self, I, st, ctx, q, n, cont):
        return self.packet_sent(I, st, ctx) if cont else self.sent(I, st, ctx, q, n)
    def packet_sent(self, I, st, ctx): return [st]

    # ---- timers --------------------------------------------------------
    def timer(self, I, st, ctx, bb, t, d):
        ty = t['dst'][2]
        out = []
        if self.pend:
            s = st.copy()
            for s in self.timer_pending(I, s, ctx, d): out.append((s, pendingv(I, ty)))
        for s in self.timer_elapsed(I, st, ctx, d): out.append((s, ready(I, ty, I.UNIT)))
        return out
    def timer_pending(self, I, st, ctx, d): return [st]
    def timer_elapsed(self, I, st, ctx, d): return [st]


def poll_inst(prog, name):
    """instance of the coroutine body of fixture fn client::NAME"""
    for i in prog.insts:
        if i['krate'] == 'verif_fixture' and i['path'] == name + '::{closure#0}' and prog.body(i['id']) is not None:
            return i['id']
    raise KeyError(name)

def run_async(prog, name, mon, models=None, prep=None, maxd=200, maxb=3000000, hints=True):
    iid = poll_inst(prog, name)
    I = Interp(prog, models or Models(), mon, maxd)
    I.max_blocks = maxb
    st = State()
    body = prog.body(iid)
    pin = I.T[body.locals[1]]
    ref = I.T[pin['variants'][0][2][0][1]]
    cot = ref['of']
    ups = tuple(I.mk(u, K('up', i, root=True)) for i, u in enumerate(I.T[cot]['upvars']))
    o = ('A', 'root')
    st.m[o] = ('co', cot, 0, ups, ())
    args = [('a', body.locals[1], 0, (('r', o, ()),)), I.mk(body.locals[2], K('cx', root=True))]
    if hints: set_hints(I)
    if prep: prep(I, st, ups)
    I.start(st, iid, args)
    I.run()
    return I

def set_hints(I):
    T = I.T
    co = [i for i, t in enumerate(T) if t['k'] == 'struct' and t.get('path', '').endswith('ConnectionOptions') and 'Plain' in t['s']]
    pl = [i for i, t in enumerate(T) if t['k'] == 'struct' and t['s'].endswith('streams::Plain')]
    for i, t in enumerate(T):
        if t['k'] == 'dyn':
            if 'ConnectionOptionsTrait' in t['path'] and co: I.dynhint[t['path']] = co[0]
            if 'StreamRequirements' in t['path'] and pl: I.dynhint[t['path']] = pl[0]
    def hint(I, st, ctx, bb, t, inst, args, x):
        # user supplied `sleep` function: returns a timer future of the requested duration
        dt = T[t['dst'][2]]
        if inst['name'] in ('call', 'call_once', 'call_mut') and dt.get('path') == 'std::pin::Pin':
            d = args[1]
            if d[0] == 'a' and T[d[1]]['k'] == 'tuple': d = d[3][0]
            ob = I.alloc(st, ctx, bb, ('n', 'sleep', (), (d,)), 'slp')
            h = getattr(I.mon, 'timer_new', None)
            if h: h(I, st, ctx, d)
            inner = t['dst'][2]
            return [(st, ('a', inner, 0, (('r', ob, ()),)))]
        return None
    I.hint_fn = hint

def field_loc(I, st, v, path):
    """location of field path (names) below value v, looking through references and Arc"""
    obj, p, sl = I.pointee(st, v)
    for name in path:
        x = I.loadp(st, obj, p, None)
        while x[0] in ('r', 'l') or (x[0] == 's' and (I.T[x[1]]['k'] in ('ref', 'ptr') or I.T[x[1]].get('path') in I.TRANSP)):
            obj, p, sl = I.pointee(st, x)
            x = I.loadp(st, obj, p, None)
        t = I.T[x[1]]
        if t['k'] == 'struct' and t['path'].endswith('ArcInner'):
            for n, f in enumerate(t['variants'][0][2]):
                if f[0] == 'data': p = p + (n,)
            x = I.loadp(st, obj, p, None)
            t = I.T[x[1]]
        for n, f in enumerate(t['variants'][0][2]):
            if f[0] == name:
                p = p + (n,)
                ty = f[1]
                break
        else: raise KeyError(name)
    return obj, p, ty

def config(**kw):
    """prep hook: fix option fields of the first upvar (Arc<ConnectionOptions>):
    field=None / variant index / ('some', variant index of the payload)"""
    def prep(I, st, ups):
        for name, v in kw.items():
            obj, p, ty = field_loc(I, st, ups[0], (name,))
            t = I.T[ty]
            key = K('cfg', name, root=True)
            if t['k'] == 'bool': I.store(st, (obj, p, None), ('b', ('c', bool(v))))
            elif v is None: I.store(st, (obj, p, None), I.mkagg(ty, vidx(I, ty, 'None'), ()))
            else:
                pt = payload_ty(I, ty, 'Some')
                x = I.mk_enum(pt, key, v[1]) if len(v) > 1 else I.mk(pt, key)
                I.store(st, (obj, p, None), I.mkagg(ty, vidx(I, ty, 'Some'), (x,)))
    return prep
