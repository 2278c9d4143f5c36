"""Decoding of a well-formed error packet (used by C03 and C18)."""
from .sync import *
from . import decode

def entries(prog):
    return decode.select(prog, lambda i: i['name'] == 'deserialize' and 'ErrPacket as ' in (i.get('full') or i['path']))

def analyse(prog, iid, state):
    box = {}
    def setup(I, st, b):
        p = Pkt(I, st)
        p.lit(0xFF).int(2, 'code', 0, 0xFE)
        if state: p.lit(0x23).raw('state', C(5))
        p.rest('message').put()
        box['p'] = p
        out = []
        for k in range(b.argc):
            ty = b.locals[k + 1]
            if 'ParseBuf' in I.T[ty]['s'] or I.T[ty]['k'] == 'ref': out.append(parsebuf(I, ty, p)); continue
            v = I.mk(ty, K('caps', root=True))
            x = unwrap1(I, v)
            if x and x[0] == 'i':
                st.m[('A', 'caps')] = x
                box['caps'] = x[1]
            out.append(v)
        return out
    nm = decode.name(prog.insts[iid])
    und, viol = [], []
    class M2(Mon):
        def on_return(self, I, st, ctx, v): self.returns.append((st, v))
    try: I, m = decoder(prog, iid, setup, M2(utf8=True))
    except NotConverged as e: return dict(undecided=['%s: %s' % (nm, e)], oblig=1, disch=0)
    p = box['p']
    n = good = 0
    def bad(key, what): viol.append(dict(key='err-packet:' + key, what='decoding a well-formed error packet: ' + what, where=nm))
    for st, v in m.returns:
        n += 1
        if state is False or True:
            # capabilities without PROTOCOL_41 read the packet without a state
            c41 = bit_of(I, st, box.get('caps'), 9)
            if c41 is None: pass
            elif c41 is not bool(state): continue
        if variant(I, v) != 'Ok':
            bad('rejected', 'a protocol error is returned instead of the server error')
            continue
        e = v[3][0]
        if variant(I, e) is None or len(e[3]) != 1 or field(I, e[3][0], 'code') is None and field(I, e[3][0], 'message') is None:
            bad('kind', 'something other than the server error is returned'); continue
        e = e[3][0]
        for fld in ('code', 'message'):
            kind, exp = p.f[fld]
            g = field(I, e, fld)
            r = eq_int(I, st, g, exp) if kind == 'int' else eq_seq(I, st, g, exp)
            if r is False: bad(fld, 'the %s differs from the one in the packet' % fld)
            elif r is None: und.append('%s: %s of the decoded error' % (nm, fld))
            else: good += 1
    if not n: und.append('%s never returns' % nm)
    return dict(violations=viol, undecided=und, oblig=max(1, n), disch=max(1, n) - len(viol), funcs=[nm],
                samples=[dict(entry=nm, state_marker=state, returns=n, fields_compared=good, blocks=I.stats['blocks'])])

def bit_of(I, st, lin, k):
    """value of bit k of lin when the state has decided it"""
    if lin is None: return None
    b = d_rem(st.f, d_div(st.f, lin, 1 << k), 2)
    c = st.f.const(b)
    return None if c is None else bool(c)
