"""An arbitrary server for the connection phase: nothing is assumed about its
packets (the paths are told apart by the number of packets received)."""
from .dom import *
from .wire import *
from .login import Login

class Wild(Login):
    most = 8
    tell = True
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.over = False
    def packet(self, I, st, cls, ctx):
        n = st.a('np', 0) + 1
        if n > self.most:
            self.over = True
            return []
        st.seta(np=n, cl=cls if self.tell else None)
        return [st]
    header = Wire.header
    do_read = Wire.do_read
    payload = Wire.payload
    cmd_start = Wire.cmd_start
    sent = Wire.sent
    flushed = Wire.flushed
    frame = Wire.frame
    summarise = True
    def on_call(self, I, st, ctx, bb, t, inst, args): return Wire.on_call(self, I, st, ctx, bb, t, inst, args)
    def pure_decoder(self, I, t, inst):
        """packet decoders and scrambles (checked on their own: C11, C13): an arbitrary result"""
        b = I.p.body(inst['id'])
        if b is None or t.get('to') is None: return False
        tys = [I.T[b.locals[k]]['s'] for k in range(b.argc + 1)]
        if any(x in s for x in IO for s in tys) or I.T[b.locals[0]]['k'] in ('coroutine', 'closure'): return False
        if inst['path'].endswith('::deserialize') and any('ParseBuf' in s for s in tys) or '::utils::crypt' in inst['path'] or '::utils::scramble' in inst['path'] or 'PublicKey' in inst['path']:
            if I.T[b.locals[0]]['k'] in ('ref', 'ptr'): return False
            self.summaries.add(inst.get('full') or inst['path'])
            return True
        return False
