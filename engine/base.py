"""Base monitor and run helpers."""
from .dom import *
from .absint import Interp, State, NotConverged, short
from .models import Models
from . import models_crypto

class Base:
    def __init__(self):
        self.panics = {}
        self.reports = {}
        self.returns = []
        self.suspends = []
    def on_return(self, I, st, ctx, v):
        self.returns.append((st, v))
    def on_call(self, I, st, ctx, bb, t, inst, args):
        return None
    def on_panic(self, I, st, ctx, kind, sp, cond):
        c, s = I.subj_site(ctx, sp)
        key = (I.p.insts[c.inst]['path'], I.where(c, s), kind)
        dim = bool(TAINT) and (tainted(cond) if cond is not None else st.sw)
        old = self.panics.get(key)
        if old is None or (old['dim'] and not dim):
            self.panics[key] = dict(chain=I.chain_of(ctx), where=I.where(ctx, sp), cond=str(cond), dim=dim, fn=I.p.insts[c.inst]['path'])
    def on_report(self, I, st, ctx, kind, msg, sp):
        c, s = I.subj_site(ctx, sp)
        key = (I.p.insts[c.inst]['path'], I.where(c, s), kind)
        if key not in self.reports:
            self.reports[key] = dict(chain=I.chain_of(ctx), msg=msg, dim=False, fn=I.p.insts[c.inst]['path'])
    def io(self, I, st, ctx, bb, t, what, args):
        raise Exception('io not expected')
    def timer(self, I, st, ctx, bb, t, d):
        raise Exception('timer not expected')

def arg_values(I, st, inst, hints=None):
    body = I.p.body(inst)
    out = []
    for i in range(body.argc):
        out.append(I.mk(body.locals[i + 1], K('arg', i, root=True)))
    return out

def run_fn(prog, inst, mon, models=None, prep=None, maxd=64, maxb=3000000, unroll=16):
    I = Interp(prog, models or Models(), mon, maxd)
    I.max_blocks = maxb
    I.unroll = unroll
    st = State()
    args = arg_values(I, st, inst)
    if prep: args = prep(I, st, args) or args
    I.start(st, inst, args)
    I.run()
    return I
