"""chrono values as records of their components."""
from .dom import *
from .base import Base
from .models import content, load, rty, ok, err, some, none, payload_ty, fork
from .fmtm import strip

PARTS = {'year': 0, 'month': 1, 'day': 2, 'hour': 3, 'minute': 4, 'second': 5, 'nanosecond': 6}

class Conv(Base):
    neg = None         # class of the duration argument
    def on_call(self, I, st, ctx, bb, t, inst, a):
        if inst['path'].startswith('std::cmp::PartialOrd::') and len(a) == 2 and inst['name'] in ('lt', 'le', 'gt', 'ge'):
            v, w = strip(I, st, a[0]), strip(I, st, a[1])
            n, z = self.neg, ('n', 'dur', ('zero',), ())
            if w[:3] == ('n', 'dur', ('arg',)) and v == z: v, w, n = w, v, {'Less': 'Greater', 'Greater': 'Less'}.get(n, n)
            if v[:3] == ('n', 'dur', ('arg',)) and w == z:
                return [(st, ('b', ('c', n in {'lt': ('Less',), 'le': ('Less', 'Equal'), 'gt': ('Greater',), 'ge': ('Greater', 'Equal')}[inst['name']])))]
        if inst['krate'] != 'chrono' or t.get('to') is None: return None
        p, nm, ty = inst['path'], inst['name'], rty(t)
        if nm in PARTS and len(a) == 1:
            v = strip(I, st, a[0])
            if v[0] == 'n' and v[1] in ('date', 'datetime') and PARTS[nm] < len(v[3]): return [(st, v[3][PARTS[nm]])]
            if v[0] == 'n' and v[1] == 'time' and nm in ('hour', 'minute', 'second', 'nanosecond'): return [(st, v[3][PARTS[nm] - 3])]
            return None
        def opt(v): return [(st.copy(), none(I, ty)), (st, some(I, ty, v))]
        if p.endswith('NaiveDate::from_ymd_opt'): return opt(('n', 'date', (), tuple(a)))
        if p.endswith('NaiveTime::from_hms_micro_opt'): return opt(('n', 'time', (), tuple(a[:3]) + (('i', mulc(a[3][1], 1000)),)))
        if p.endswith('NaiveTime::from_hms_nano_opt'): return opt(('n', 'time', (), tuple(a)))
        if p.endswith('NaiveDate::and_hms_micro_opt') and a[0][0] == 'n': return opt(('n', 'datetime', (), a[0][3] + tuple(a[1:4]) + (('i', mulc(a[4][1], 1000)),)))
        if p.endswith('NaiveDateTime::new') or p.endswith('NaiveDate::and_time'):
            if a[0][0] == 'n' and a[1][0] == 'n': return [(st, ('n', 'datetime', (), a[0][3] + a[1][3]))]
        if p.endswith('NaiveDateTime::date') and strip(I, st, a[0])[0] == 'n': return [(st, ('n', 'date', (), strip(I, st, a[0])[3][:3]))]
        if p.endswith('NaiveDateTime::time') and strip(I, st, a[0])[0] == 'n': return [(st, ('n', 'time', (), strip(I, st, a[0])[3][3:]))]
        # durations: seconds rounded towards zero, and the rest in nanoseconds with the same sign
        if p.endswith('TimeDelta::new'): return opt(('n', 'dur', ('new',), tuple(a)))
        if p.endswith('TimeDelta::zero'): return [(st, ('n', 'dur', ('zero',), ()))]
        v = strip(I, st, a[0]) if a else None
        if v is not None and v[0] == 'n' and v[1] == 'dur' and v[2] == ('arg',):
            if p.endswith('TimeDelta::num_seconds'): return [(st, v[3][0])]
            if p.endswith('TimeDelta::subsec_nanos'): return [(st, v[3][1])]
            if p.endswith('PartialOrd>::partial_cmp') and len(a) == 2:
                w = strip(I, st, a[1])
                if w[0] == 'n' and w[1] == 'dur' and w[2] == ('zero',):
                    oty = payload_ty(I, ty, 'Some')
                    names = [x[0] for x in I.T[oty]['variants']]
                    return [(st, some(I, ty, I.mkagg(oty, names.index(self.neg), ())))]
        return None
