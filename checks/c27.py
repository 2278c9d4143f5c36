from . import decode
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the MIR of every conversion between Value and native types with symbolic components; results compared term by term'
EXPLANATION = ('Every conversion into Value is interpreted on an arbitrary native value and must give the variant of that type with the components of the argument, or an error where they do not fit; every conversion out of Value is interpreted on '
  'every variant with symbolic components and must give exactly those components or an error, and an error for variants of another kind. Panic, overflow and bounds sites reached are obligations; so are those of parsing hexadecimal text. Dates, times and durations of chrono are records of their components.')
INTS = dict(i8='Tiny', i16='Short', i32='Int', i64='Long', u8='UTiny', u16='UShort', u32='UInt', u64='ULong', f32='Float', f64='Double')
NUMS = [INTS[x] for x in INTS if x[0] != 'f']
BYTES = ('std::string::String', 'std::vec::Vec<u8>', 'mysql_connector::types::Hex')
DATE, DT, DUR = 'chrono::NaiveDate', 'chrono::NaiveDateTime', 'chrono::TimeDelta'
VALUE = 'mysql_connector::types::Value'

def conversions(p):
    """-> {(source, target): instance} of the functions that convert from or to Value"""
    out = {}
    for i in p.insts:
        if i['krate'] != 'mysql_connector' or i['name'] not in ('from', 'try_from', 'try_into', 'into') or p.body(i['id']) is None: continue
        b = p.body(i['id'])
        if b.argc != 1: continue
        src, ret = p.types[b.locals[1]], p.types[b.locals[0]]
        dst = ret['s']
        if ret['k'] == 'enum' and ret.get('path') == 'std::result::Result': dst = p.types[ret['variants'][0][2][0][1]]['s']
        if VALUE in (src['s'], dst) and src['s'] != dst: out[(src['s'], dst)] = i['id']
    return out

def fld(I, st, vi, ty, var, n, fd):
    from engine.dom import K
    from engine.models import opaque_seq
    if var == 'Bytes':
        o = ('H', K('arg-bytes', root=True))
        st.m[o] = st.m[('A', 'bytes')] = opaque_seq(I, I.u8(), K('payload', root=True))
        return ('v', o)
    v = I.mk(fd[1], K('val', n, root=True))
    st.m[('A', 'val%d' % n)] = v
    return v

def same(I, st, x, y):
    """two values are the same"""
    from engine.dom import p_eq
    if x == y: return True
    if x[0] == 'i' and y[0] == 'i': return st.f.entails(p_eq(x[1], y[1])) is True
    return False

def bytes_of(I, st, v):
    for _ in range(4):
        if v[0] == 'v': return I.getobj(st, v[1])
        if v[0] == 'a' and v[3]: v = v[3][0]
        else: return None
    return None

def finish(prog, I, m, name):
    r = decode.summarise(prog, I, m, name)
    r['violations'] += list(m.viol.values())
    r['undecided'] += m.und
    r['oblig'] += m.n; r['disch'] += m.n - min(m.n, len(m.viol) + len(m.und))
    if not m.returns: r['undecided'].append('%s: never returns' % name)
    return r

def mon(judge):
    from engine.conv import Conv
    from engine.dom import contradictory
    class M(Conv):
        def __init__(self):
            super().__init__()
            self.viol, self.und, self.n = {}, [], 0
        def bad(self, st, key, what):
            if contradictory(st.f): return
            self.viol.setdefault(key, dict(key=key, what=what, where=self.where, trace=[]))
        def on_return(self, I, st, ctx, v):
            super().on_return(I, st, ctx, v)
            self.n += 1
            judge(self, I, st, v)
    return M()

def unwrap(I, v):
    """-> ('ok', value) | ('err',) | ('?',)"""
    if v[0] == 's': return ('?',)
    if v[0] == 'a' and I.T[v[1]].get('path') == 'std::result::Result':
        return ('ok', v[3][0]) if I.T[v[1]]['variants'][v[2]][0] == 'Ok' else ('err',)
    return ('ok', v)

def run1(prog, iid, m, prep, name):
    from engine.base import run_fn, NotConverged
    m.where = prog.insts[iid]['path']
    sp = prog.insts[iid].get('span')
    try: I = run_fn(prog, iid, m, maxd=40, maxb=100000, prep=prep)
    except NotConverged as e: return dict(undecided=['%s: not converged' % name], oblig=1, disch=0)
    return finish(prog, I, m, name)

# ------------------------------------------------------------------ out of Value
def out_of(prog, iid, dst, var, case=None):
    """Value::var -> dst"""
    opt = dst.startswith('std::option::Option<')
    inner = dst[len('std::option::Option<'):-1] if opt else dst
    short = inner.rsplit('::', 1)[-1]
    name = 'Value::%s to %s' % (var, 'Option<%s>' % short if opt else short)
    box = {}
    def judge(m, I, st, v):
        from engine.dom import p_eq, C, add, mulc, ZERO, p_le, p_lt
        r = unwrap(I, v)
        if r[0] == '?': m.und.append('%s: result not determined' % name); return
        key = '%s>%s' % (var, short) + ('?' if opt else '')
        if r[0] == 'err':
            if opt and var == 'Null': m.bad(st, key + ':null', '%s fails' % name)
            # a value of the type itself that is representable
            elif INTS.get(inner) == var or inner in ('std::vec::Vec<u8>', 'mysql_connector::types::Hex') and var == 'Bytes' or inner == 'bool' and var in NUMS:
                m.bad(st, key + ':fails', '%s fails' % name)
            return
        m.oks = getattr(m, 'oks', 0) + 1
        x = r[1]
        if opt:
            if x[0] != 'a': m.und.append('%s: result not determined' % name); return
            isn = I.T[x[1]]['variants'][x[2]][0] == 'None'
            if isn != (var == 'Null'): m.bad(st, key + ':null', '%s gives %s' % (name, 'None' if isn else 'a value')); return
            if isn: return
            x = x[3][0]
        f = box['f']
        good = None
        if inner in INTS: good = var == INTS[inner] and same(I, st, x, f[0])
        elif inner == 'bool':
            if var not in NUMS: good = False
            elif x[0] == 'b':
                good = True
                for n in (0, 1):
                    s = st.copy()
                    try: s.f.assume(p_eq(f[0][1], C(n)))
                    except Exception: continue
                    e = s.f.entails(x[1])
                    if e is None: good = None
                    elif e is not bool(n): good = False; break
        elif inner in BYTES:
            if var != 'Bytes': good = False
            else:
                q = bytes_of(I, st, x)
                good = None if q is None else q[2:] == st.m[('A', 'bytes')][2:]
        elif inner == DATE:
            good = var in ('Date', 'Datetime') and x[0] == 'n' and len(x[3]) == 3 and all(same(I, st, a, b) for a, b in zip(x[3], f))
            if x[0] != 'n' and var in ('Date', 'Datetime'): good = None
        elif inner == DT:
            if var != 'Datetime': good = False
            elif x[0] != 'n' or len(x[3]) != 7: good = None
            else: good = all(same(I, st, a, b) for a, b in zip(x[3][:6], f)) and st.f.entails(p_eq(x[3][6][1], mulc(f[6][1], 1000))) is True
        elif inner == DUR:
            if var != 'Time': good = False
            elif x[0] != 'n' or x[2] != ('new',): good = None
            else:
                tot = add(mulc(add(mulc(add(mulc(add(mulc(f[1][1], 24), f[2][1]), 60), f[3][1]), 60), f[4][1]), 10 ** 9), mulc(f[5][1], 1000))
                got = add(mulc(x[3][0][1], 10 ** 9), x[3][1][1])
                neg = st.f.entails(f[0][1])
                good = None if neg is None else st.f.entails(p_eq(got, mulc(tot, -1) if neg else tot)) is True and st.f.entails(p_lt(x[3][1][1], C(10 ** 9))) is True
        else: m.und.append('%s: unknown type' % name); return
        if good is None: m.und.append('%s: result not understood' % name)
        elif not good: m.bad(st, key, '%s gives another value%s' % (name, '' if kind_ok(inner, var) else ' instead of failing'))
    m = mon(judge)
    def prep(I, st, a):
        ty = I.p.body(iid).locals[1]
        vi = [v[0] for v in I.T[ty]['variants']].index(var)
        box['f'] = fs = [fld(I, st, vi, ty, var, n, fd) for n, fd in enumerate(I.T[ty]['variants'][vi][2])]
        if case:
            from engine.dom import C, p_le, ZERO
            fs[0] = ('b', ('c', case[0]))
            st.f.assume(p_le(fs[5][1], ZERO) if case[1] else p_le(C(1), fs[5][1]))
        return [I.mkagg(ty, vi, tuple(fs))]
    r = run1(prog, iid, m, prep, name)
    if kind_ok(inner, var) and not getattr(m, 'oks', 0) and not r['undecided'] and (inner, var) != (DATE, 'Datetime'):
        r['violations'].append(dict(key='%s>%s:never' % (var, short) + ('?' if opt else ''), what='%s never succeeds' % name, where=m.where, trace=[]))
    return r

def kind_ok(inner, var):
    if inner in INTS: return INTS[inner] == var
    if inner == 'bool': return var in NUMS
    return {'Bytes': inner in BYTES, 'Date': inner == DATE, 'Datetime': inner in (DATE, DT), 'Time': inner == DUR}.get(var, False)

# ------------------------------------------------------------------ into Value
def into(prog, iid, src, case=None):
    short = src.rsplit('::', 1)[-1]
    name = '%s%s to Value' % (short, ' (%s)' % case[0] if case else '')
    box = {}
    def judge(m, I, st, v):
        from engine.dom import p_eq, p_lt, p_le, C, add, mulc, ZERO
        r = unwrap(I, v)
        key = '%s>Value%s' % (short, ':' + case[0].replace(' ', '-') if case else '')
        a = box['a']
        if r[0] == 'err':
            if src == DATE or src == DT:
                y = a[0][1]
                lim = [p_le(C(0), y), p_le(y, C(65535))] + ([p_lt(a[6][1], C(10 ** 9))] if src == DT else [])
                s = st.copy()
                try:
                    for c in lim: s.f.assume(c)
                except Exception: return
                m.bad(s, key + ':fails', '%s fails for a value that can be represented' % name)
            elif src != DUR: m.bad(st, key + ':fails', '%s fails' % name)
            return
        x = r[1] if r[0] == 'ok' else None
        if x is None or x[0] != 'a': m.und.append('%s: result not determined' % name); return
        var = I.T[x[1]]['variants'][x[2]][0]
        f = x[3]
        want = INTS.get(src) or {DATE: 'Date', DT: 'Datetime', DUR: 'Time'}.get(src) or ('Bytes' if src in BYTES else None) or 'Tiny'
        if var != want: m.bad(st, key, '%s gives Value::%s' % (name, var)); return
        if src in INTS: good = same(I, st, f[0], a)
        elif src in BYTES:
            q = bytes_of(I, st, f[0])
            good = None if q is None else q[2:] == st.m[('A', 'bytes')][2:]
        elif src == DATE: good = all(same(I, st, p, q) for p, q in zip(f, a))
        elif src == DT:
            n, u = a[6][1], f[6][1]
            good = all(same(I, st, p, q) for p, q in zip(f[:6], a)) and st.f.entails(p_le(mulc(u, 1000), n)) is True and st.f.entails(p_lt(n, add(mulc(u, 1000), C(1000)))) is True \
                and st.f.entails(p_lt(n, C(10 ** 9))) is True
        elif src == DUR:
            s, n = box['s'], box['n']
            neg = st.f.entails(f[0][1]) if f[0][0] == 'b' else None
            tot = add(mulc(add(mulc(add(mulc(f[1][1], 24), f[2][1]), 60), f[3][1]), 60), f[4][1])
            good = neg is (case[0] in ('negative', 'fraction of a second below zero')) and st.f.entails(p_eq(tot, s)) is True \
                and st.f.entails(p_le(mulc(f[5][1], 1000), n)) is True and st.f.entails(p_lt(n, add(mulc(f[5][1], 1000), C(1000)))) is True \
                and all(st.f.entails(p_lt(f[k][1], C(b))) is True for k, b in ((2, 24), (3, 60), (4, 60)))
        elif src == 'bool':
            good = None
            if f[0][0] == 'i':
                good = True
                for b in (True, False):
                    z = st.copy()
                    from engine.dom import neg as pneg
                    try: z.f.assume(a[1] if b else pneg(a[1]))
                    except Exception: continue
                    if z.f.entails(p_eq(f[0][1], C(int(b)))) is not True: good = False
        else: m.und.append('%s: unknown type' % name); return
        if good is None: m.und.append('%s: result not understood' % name)
        elif not good:
            m.bad(st, key, '%s gives another value' % name)
    m = mon(judge)
    def prep(I, st, a):
        from engine.dom import K, S, sym, kr, C
        ty = I.p.body(iid).locals[1]
        if src in INTS or src == 'bool': box['a'] = st.m[('A', 'arg')] = a[0]; return a
        if src in BYTES:
            from engine.models import opaque_seq
            o = ('H', K('arg-bytes', root=True))
            st.m[o] = st.m[('A', 'bytes')] = opaque_seq(I, I.u8(), K('payload', root=True))
            v = ('v', o)
            if not I.is_vec(I.T[ty]): v = I.mkagg(ty, 0, (v,))
            box['a'] = None
            return [v]
        def num(n, lo, hi):
            v = ('i', S(sym(('b', kr(K('part', n, root=True))), lo, hi)))
            st.m[('A', 'part' + n)] = v
            return v
        if src == DUR:
            m.neg = case[1]
            lo, hi = case[2]
            s, n = num('s', lo, hi), num('n', case[3][0], case[3][1])
            box['s'] = s[1] if case[1] != 'Less' else mulc_(s[1], -1)
            box['n'] = n[1] if case[1] != 'Less' else mulc_(n[1], -1)
            box['a'] = None
            return [('n', 'dur', ('arg',), (s, n))]
        parts = [num('y', case[1], case[2]), num('mo', 1, 12), num('d', 1, 31)]
        if src == DT: parts += [num('h', 0, 23), num('mi', 0, 59), num('se', 0, 59), num('na', case[3], case[4])]
        box['a'] = parts
        return [('n', 'date' if src == DATE else 'datetime', (), tuple(parts))]
    return run1(prog, iid, m, prep, name)

def mulc_(a, k):
    from engine.dom import mulc
    return mulc(a, k)

MAX = 86400 * (1 << 32) - 1
FAR = (1 << 63) // 1000
CASES = [('positive', 'Greater', (1, MAX), (0, 999999999)), ('fraction of a second', 'Greater', (0, 0), (1, 999999999)), ('zero', 'Equal', (0, 0), (0, 0)),
         ('negative', 'Less', (-MAX, -1), (-999999999, 0)), ('fraction of a second below zero', 'Less', (0, 0), (-999999999, -1)),
         ('longer than 2^32 days', 'Greater', (MAX + 1, FAR), (0, 999999999))]

YEARS = [('before the year 0', -262143, -1), ('year of two bytes', 0, 65535), ('year above 65535', 65536, 262142)]

def run(c):
    p = c.prog('full')
    cv = conversions(p)
    c.rules.append('a conversion gives the same components in the variant of the type, or an error')
    outs = {k: v for k, v in cv.items() if k[0] == VALUE}
    ins = {k: v for k, v in cv.items() if k[1] == VALUE}
    vt = [t for t in p.types if t['s'] == VALUE and t['k'] == 'enum'][0]
    known = set(INTS) | set(BYTES) | {'bool', DATE, DT, DUR}
    base = lambda s: s[len('std::option::Option<'):-1] if s.startswith('std::option::Option<') else s
    n = 0
    for (s, d), i in sorted(outs.items()):
        if base(d) not in known: continue
        for v in vt['variants']:
            for case in ([(x, y) for x in (False, True) for y in (False, True)] if v[0] == 'Time' else (None,)):
                c.task('Value::%s to %s %s' % (v[0], d.replace('std::option::', ''), case or ''), out_of, p, i, d, v[0], case); n += 1
    for (s, d), i in sorted(ins.items()):
        if s not in known: continue
        if s == DUR:
            for case in CASES: c.task('duration, ' + case[0], into, p, i, s, case); n += 1
        elif s in (DATE, DT):
            for case in YEARS:
                for k in ((0, 10 ** 9 - 1), (10 ** 9, 2 * 10 ** 9 - 1)) if s == DT else ((0, 0),):
                    c.task('%s to Value, %s, nanosecond from %d' % (s, case[0], k[0]), into, p, i, s, case + k); n += 1
        else: c.task('%s to Value' % s, into, p, i, s); n += 1
    c.floor('conversions', n, 400)
    for i in p.insts:
        if i['krate'] == 'mysql_connector' and p.body(i['id']) is not None and '::hex::' in i['path'].replace('types::Hex', 'types::hex::') and i['name'] in ('try_from_hex', 'from_str') and '{closure' not in i['path']:
            c.task(decode.name(i), decode.analyse, p, i['id'])
    c.run_tasks()
    c.assumptions.append('chrono: num_seconds rounds towards zero and subsec_nanos has the sign of the duration; constructors returning None refuse, others keep the components')
