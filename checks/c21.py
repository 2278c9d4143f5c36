from . import decode
from .common import Undecidable
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the MIR of the escapers and of Value\'s Display with an automaton of MySQL\'s lexer over everything written to the formatter'
EXPLANATION = ('The three escapers are interpreted on a string of arbitrarily many arbitrary characters; what they write is fed, character by character, to an automaton of MySQL\'s lexer, which reports any quote that can be closed, any character '
  'read back as another one, lost or repeated. The identifier escaper, which looks at the string twice, is additionally interpreted on all strings of up to three characters from one representative per class and the exact result compared. '
  'For every variant of Value with symbolic components, the pieces written (texts, numbers with their minimum widths, hexadecimal digits) are compared with the literal MySQL expects.')
KINDS = {'StringEscape': 'string', 'IdentifierEscape': 'identifier', 'UnquotedIdentifierEscape': 'unquoted'}
CLASSES = ('`', 'a', ' ', '\0', '\U00010000', '\u00e9', '"')

def lex(prog, iid, kind):
    from engine.fmtm import Lex
    from engine.base import run_fn, NotConverged
    m = Lex(kind)
    try: I = run_fn(prog, iid, m, maxd=40, maxb=60000)
    except NotConverged as e: return dict(undecided=['%s: not converged' % kind], oblig=1, disch=0)
    return done(prog, I, m, kind, ('overflow',))

def done(prog, I, m, name, ignore=()):
    r = decode.summarise(prog, I, m, name, ignore)
    r['violations'] += list(m.viol.values())
    r['undecided'] += ['%s: %s' % (name, u) for u in m.und]
    if I.unknown and m.pieces == 0: r['undecided'].append('%s: nothing written was seen' % name)
    r['oblig'] += m.pieces; r['disch'] += max(0, m.pieces - len(m.viol))
    r['samples'][0]['pieces'] = m.pieces
    if not any(not st.a('er') for st, _ in m.returns): r['undecided'].append('%s: never returns' % name)
    return r

def str_arg(I, st, inst, text):
    """&Escape(&text)"""
    from engine.dom import K, C
    b = I.p.body(inst)
    rt = I.T[b.locals[1]]
    o = ('H', K('arg-self', root=True)); so = ('H', K('arg-str', root=True))
    data = text.encode()
    st.m[so] = ('q', I.u8(), C(len(data)), (('k', data, C(len(data))),) if data else ())
    ty = rt['of']
    fld = I.T[ty]['variants'][0][2]
    st.m[o] = I.mkagg(ty, 0, (('l', so, (), C(0), C(len(data))),))
    return ('r', o, ())

def scripted(prog, iid, kind, texts):
    from engine.fmtm import Script
    from engine.base import run_fn, NotConverged
    agg = None
    for text in texts:
        exp = ''.join(c for c in text if c not in '\0\U00010000').rstrip(' ')
        exp = '`' + exp.replace('`', '``') + '`'
        def want(m, I, st, ctx, out, text=text, exp=exp):
            if any(p[0] != 't' for p in out): m.undecided('not a constant text'); return
            got = ''.join(p[1] for p in out)
            if got != exp: m.bad(I, st, None, 'identifier:exact', 'the identifier %r is written as %r, not %r' % (text, got, exp))
        m = Script(want)
        I = run_fn(prog, iid, m, maxd=40, maxb=60000, unroll=40, prep=lambda I, st, a: [str_arg(I, st, iid, text)] + a[1:])
        r = done(prog, I, m, 'identifier, exact')
        if m.ends != 1: r['undecided'].append('%r: %d ends' % (text, m.ends))
        if agg is None: agg = r
        else:
            agg['violations'] += r['violations']; agg['undecided'] += r['undecided']
            agg['oblig'] += r['oblig']; agg['disch'] += r['disch']
    agg['undecided'] = sorted(set(agg['undecided']))[:5]
    agg['samples'][0]['strings'] = len(texts)
    return agg

# ------------------------------------------------------------------ values
def want_value(var, f):
    """-> function judging what was written for a value of that variant with fields f"""
    from engine.dom import C, add, mulc, ZERO, p_eq
    def num(st, p, lin, w):
        return p[0] == 'num' and st.f.entails(p_eq(p[1], lin)) is True and (w is None and (p[2] <= 1 or p[3] == '0') or w is not None and p[2] == w and p[3] == '0')
    def flat(out):
        """texts split into characters"""
        r = []
        for p in out: r += [('t', c) for c in p[1]] if p[0] == 't' else [p]
        return r
    def j(m, I, st, ctx, out):
        o = flat(out)
        name = var
        def no(what='', key=None): m.bad(I, st, None, 'value:%s%s' % (name, key or ''), 'a %s is not rendered as the literal of its value: %s %s' % (name, show(out), what))
        if any(p[0] in ('?', 'disp') for p in o):
            if any(p[0] == '?' for p in o): no('(%s)' % ([p for p in o if p[0] == '?'][0],))
            else: m.undecided('%s: nested text' % name)
            return
        txt = ''.join(p[1] if p[0] == 't' else '\1' for p in o)
        its = [p for p in o if p[0] != 't']
        if var == 'Null':
            if txt.upper() != 'NULL': no()
        elif var in ('Float', 'Double'):
            if txt != '\1' or its[0][0] != 'flt' or its[0][1] != f[0]: no()
            else: m.bad(I, st, None, 'value:%s:non-finite' % name, 'a %s that is NaN or infinite is rendered as NaN or inf, which MySQL reads as an identifier' % name)
        elif var == 'Bytes':
            q = m.bytes
            lo, hi = st.f.bounds(q[2])
            hexed = len(its) == 1 and its[0][0] == 'seq' and len(its[0][1][3]) == 1 and is_hex(m, its[0][1], q)
            if hi == 0 and not its and txt in ("''", '""', "x''", "X''"): return
            if hexed and txt in ("x'\1'", "X'\1'"): return
            if hexed and txt == '0x\1':
                if lo < 1: no('(an empty one is an identifier)', ':empty')
                return
            no()
        elif var in ('Date', 'Datetime', 'Time'):
            if len(txt) < 2 or txt[0] not in '\'"' or txt[-1] != txt[0]: no('(quotes)'); return
            o = o[1:-1]; body = txt[1:-1]
            def eat(lit):
                nonlocal o
                for c in lit:
                    if not o or o[0] != ('t', c): return False
                    o = o[1:]
                return True
            def eatn(lin, w):
                nonlocal o
                if not o or not num(st, o[0], lin, w): return False
                o = o[1:]
                return True
            def date(y, mo, d): return eatn(y, 4) and eat('-') and eatn(mo, 2) and eat('-') and eatn(d, 2)
            def time(h, mi, s, us, hw):
                if not (o and any(num(st, o[0], h, w) for w in hw)): return False
                eatn(h, o[0][2] if o[0][2] > 1 else None)
                if not (eat(':') and eatn(mi, 2) and eat(':') and eatn(s, 2)): return False
                if not o: return st.f.entails(p_eq(us, ZERO)) is True
                return eat('.') and eatn(us, 6)
            L = [x[1] for x in f]
            if var == 'Date': good = date(*L)
            elif var == 'Datetime': good = date(*L[:3]) and (eat(' ') or eat('T')) and time(L[3], L[4], L[5], L[6], (2,))
            else:
                e = st.f.entails(f[0][1]) if f[0][0] == 'b' else None
                neg = bool(o) and o[0] == ('t', '-')
                if e is not neg: no('(sign)'); return
                if neg: eat('-')
                good = time(add(L[2], mulc(L[1], 24)), L[3], L[4], L[5], (None, 2, 3))
            if not good or o: no()
        else:
            if txt != '\1' or not num(st, its[0], f[0][1], None): no()
    return j

def is_hex(m, q, want):
    from engine.dom import KINFO
    s = q[3][0]
    if s[0] != 'src': return False
    parts = KINFO[s[1]][0]
    return parts[0] == 'hexenc' and m.HEX[parts[1]] == want

def show(out):
    r = ''
    for p in out: r += p[1] if p[0] == 't' else '{%s%s}' % (p[0], ':%d' % p[2] if p[0] == 'num' else '')
    return r

def value(prog, iid, var):
    from engine.fmtm import Script
    from engine.base import run_fn, NotConverged
    from engine.dom import K, kr
    m = Script(None)
    def prep(I, st, a):
        b = I.p.body(iid)
        rt = I.T[b.locals[1]]
        ty = rt['of']
        vi = [v[0] for v in I.T[ty]['variants']].index(var)
        fs = []
        for n, fd in enumerate(I.T[ty]['variants'][vi][2]):
            if var == 'Bytes':
                from engine.models import opaque_seq
                o = ('H', K('arg-bytes', root=True))
                m.bytes = st.m[o] = st.m[('A', 'bytes')] = opaque_seq(I, I.u8(), K('payload', root=True))
                fs.append(('v', o))
            else: fs.append(I.mk(fd[1], K('val', n, root=True)))
        m.want = want_value(var, fs)
        for n, x in enumerate(fs):
            if x[0] in 'ib': st.m[('A', 'val%d' % n)] = x
        o = ('H', K('arg-self', root=True))
        st.m[o] = I.mkagg(ty, vi, tuple(fs))
        return [('r', o, ())] + a[1:]
    try: I = run_fn(prog, iid, m, maxd=40, maxb=60000, prep=prep)
    except NotConverged as e: return dict(undecided=['Value::%s: not converged' % var], oblig=1, disch=0)
    r = done(prog, I, m, 'Value::' + var)
    if not m.ends: r['undecided'].append('Value::%s: no end' % var)
    return r

def run(c):
    import itertools
    p = c.prog('full')
    found = {}
    for i in p.insts:
        n = i.get('full') or i['path']
        if i['krate'] == 'mysql_connector' and i['name'] == 'fmt' and 'Display' in n and p.body(i['id']) is not None:
            b = p.body(i['id'])
            s = p.types[b.locals[1]]['s']
            for k in KINDS:
                if s.split('<')[0].rsplit('::', 1)[-1] == k and 'types::' in s: found[k] = i['id']
            if s.endswith('types::Value') : found['Value'] = i['id']
    c.floor('functions rendering text', len(found), 4)
    c.rules.append('no character of the input closes the quote; each is read back as itself; values are rendered as the literal of their value')
    for k, kind in KINDS.items():
        if k in found: c.task(kind, lex, p, found[k], kind)
    if 'IdentifierEscape' in found:
        n = 3 if c.tier == 'quick' else 4
        texts = [''.join(x) for k in range(n + 1) for x in itertools.product(CLASSES, repeat=k)]
        for k in range(8): c.task('identifier, exact %d' % k, scripted, p, found['IdentifierEscape'], 'identifier', texts[k::8])
    if 'Value' in found:
        ty = p.types[p.body(found['Value']).locals[1]]
        vt = p.types[ty['of']]
        for v in vt['variants']: c.task('Value::' + v[0], value, p, found['Value'], v[0])
    c.run_tasks()
    c.assumptions.append('the default SQL mode: backslash escapes enabled, ANSI_QUOTES not set')
