"""Text rendering: an automaton over everything written to a Formatter."""
from .dom import *
from .base import Base
from .models import content, const_bytes, load, put, rty, ok, err, some, none, fork, payload_ty, fmt_result, fresh_seq, mkstring, newvec, K, kr

FMT = ("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'_>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str")
CHR = ("<std::fmt::Formatter<'_> as std::fmt::Write>::write_char",)
PAD = ("std::fmt::Formatter::<'a>::pad", "std::fmt::Formatter::<'_>::pad", '<str as std::fmt::Display>::fmt')
WFM = ("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Formatter::<'_>::write_fmt", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt", 'std::fmt::Write::write_fmt')

def template(b):
    """the template of fmt::Arguments (library/core/src/fmt/mod.rs) -> list of text | (argument, width, fill, zero, right)"""
    out, i, arg = [], 0, 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(b[i:i + n].decode()); i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8; i += 2
            out.append(b[i:i + k].decode()); i += k
        elif n < 0xC0: return None
        else:
            fl, w, ai = 0x20, 0, arg
            if n & 1: fl = int.from_bytes(b[i:i + 4], 'little'); i += 4
            if n & 2: w = int.from_bytes(b[i:i + 2], 'little'); i += 2
            if n & 4: return None
            if n & 8: ai = int.from_bytes(b[i:i + 2], 'little'); i += 2
            if n & 0x30: return None
            arg = ai + 1
            zero = bool(fl & 1 << 24) if n & 1 else False
            if not n & 2: w = 0
            out.append((ai, w, chr(fl & 0x1FFFFF), zero, (fl >> 29) & 3 == 1))
    return out

def strip(I, st, v):
    """the value behind references (keeps slices)"""
    for _ in range(6):
        if v[0] != 'r': break
        w = load(I, st, v)
        if w == v: break
        v = w
    return v

class Fmt(Base):
    """cls.on_piece(I, st, ctx, piece) -> list of states; pieces: ('t', text) ('c', lin) ('num', lin, width, fill) ('flt', value)
    ('seq', q) ('hex', value) ('disp', type, value)"""
    def __init__(self):
        super().__init__()
        self.und = []
        self.viol = {}
        self.pieces = 0
    def undecided(self, msg):
        if msg not in self.und: self.und.append(msg)
    def bad(self, I, st, ctx, key, what, where=None):
        if contradictory(st.f): return
        self.viol.setdefault(key, dict(key=key, what=what, where=where or '', trace=I.chain_of(ctx) if ctx is not None else []))

    def pieces_of(self, I, st, a):
        """fmt::Arguments -> pieces or None"""
        v = strip(I, st, a)
        if v[0] == 'n' and v[1] == 'fmtstr':
            c = const_bytes(content(I, st, v[3][0]))
            return None if c is None else [('t', c.decode())]
        if v[0] != 'n' or v[1] != 'fmtargs': return None
        tb = const_bytes(I.seq_of(st, v[3][0]) or content(I, st, strip(I, st, v[3][0])))
        if tb is None: return None
        tp = template(tb)
        if tp is None: return None
        args = self.args_of(I, st, v[3][1])
        if args is None: return None
        out = []
        for x in tp:
            if isinstance(x, str): out.append(('t', x)); continue
            ai, w, fill, zero, right = x
            if ai >= len(args): return None
            g = args[ai]
            if g[0] != 'n' or g[1] != 'fmtarg': return None
            out.append(self.arg_piece(I, st, g, w, '0' if zero or (fill == '0' and right) else ' ', zero or right))
        return out

    def args_of(self, I, st, v):
        q = I.seq_of(st, v)
        if q is not None and all(s[0] == 'el' for s in q[3]): return [s[1] for s in q[3]]
        w = strip(I, st, v)
        if w[0] == 'a' and I.T[w[1]]['k'] == 'array': return list(w[3])
        return None

    def arg_piece(self, I, st, g, w, fill, right):
        name, ty = g[2]
        v = strip(I, st, g[3][0])
        if name == 'new_display':
            if v[0] == 'i' and I.T[ty]['s'].replace('&', '') == 'char': return ('c', v[1]) if w == 0 else ('?', name, 'char')
            if v[0] == 'i': return ('num', v[1], w, fill)
            if I.T[ty]['k'] == 'float' or ty is not None and I.T[ty]['s'].replace('&', '') in ('f32', 'f64'): return ('flt', v)
            q = content(I, st, g[3][0]) or (content(I, st, v) if v[0] in ('l', 'v', 'a') else None)
            if q is not None and w == 0: return ('seq', q)
            return ('disp', I.T[ty]['s'], v)
        return ('?', name, I.T[ty]['s'] if ty is not None else '')

    def emit(self, I, st, ctx, bb, t, pieces):
        if pieces is None:
            self.undecided('text written at %s is not understood' % I.where(ctx, t['sp']))
            return fmt_result(I, st, ctx, bb, t)
        sts = [st.copy()]
        for p in pieces:
            self.pieces += 1
            nxt = []
            for s in sts: nxt += self.on_piece(I, s, ctx, p)
            sts = nxt
        ty = rty(t)
        out = [(s, ok(I, ty, I.UNIT)) for s in sts]
        e = st.copy(); e.seta(er=1)
        out.append((e, err(I, ty, I.mk(payload_ty(I, ty, 'Err'), K('fmterr')))))
        return out

    def str_piece(self, I, st, v):
        q = content(I, st, v)
        if q is None: return None
        c = const_bytes(q)
        return [('t', c.decode())] if c is not None else [('seq', q)]

    def on_call(self, I, st, ctx, bb, t, inst, a):
        p = inst['path']
        if t.get('to') is None: return None
        full = inst.get('full') or p
        if p in FMT: return self.emit(I, st, ctx, bb, t, self.str_piece(I, st, a[1]))
        if p in CHR: return self.emit(I, st, ctx, bb, t, [('c', a[1][1])] if a[1][0] == 'i' else None)
        if p in PAD:
            v = a[0] if p.startswith('<str') else a[1]
            return self.emit(I, st, ctx, bb, t, self.str_piece(I, st, v))
        if p in WFM: return self.emit(I, st, ctx, bb, t, self.pieces_of(I, st, a[1]))
        if p.endswith('String as std::fmt::Display>::fmt'):
            return self.emit(I, st, ctx, bb, t, self.str_piece(I, st, a[0]))
        if inst['krate'] == 'core' and inst['name'] == 'fmt' and 'std::fmt::Display for ' in p:
            v = strip(I, st, a[0])
            if 'core::fmt::num' in p and v[0] == 'i': return self.emit(I, st, ctx, bb, t, [('num', v[1], 0, ' ')])
            if 'core::fmt::float' in p: return self.emit(I, st, ctx, bb, t, [('flt', v)])
        if p in ('<char as std::fmt::Display>::fmt',):
            v = strip(I, st, a[0])
            return self.emit(I, st, ctx, bb, t, [('c', v[1])] if v[0] == 'i' else None)
        if p == 'hex::encode' or full.startswith('hex::encode::<'):
            q = content(I, st, a[0]) or content(I, st, strip(I, st, a[0]))
            if q is None: return None
            k = K('hexenc', len(self.HEX)); self.HEX.append(q)
            n = mulc(q[2], 2)
            return [(st, mkstring(I, rty(t), newvec(I, st, ctx, bb, I.u8(), n, (('src', k, ZERO, n),))))]
        if p == 'core::str::<impl str>::chars':
            c = const_bytes(content(I, st, a[0]))
            return [(st, ('n', 'chars', (0, tuple(c.decode())) if c is not None else (-1, ()), ()))]
        if p == "<std::str::Chars<'_> as std::iter::Iterator>::next" or p == "<std::str::Chars<'a> as std::iter::Iterator>::next":
            v = load(I, st, a[0])
            if v[0] != 'n' or v[1] != 'chars': return None
            pos, txt = v[2]
            ty = rty(t)
            if pos >= 0:
                if pos >= len(txt): return [(st, none(I, ty))]
                put(I, st, a[0], ('n', 'chars', (pos + 1, txt), ()))
                return [(st, some(I, ty, ('i', C(ord(txt[pos])))))]
            return self.next_char(I, st, ctx, bb, t, ty)
        if p.endswith('<impl char>::is_whitespace'):
            v = a[0][1]
            if isconst(v):
                c = chr(v[1])
                return [(st, ('b', ('c', c.isspace() and c not in '\x1c\x1d\x1e\x1f')))]
            return [(st, I.mk(rty(t), K('ws', kr(I.fresh(st, ctx, bb, 'ws')))))]
        return None
    HEX = []

    def next_char(self, I, st, ctx, bb, t, ty):
        """the next of arbitrarily many arbitrary characters"""
        if not self.char_done(I, st, ctx): pass
        end = st.copy(); end.seta(cs=None, cl=None); end.m.pop(('A', 'cur'), None)
        k = I.fresh(st, ctx, bb, 'ch')
        c = S(sym(('b', kr(K('char', kr(k)))), 0, 0x10FFFF))
        outs = [(end, none(I, ty))]
        for n, (lo, hi) in enumerate(self.classes()):
            s = st.copy()
            s.f.assume(p_and(p_le(C(lo), c), p_le(c, C(hi))))
            v = C(lo) if lo == hi else c
            s.m[('A', 'cur')] = ('i', v)
            s.seta(cs='new', cl=n)
            outs.append((s, some(I, ty, ('i', v))))
        return outs
    def classes(self): return [(0, 0x10FFFF)]
    def char_done(self, I, st, ctx): return True
    def on_piece(self, I, st, ctx, p): return [st]

ESC = {'0': 0, 'b': 8, 'n': 10, 'r': 13, 't': 9, 'Z': 26}

def name_char(c): return 'U+%04X' % c

class Lex(Fmt):
    """the text as MySQL's lexer reads it back, against the characters the escaper was given"""
    def __init__(self, kind):
        super().__init__()
        self.kind = kind        # string | identifier | unquoted
        self.quotes = {'string': '"\'', 'identifier': '`', 'unquoted': ''}[kind]
    def classes(self):
        cuts = {'string': [0, 1, 8, 9, 10, 11, 13, 14, 26, 27, 34, 35, 37, 38, 39, 40, 92, 93, 95, 96],
                'identifier': [0, 1, 96, 97, 0x10000],
                'unquoted': [0, 0x24, 0x25, 0x30, 0x3A, 0x41, 0x5B, 0x5F, 0x60, 0x61, 0x7B, 0x80, 0x10000]}[self.kind] + [0x110000]
        return [(a, b - 1) for a, b in zip(cuts, cuts[1:])]
    def key(self, what): return '%s:%s' % (self.kind if self.kind != 'string' else 'string-literal', what)

    def cur_const(self, st):
        v = st.m.get(('A', 'cur'))
        if v is None: return None
        lo, hi = st.f.bounds(v[1])
        return lo if lo == hi else None

    def allowed(self, st, lin, want=True):
        """is the character certainly in (want) / certainly outside (not want) the allowed set"""
        if self.kind == 'string': return True
        if self.kind == 'identifier': rs = [(1, 0xFFFF)]
        else: rs = [(0x24, 0x24), (0x30, 0x39), (0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0x80, 0xFFFF)]
        if not want: tests = rs
        else:
            tests, last = [], 0
            for a, b in rs:
                if a > last: tests.append((last, a - 1))
                last = b + 1
            tests.append((last, 0x10FFFF))
        for a, b in tests:
            if 0xD800 <= a and b <= 0xDFFF: continue
            s = st.f.copy()
            try: s.assume(p_and(p_le(C(a), lin), p_le(lin, C(b))))
            except Infeasible: continue
            if contradictory(s): continue
            return False
        return True

    def char_done(self, I, st, ctx):
        cs = st.a('cs')
        if cs != 'new': return True
        v = st.m.get(('A', 'cur'))
        c = self.cur_const(st)
        if self.kind == 'string':
            self.bad(I, st, ctx, self.key(name_char(c) if c is not None else 'dropped'), 'a character of the string is not written')
        elif self.kind == 'unquoted' and not self.allowed(st, v[1], want=False):
            self.bad(I, st, ctx, self.key('dropped'), 'an allowed character is not written')
        return True

    def decoded(self, I, st, ctx, lin):
        """the lexer has read character `lin` as part of the token"""
        v = st.m.get(('A', 'cur'))
        cs = st.a('cs')
        c = self.cur_const(st)
        if v is None or cs is None:
            self.bad(I, st, ctx, self.key('extra'), 'a character is written that is not in the string')
        elif cs == 'done':
            self.bad(I, st, ctx, self.key(name_char(c) if c is not None else 'twice'), 'a character is written more than once')
        elif st.f.entails(p_eq(v[1], lin)) is not True:
            self.bad(I, st, ctx, self.key(name_char(c) if c is not None else 'changed'), 'a character is read back as another one')
        elif not self.allowed(st, lin):
            self.bad(I, st, ctx, self.key('allowed'), 'a character is written that is not allowed in such a token')
        st.seta(cs='done')
        return [st]

    def on_piece(self, I, st, ctx, p):
        if p[0] == 't':
            sts = [st]
            for ch in p[1]:
                nxt = []
                for s in sts: nxt += self.feed(I, s, ctx, C(ord(ch)))
                sts = nxt
            return sts
        if p[0] == 'c': return self.feed(I, st, ctx, p[1])
        if p[0] == 'seq':
            self.bad(I, st, ctx, self.key('raw'), 'text of unknown content is written inside the token')
            return [st]
        self.undecided('a %s is written inside the token' % p[0])
        return [st]

    def feed(self, I, st, ctx, lin):
        """one character of output"""
        if not isconst(lin):
            lo, hi = st.f.bounds(lin)
            if lo == hi: lin = C(lo)
        if not isconst(lin):
            out, rest = [], st
            special = {'string': '"\'\\' if st.a('lx') != 'e' else '"\'\\0bnrtZ%_', 'identifier': '`', 'unquoted': ''}[self.kind]
            for ch in special:
                a, rest = fork(rest, p_eq(lin, C(ord(ch))))
                if a is not None and not contradictory(a.f): out += self.feed1(I, a, ctx, lin, ch)
                if rest is None: return out
            return out + self.feed1(I, rest, ctx, lin, None)
        return self.feed1(I, st, ctx, lin, chr(lin[1]))

    def feed1(self, I, st, ctx, lin, ch):
        lx = st.a('lx', 's')
        if self.kind == 'unquoted': return self.decoded(I, st, ctx, lin)
        q = st.a('qc')
        if lx == 's':
            if ch is not None and ch in self.quotes: st.seta(lx='i', qc=ch)
            else: self.bad(I, st, ctx, self.key('open'), 'the token does not start with a quote'); st.seta(lx='i', qc=self.quotes[0])
            return [st]
        if lx == 'i':
            if ch == q: st.seta(lx='q'); return [st]
            if ch == '\\' and self.kind == 'string': st.seta(lx='e'); return [st]
            return self.decoded(I, st, ctx, lin)
        if lx == 'e':
            st.seta(lx='i')
            if ch in ('%', '_'):
                self.decoded(I, st, ctx, C(92))
                return self.decoded(I, st, ctx, lin)
            return self.decoded(I, st, ctx, C(ESC[ch]) if ch in ESC else lin)
        if lx == 'q':
            if ch == q:
                st.seta(lx='i')
                return self.decoded(I, st, ctx, lin)
            self.bad(I, st, ctx, self.key('closed'), 'the closing quote is followed by further text: a character of the string can close the token')
            return [st]
        return [st]

    def on_return(self, I, st, ctx, v):
        super().on_return(I, st, ctx, v)
        if st.a('er') or v[0] == 'a' and I.T[v[1]]['variants'][v[2]][0] == 'Err': return
        self.char_done(I, st, ctx)
        if self.kind != 'unquoted' and st.a('lx') != 'q':
            self.bad(I, st, ctx, self.key('end'), 'the token does not end with a closing quote')

class Script(Fmt):
    """everything written, as a list"""
    def __init__(self, want):
        super().__init__()
        self.want = want
        self.ends = 0
    def on_piece(self, I, st, ctx, p):
        o = st.a('out', ())
        if p[0] == 'c' and isconst(p[1]): p = ('t', chr(p[1][1]))
        if p[0] == 't' and o and o[-1][0] == 't': o = o[:-1] + (('t', o[-1][1] + p[1]),)
        elif p[0] == 't' and not p[1]: pass
        else: o = o + (p,)
        if len(o) > 40: self.undecided('too much text'); return []
        st.seta(out=o)
        return [st]
    def on_return(self, I, st, ctx, v):
        super().on_return(I, st, ctx, v)
        if st.a('er') or v[0] == 'a' and I.T[v[1]]['variants'][v[2]][0] == 'Err': return
        self.ends += 1
        self.want(self, I, st, ctx, st.a('out', ()))
