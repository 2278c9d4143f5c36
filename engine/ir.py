"""Loading of the MIR dump; CFG helpers."""
import json

class Body:
    __slots__ = ('inst', 'argc', 'spread', 'locals', 'blocks', 'succ', 'preds', 'rpo', 'heads', 'loops', 'live', 'cot', 'resume', 'slots', 'addr', 'names')

def term_succ(t):
    k = t['k']
    if k == 'goto' or k == 'drop' or k == 'assert':
        return [t['to']] if t.get('to') is not None else []
    if k == 'call':
        return [t['to']] if t.get('to') is not None else []
    if k == 'switch':
        return [b for _, b in t['arms']] + ([t['else']] if t['else'] is not None else [])
    if k == 'other':
        return [t['to']] if t.get('to') is not None else []
    return []

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d['types']
        self.insts = d['insts']
        self.files = d['files']
        self.roots = d['roots']
        self._b = {}
        self.vt = {}
        for ty, tr, ms in d['vtables']:
            self.vt.setdefault((ty, tr), {}).update({m or 'poll': i for m, i in ms})
        self.byfull = {}
        for i in self.insts:
            self.byfull.setdefault(i.get('full') or i['path'], i['id'])

    def find(self, pred):
        return [i['id'] for i in self.insts if pred(i)]

    def root(self, name):
        for i in self.insts:
            if (i.get('full') or i['path']) == name:
                return i['id']
        raise KeyError(name)

    def tname(self, t):
        return self.types[t]['s']

    def body(self, iid):
        b = self._b.get(iid)
        if b is None:
            raw = self.insts[iid].get('body')
            if raw is None:
                self._b[iid] = False
                return None
            b = self._b[iid] = self._mk(iid, raw)
        return b or None

    def _mk(self, iid, raw):
        b = Body()
        b.inst = iid
        b.argc = raw['argc']
        b.spread = raw.get('spread')
        b.locals = raw['locals']
        b.names = raw.get('names')
        b.blocks = [None if x is None else ([s for s in x['s']], x['t']) for x in raw['blocks']]
        n = len(b.blocks)
        b.succ = [term_succ(x[1]) if x else [] for x in b.blocks]
        # unreachable-only blocks are never targets of interest
        # dfs for back edges
        color = [0] * n
        order = []
        back = []
        st = [(0, iter(b.succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(b.succ[v])))
                    break
                elif color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                order.append(u)
                st.pop()
        preds = [[] for _ in range(n)]
        for u in order:
            for v in set(b.succ[u]):
                preds[v].append(u)
        b.preds = preds
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x not in body:
                    body.add(x)
                    w.extend(preds[x])
        b.heads = set(loops)
        inl = [[] for _ in range(n)]
        for h in sorted(loops, key=lambda h: -len(loops[h])):
            for x in loops[h]:
                inl[x].append(h)
        b.loops = inl      # enclosing heads, outermost first
        # RPO visiting loop exits first
        seen = [False] * n
        post = []
        def key(u, v):
            return sum(1 for h in inl[u] if v not in loops[h])
        st = [(0, iter(sorted(b.succ[0], key=lambda v: -key(0, v))))]
        seen[0] = True
        while st:
            u, it = st[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True
                    st.append((v, iter(sorted(b.succ[v], key=lambda w, v=v: -key(v, w)))))
                    break
            else:
                post.append(u)
                st.pop()
        b.rpo = [None] * n
        for i, u in enumerate(reversed(post)):
            b.rpo[u] = i
        # liveness of non-address-taken locals; saved slots of the body's own
        # coroutine count as locals keyed ('S', variant, field)
        cot = None
        selfs = set()
        if b.argc >= 1:
            pt = self.types[b.locals[1]]
            if pt.get('path') == 'std::pin::Pin' and pt.get('variants'):
                rt = self.types[pt['variants'][0][2][0][1]]
                if rt['k'] in ('ref', 'ptr') and self.types[rt['of']]['k'] == 'coroutine':
                    cot = rt['of']
                    selfs = {i for i, ty in enumerate(b.locals) if self.types[ty]['k'] in ('ref', 'ptr') and self.types[ty].get('of') == cot}
        b.cot = cot
        def slot(p):
            pj = p[1]
            if p[0] in selfs and len(pj) >= 3 and pj[0] == '*' and pj[1][0] == 'd' and pj[2][0] == 'f':
                return ('S', pj[1][1], pj[2][1])
            return None
        resume = {}
        if cot is not None:
            for blk in b.blocks:
                if blk and blk[1]['k'] == 'switch':
                    ar = blk[1]['arms']
                    for a in ar:
                        resume.setdefault(a[0], a[1])
                    break
        b.resume = resume
        addr = set()
        uses = [None] * n
        defs = [None] * n
        susp = {}
        for bi, blk in enumerate(b.blocks):
            if not blk or not seen[bi]: continue
            us, ds = set(), set()
            def use_place(p, us=us, ds=ds):
                if p[0] not in ds: us.add(p[0])
                sl = slot(p) if cot is not None else None
                if sl is not None and sl not in ds: us.add(sl)
                for pr in p[1]:
                    if pr != '*' and pr[0] == 'i' and pr[1] not in ds: us.add(pr[1])
            def use_op(o):
                if o[0] in 'cm': use_place(o[1])
            def use_rv(r):
                k = r[0]
                if k in ('ref', 'rawptr', 'addr'):
                    use_place(r[1])
                    if '*' not in r[1][1]: addr.add(r[1][0])
                    elif cot is not None and '*' not in r[1][1][1:]:
                        sl = slot(r[1])
                        if sl is not None: addr.add(sl)
                elif k == 'discr' or k == 'len':
                    use_place(r[1])
                else:
                    for x in r[1:]:
                        if isinstance(x, list):
                            if x and x[0] in ('c', 'm') and len(x) == 2 and isinstance(x[1], list): use_op(x)
                            else:
                                for y in x:
                                    if isinstance(y, list) and y and y[0] in ('c', 'm') and len(y) == 2: use_op(y)
            for s in blk[0]:
                if s[0] == '=':
                    use_rv(s[2])
                    sl = slot(s[1]) if cot is not None else None
                    if sl is not None and len(s[1][1]) == 3:
                        if s[1][0] not in ds: us.add(s[1][0])
                        if sl not in us: ds.add(sl)
                    elif s[1][1]: use_place(s[1])
                    else: ds.add(s[1][0])
                elif s[0] == 'sd':
                    use_place(s[1])
                    if s[1][0] in selfs and s[1][1] == ['*']: susp[bi] = s[2]
                elif s[0] in ('assume', 'copy'):
                    for x in s[1:]:
                        if isinstance(x, list) and x and x[0] in ('c', 'm'): use_op(x)
            t = blk[1]
            if t['k'] == 'switch': use_op(t['on'])
            elif t['k'] == 'assert':
                use_op(t['c'])
            elif t['k'] == 'drop':
                use_place(t['p']); addr.add(t['p'][0]) if '*' not in t['p'][1] else None
            elif t['k'] == 'call':
                for a in t['args']: use_op(a)
                if 'ind' in t and isinstance(t['ind'], list): use_op(t['ind'])
                if t['dst'][1]: use_place(t['dst'])
                else: ds.add(t['dst'][0]) if t['dst'][0] not in us else None
            elif t['k'] == 'return':
                if 0 not in ds: us.add(0)
            uses[bi], defs[bi] = us, ds
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for u in post:
                o = set()
                for v in b.succ[u]: o |= live[v]
                if u in susp:
                    o = {x for x in o if type(x) is int}
                    if susp[u] >= 3 and susp[u] in resume:
                        o |= {x for x in live[resume[susp[u]]] if type(x) is not int}
                nl = uses[u] | (o - defs[u]) if uses[u] is not None else o
                if nl != live[u]:
                    live[u] = nl
                    ch = True
        b.live = live
        b.slots = any(type(x) is not int for l in live for x in l) or cot is not None
        b.addr = addr
        return b
