"""Reader of the IR text produced by gimple.Emitter (the same text the numeric kernel reads)."""
class Ins:
    __slots__ = ('k', 'op', 'ty', 'dst', 'args', 'lv', 'lv2', 'size', 'text', 'fn')
    def __init__(self, k): self.k = k; self.op = self.ty = self.dst = self.lv = self.lv2 = self.fn = None; self.args = []; self.size = 0; self.text = ''
class LV:
    __slots__ = ('base', 'off', 'idx')
    def __repr__(self): return '%r+%d%r' % (self.base, self.off, self.idx)
class Fn:
    def __init__(self): self.params = []; self.vars = {}; self.blocks = {}; self.order = []; self.nregs = 0
def opnd(w):
    k = w[0]; r = w[2:]
    if k == 'r': return ('r', int(r))
    if k == 'i': return ('i', int(r))
    if k == 'f': return ('f', r)
    if k == 'c': a, b = r.split(','); return ('c', a, b)
    if k == 'a': a, b = r.rsplit(',', 1); return ('a', a, int(b))
    raise ValueError(w)
def lv(t, i):
    l = LV(); b = t[i]
    if b[0] == 'p': l.base = ('p', opnd(b[2:]))
    else: l.base = (b[0], b[2:])
    l.off = int(t[i + 1]); n = int(t[i + 2]); i += 3; l.idx = []
    for _ in range(n): l.idx.append((opnd(t[i]), int(t[i + 1]))); i += 2
    return l, i
def parse(text):
    fns = {}; globs = {}; f = None
    for line in text.split('\n'):
        t = line.split(' ')
        k = t[0]
        if not k: continue
        if k == 'G': globs[t[1]] = bytes.fromhex(t[2]) if t[2] != '-' else b''
        elif k == 'F': f = Fn(); f.name = t[1]; f.ret = t[3]; fns[t[1]] = f
        elif k == 'P': f.params.append((t[1], t[2], None if t[3] == '-' else int(t[3])))
        elif k == 'V': f.vars[t[1]] = (int(t[2]), int(t[3]))
        elif k == 'N': f.nregs = int(t[1])
        elif k == 'B': b = dict(phis=[], ins=[], term=None); n = int(t[1]); f.blocks[n] = b; f.order.append(n)
        elif k == 'H':
            m = int(t[3]); b['phis'].append((int(t[1]), t[2], {int(t[4 + 2*i]): opnd(t[5 + 2*i]) for i in range(m)}))
        elif k == 'U': i = Ins('U'); i.text = line[2:]; b['ins'].append(i)
        elif k == 'I':
            i = Ins('I'); i.op, i.ty, i.dst = t[1], t[2], int(t[3]); i.args = [opnd(w) for w in t[5:5 + int(t[4])]]; b['ins'].append(i)
        elif k == 'C':
            i = Ins('C'); i.ty = t[1]; i.dst = None if t[2] == '-' else int(t[2]); i.fn = t[3]; i.args = [opnd(w) for w in t[5:5 + int(t[4])]]; b['ins'].append(i)
        elif k == 'L': i = Ins('L'); i.ty = t[1]; i.dst = int(t[2]); i.lv, _ = lv(t, 3); b['ins'].append(i)
        elif k == 'S': i = Ins('S'); i.ty = t[1]; i.lv, j = lv(t, 2); i.args = [opnd(t[j])]; b['ins'].append(i)
        elif k == 'Y': i = Ins('Y'); i.size = int(t[1]); i.lv, j = lv(t, 2); i.lv2, _ = lv(t, j); b['ins'].append(i)
        elif k == 'A': i = Ins('A'); i.dst = int(t[1]); i.lv, _ = lv(t, 2); b['ins'].append(i)
        elif k == 'T':
            if t[1] == 'goto': b['term'] = ('goto', int(t[2]))
            elif t[1] == 'if': b['term'] = ('if', t[2], opnd(t[3]), opnd(t[4]), int(t[5]), int(t[6]))
            elif t[1] == 'switch':
                v = opnd(t[2]); m = int(t[3]); cs = [(int(t[4 + 3*j]), int(t[5 + 3*j]), int(t[6 + 3*j])) for j in range(m)]; b['term'] = ('switch', v, cs, int(t[4 + 3*m]))
            elif t[1] == 'ret': b['term'] = ('ret', None if t[2] == '-' else opnd(t[2]))
            else: b['term'] = ('unreach',)
        elif k == 'E':
            for b_ in f.blocks.values():
                if b_['term'] is None: b_['term'] = ('unreach',)
            loops(f)
    return fns, globs
def succs(b):
    t = b['term']
    if t[0] == 'goto': return [t[1]]
    if t[0] == 'if': return [t[4], t[5]]
    if t[0] == 'switch': return [c[2] for c in t[2]] + [t[3]]
    return []
def loops(f):
    """natural loops: f.loophead[h] = set of blocks; f.loopof[b] = innermost header or None"""
    f.entry = f.order[0]
    # dominators (small graphs)
    nodes = []; seen = set()
    def dfs(n):
        st = [(n, iter(succs(f.blocks[n])))]; seen.add(n)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen and y in f.blocks: seen.add(y); st.append((y, iter(succs(f.blocks[y])))); break
            else: nodes.append(x); st.pop()
    dfs(f.entry); nodes.reverse(); f.rpo = nodes
    preds = {n: [] for n in nodes}
    for n in nodes:
        for s in succs(f.blocks[n]): preds[s].append(n)
    f.preds = preds
    dom = {n: set(nodes) for n in nodes}; dom[f.entry] = {f.entry}; ch = True
    while ch:
        ch = False
        for n in nodes:
            if n == f.entry: continue
            d = set.intersection(*[dom[p] for p in preds[n]]) | {n} if preds[n] else {n}
            if d != dom[n]: dom[n] = d; ch = True
    f.loophead = {}; f.irreducible = False
    idx = {n: i for i, n in enumerate(nodes)}
    for n in nodes:
        for s in succs(f.blocks[n]):
            if idx[s] <= idx[n]:
                if s not in dom[n]: f.irreducible = True; continue
                body = f.loophead.setdefault(s, {s}); st = [n]
                while st:
                    x = st.pop()
                    if x not in body: body.add(x); st += preds[x]
    f.loopof = {}
    for n in nodes:
        best = None
        for h, b in f.loophead.items():
            if n in b and (best is None or len(b) < len(f.loophead[best])): best = h
        f.loopof[n] = best
