"""Path-wise abstract machine over the extracted IR.  The domain (subclass) supplies values; the machine supplies control flow, memory, calls, loops.
Every path outside loops is followed separately; a loop whose branches the domain cannot decide is handed to `loop` (default: join to a fixpoint)."""
import irx, struct, math
TY = {'f32': 4, 'f64': 8, 'f80': 16, 'c32': 8, 'c64': 16, 'c80': 32, 'ptr': 8, 'bool': 1}
EL = {'c32': 'f32', 'c64': 'f64', 'c80': 'f80'}
def tysize(t): return TY[t] if t in TY else int(t[1:])//8
class Unknown(Exception): pass          # outside the reach of the machine (tool limit)
class Undecided(Exception): pass
class St:
    __slots__ = ('regs', 'mem', 'facts', 'trace')
    def __init__(self, regs=None, mem=None, facts=None, trace=()): self.regs = regs if regs is not None else {}; self.mem = mem if mem is not None else {}; self.facts = facts if facts is not None else {}; self.trace = trace
    def copy(self): return St(dict(self.regs), {k: dict(v) for k, v in self.mem.items()}, dict(self.facts), self.trace)
def dec80(b):
    m = int.from_bytes(b[:8], 'little'); e = int.from_bytes(b[8:10], 'little'); s = -1 if e & 0x8000 else 1; e &= 0x7fff
    return s, m, e
class Machine:
    budget = 400000; maxdepth = 12
    def __init__(self, fns, globs): self.fns = fns; self.globs = globs; self.steps = 0; self.nframe = 0; self.paths = 0
    # ---- to be supplied by the domain
    def const(self, ty, text): raise NotImplementedError
    def cint(self, ty, v): return v
    def op(self, st, op, ty, args, i): raise NotImplementedError
    def lib(self, st, fn, ty, args): raise NotImplementedError
    def branch(self, st, op, a, b, ia, ib): """-> list of (truth, state)"""; raise NotImplementedError
    def join(self, a, b): raise NotImplementedError
    def top(self, ty): raise NotImplementedError
    def load_any(self, ty, cells): raise NotImplementedError
    def intval(self, v): """concrete integer or None"""; return v if isinstance(v, int) else None
    def undef(self, ty): raise Unknown('read of uninitialised storage')
    # ---- operands
    def ev(self, st, a, fr, ty=None):
        k = a[0]
        if k == 'r':
            if a[1] not in st.regs: raise Unknown('undefined register')
            return st.regs[a[1]]
        if k == 'i': return self.cint(ty, a[1])
        if k == 'f': return self.const(ty or 'f64', a[1])
        if k == 'c': return self.cplx(self.const(EL.get(ty, 'f64'), a[1]), self.const(EL.get(ty, 'f64'), a[2]))
        if k == 'a': return ('ptr', self.obj(a[1], fr), a[2])
        raise Unknown('operand')
    def obj(self, n, fr): return n if n[0] == 'g' else (fr, n)
    def addr(self, st, l, fr):
        """-> (object, offset or None)"""
        if l.base[0] == 'p':
            p = self.ev(st, l.base[1], fr)
            if not (isinstance(p, tuple) and p[0] == 'ptr'): raise Unknown('pointer of unknown target')
            o, off = p[1], p[2]
        else: o, off = self.obj(l.base[0] + ':' + l.base[1], fr), 0
        if off is not None: off += l.off
        for a, s in l.idx:
            v = self.intval(self.ev(st, a, fr, 's64'))
            if v is None: off = None
            elif off is not None: off += v*s
        return o, off
    def gbytes(self, o): 
        g = self.globs.get(o[2:])
        if g is None: raise Unknown('object ' + o)
        return g
    def gvalue(self, ty, b):
        if ty == 'f64': return self.const(ty, repr(struct.unpack('<d', b)[0]))
        if ty == 'f32': return self.const(ty, repr(struct.unpack('<f', b)[0]))
        if ty == 'f80':
            s, m, e = dec80(b)
            if e == 0x7fff: return self.const(ty, ('-' if s < 0 else '') + ('Inf' if m << 1 & (2**64 - 1) == 0 else 'nan'))
            return self.const80(s, m, e - 16383 - 63)
        if ty in EL: n = TY[EL[ty]]; return self.cplx(self.gvalue(EL[ty], b[:n]), self.gvalue(EL[ty], b[n:]))
        if ty == 'ptr': raise Unknown('pointer table')
        return self.cint(ty, int.from_bytes(b, 'little', signed=ty[0] == 's'))
    def const80(self, s, m, e):
        import fractions; v = fractions.Fraction(s*m)*(fractions.Fraction(2)**e)
        return self.const('f80', v)
    def load(self, st, ty, o, off):
        n = tysize(ty)
        if isinstance(o, str):
            g = self.gbytes(o)
            if off is None: return self.load_any(ty, [self.gvalue(ty, g[k:k + n]) for k in range(0, len(g) - n + 1, n)])
            if off < 0 or off + n > len(g): raise Unknown('out-of-bounds read of %s at %s' % (o, off))
            return self.gvalue(ty, g[off:off + n])
        cells = st.mem.get(o, {})
        if off is None: return self.load_any(ty, [v for k, (t, v) in cells.items()])
        c = cells.get(off)
        if c and c[0] == ty: return c[1]
        if ty in EL:
            e = EL[ty]; return self.cplx(self.load(st, e, o, off), self.load(st, e, o, off + TY[e]))
        if c and EL.get(c[0]) == ty: return self.re(c[1])
        for k, (t, v) in cells.items():
            if EL.get(t) == ty and k + TY[ty] == off: return self.im(v)
        if c and tysize(c[0]) == n and ty[0] in 'su' and c[0][0] in 'su': return c[1]
        if any(k < off + n and off < k + tysize(t) for k, (t, v) in cells.items()): raise Unknown('reinterpreting load')
        return self.undef(ty)
    def store(self, st, ty, o, off, v):
        if isinstance(o, str): raise Unknown('store to a global object')
        cells = st.mem.setdefault(o, {}); n = tysize(ty)
        if off is None:
            for k, (t, w) in list(cells.items()): cells[k] = (t, self.join(w, v) if t == ty else self.top(t))
            return
        for k, (t, w) in list(cells.items()):
            if k < off + n and off < k + tysize(t):
                del cells[k]
                if t in EL:   # split the other half
                    e = TY[EL[t]]
                    if not (k < off + n and off < k + e): cells[k] = (EL[t], self.re(w))
                    elif not (k + e < off + n and off < k + 2*e): cells[k + e] = (EL[t], self.im(w))
        cells[off] = (ty, v)
    # ---- execution
    def run(self, name, args, st0, depth=0):
        """-> list of (state, value) ; args: list of values (pointers as ('ptr', obj, off))"""
        if depth > self.maxdepth: raise Unknown('recursion too deep')
        f = self.fns.get(name)
        if f is None: raise Unknown('no body for ' + name)
        r = self.hook(name, args, st0, depth)
        if r is not None: return r
        self.nframe += 1; fr = self.nframe
        st = St({}, st0.mem, st0.facts, st0.trace)
        for (ty, el, reg), v in zip(f.params, args):
            if reg is not None: st.regs[reg] = v
        for v, (size, pi) in f.vars.items():
            if pi >= 0: self.store(st, f.params[pi][0], (fr, 'v:' + v), 0, args[pi])
        outs = []; self.walk(f, fr, [(f.entry, None, st)], outs, depth, None)
        res = []
        for s, v in outs:
            for o in [o for o in s.mem if not isinstance(o, str) and o[0] == fr]: del s.mem[o]
            s.regs = {}; res.append((s, v))
        return res
    def hook(self, name, args, st, depth): return None
    def edge(self, st, f, b, pred):
        """phi assignments"""
        if f.blocks[b]['phis']:
            vals = []
            for d, ty, inc in f.blocks[b]['phis']:
                a = inc[pred]
                vals.append((d, self.ev(st, a, self.cfr, ty) if a[0] != 'r' or a[1] in st.regs else None))
            for d, v in vals:
                if v is None: st.regs.pop(d, None)
                else: st.regs[d] = v
    def walk(self, f, fr, work, outs, depth, region, exits=None, trial=False):
        """region: set of blocks to stay in (edges leaving it go to exits)"""
        while work:
            b, pred, st = work.pop()
            self.cfr = fr
            if region is not None and b not in region: exits.append((b, pred, st)); continue
            if b in f.loophead and pred is not None and pred not in f.loophead[b] and not (region is not None and region == f.loophead[b] and trial and pred == 'enter'):
                # entering a loop from outside: try to run it concretely first
                ex = []
                try:
                    s2 = st.copy(); steps = self.steps; self.decide = getattr(self, 'decide', 0) + 1
                    try:
                        self.edge(s2, f, b, pred); o2 = []; self.loopbody(f, fr, b, s2, o2, ex, depth)
                    finally: self.decide -= 1
                    outs += o2; work += ex; continue
                except Undecided:
                    if getattr(self, 'decide', 0): raise
                work += self.loop(f, fr, b, pred, st, outs, depth); continue
            if pred is not None: self.edge(st, f, b, pred)
            self.block(f, fr, b, st, outs, depth, work)
    def loopbody(self, f, fr, h, st, outs, exits, depth):
        """concrete unrolling: every branch must be decided"""
        body = f.loophead[h]; work = []
        self.block(f, fr, h, st, outs, depth, work); n = 0
        while work:
            if len(work) > 1: raise Undecided()
            b, pred, s = work.pop(); self.cfr = fr
            if b not in body: exits.append((b, pred, s)); return
            n += 1
            if n > 20000: raise Undecided()
            if b in f.loophead and b != h and pred not in f.loophead[b]:
                self.edge(s, f, b, pred); ex = []; self.loopbody(f, fr, b, s, outs, ex, depth); work += ex; continue
            self.edge(s, f, b, pred); self.block(f, fr, b, s, outs, depth, work)
    def loop(self, f, fr, h, pred, st, outs, depth):
        """abstract loop: joined states per block until stable"""
        body = f.loophead[h]; inn = {}; exits = {}; wl = [(h, pred, st)]; cnt = {}
        rets = []
        while wl:
            b, p, s = wl.pop(0); self.cfr = fr
            s = s.copy(); self.edge(s, f, b, p)
            if b in inn:
                j = self.joinst(inn[b], s)
                if self.eqst(j, inn[b]): continue
                cnt[b] = cnt.get(b, 0) + 1
                if cnt[b] > 200: raise Unknown('loop does not stabilise')
                if cnt[b] > 20: j = self.widen(inn[b], j)
                inn[b] = j
            else: inn[b] = s
            w = []; self.block(f, fr, b, inn[b].copy(), rets, depth, w)
            for x, q, t in w:
                if x in body: wl.append((x, q, t))
                else:
                    if (x, q) in exits: exits[(x, q)] = self.joinst(exits[(x, q)], t)
                    else: exits[(x, q)] = t
        outs += rets
        return [(x, q, t) for (x, q), t in exits.items()]
    def widen(self, a, b): return b
    def joinst(self, a, b):
        r = St({}, {}, {}, a.trace)
        for k in a.regs:
            if k in b.regs: r.regs[k] = a.regs[k] if a.regs[k] == b.regs[k] else self.join(a.regs[k], b.regs[k])
        for o in a.mem:
            if o in b.mem:
                r.mem[o] = {}
                for k, (t, v) in a.mem[o].items():
                    if k in b.mem[o] and b.mem[o][k][0] == t: w = b.mem[o][k][1]; r.mem[o][k] = (t, v if v == w else self.join(v, w))
        for k in a.facts:
            if k in b.facts and a.facts[k] == b.facts[k]: r.facts[k] = a.facts[k]
        return r
    def eqst(self, a, b): return a.regs == b.regs and a.mem == b.mem and a.facts == b.facts
    def block(self, f, fr, b, st, outs, depth, work):
        self.steps += 1
        if self.steps > self.budget: raise Unknown('step budget exhausted')
        states = [st]
        for i in f.blocks[b]['ins']:
            nxt = []
            for s in states:
                self.cfr = fr; self.where = (f.name, b)
                k = i.k
                if k == 'I':
                    self.last = i; s.regs[i.dst] = self.op(s, i.op, i.ty, [self.ev(s, a, fr, self.argty(i, j)) for j, a in enumerate(i.args)], i); nxt.append(s)
                elif k == 'L': o, off = self.addr(s, i.lv, fr); s.regs[i.dst] = self.load(s, i.ty, o, off); nxt.append(s)
                elif k == 'S': o, off = self.addr(s, i.lv, fr); self.store(s, i.ty, o, off, self.ev(s, i.args[0], fr, i.ty)); nxt.append(s)
                elif k == 'A': o, off = self.addr(s, i.lv, fr); s.regs[i.dst] = ('ptr', o, off); nxt.append(s)
                elif k == 'Y': self.copy(s, i, fr); nxt.append(s)
                elif k == 'C':
                    if i.fn.startswith('@'):
                        n = i.fn[1:]
                        if n in ('__builtin_unreachable', 'unreachable', '__builtin_trap', 'abort', 'trap'): self.dead(s, n); continue
                        v = self.lib(s, n, i.ty, [self.ev(s, a, fr, self.libty(n, i.ty, j)) for j, a in enumerate(i.args)])
                        if i.dst is not None: s.regs[i.dst] = v
                        nxt.append(s)
                    else:
                        ps = self.fns[i.fn].params if i.fn in self.fns else []
                        args = [self.ev(s, a, fr, ps[j][0] if j < len(ps) else None) for j, a in enumerate(i.args)]
                        for s2, v in self.run(i.fn, args, s.copy(), depth + 1):
                            s2.regs = dict(s.regs)
                            if i.dst is not None: s2.regs[i.dst] = v
                            nxt.append(s2)
                        self.cfr = fr
                elif k == 'U': self.unsupported(s, i); nxt.append(s)
            states = nxt
        t = f.blocks[b]['term']
        for s in states:
            self.cfr = fr; self.where = (f.name, b)
            if t[0] == 'goto': work.append((t[1], b, s))
            elif t[0] == 'if':
                ty = self.cmpty(f, t)
                bs = self.branch(s, t[1], self.ev(s, t[2], fr, ty), self.ev(s, t[3], fr, ty), t[2], t[3])
                if len(bs) > 1 and getattr(self, 'decide', 0): raise Undecided()
                for tr, s2 in bs: work.append((t[4] if tr else t[5], b, s2))
            elif t[0] == 'switch':
                v = self.ev(s, t[1], fr, 's64'); bs = self.switch(s, v, t[2], t[3], t[1])
                if len(bs) > 1 and getattr(self, 'decide', 0): raise Undecided()
                for x, s2 in bs: work.append((x, b, s2))
            elif t[0] == 'ret':
                self.paths += 1
                outs.append((s, self.ev(s, t[1], fr, f.ret if f.ret != 'void' else None) if t[1] else None))
    def dead(self, st, n): pass
    def unsupported(self, st, i): raise Unknown(i.text)
    def switch(self, st, v, cases, default, ia):
        k = self.intval(v)
        if k is not None:
            for lo, hi, x in cases:
                if lo <= k <= hi: return [(x, st)]
            return [(default, st)]
        return [(x, st.copy()) for lo, hi, x in cases] + [(default, st)]
    def cmpty(self, f, t):
        if not hasattr(f, 'rty'):
            f.rty = {}
            for i, (ty, el, reg) in enumerate(f.params):
                if reg is not None: f.rty[reg] = ty
            for b in f.blocks.values():
                for d, ty, _ in b['phis']: f.rty[d] = ty
                for i in b['ins']:
                    if i.dst is not None: f.rty[i.dst] = 'ptr' if i.k == 'A' else i.ty
        for a in (t[2], t[3]):
            if a[0] == 'r': return f.rty.get(a[1])
        return 'f64' if t[2][0] == 'f' else 's64'
    def argty(self, i, j):
        if i.op == 'cplx': return EL[i.ty]
        if i.op in ('re', 'im'): return {'f32': 'c32', 'f64': 'c64', 'f80': 'c80'}[i.ty]
        if i.op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cvt', 'ltgt', 'ord', 'unord') or i.op[0] == 'u' and i.ty == 'bool':
            for a in i.args:
                if a[0] == 'r': return None
            return 'f64' if i.args[0][0] == 'f' else 's64'
        return i.ty
    def libty(self, n, ty, j): return ty if ty in ('f32', 'f64', 'f80', 'c32', 'c64', 'c80') else 'f64'
    def copy(self, st, i, fr):
        o, off = self.addr(st, i.lv, fr); p, q = self.addr(st, i.lv2, fr)
        if off is None or q is None: raise Unknown('copy at unknown offset')
        if isinstance(p, str):
            el = self.elemof(i, p)
            for k in range(0, i.size, TY[el]): self.store(st, el, o, off + k, self.load(st, el, p, q + k))
            return
        cells = [(k, t, v) for k, (t, v) in st.mem.get(p, {}).items() if q <= k and k + tysize(t) <= q + i.size]
        for k, (t, v) in list(st.mem.get(o, {}).items()):
            if off <= k < off + i.size: del st.mem[o][k]
        for k, t, v in cells: self.store(st, t, o, off + k - q, v)
    def elemof(self, i, p): return 'f80' if i.size % 16 == 0 else 'f64'
