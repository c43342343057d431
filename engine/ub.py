"""C13: freedom from undefined behaviour and termination.
Every function reachable from a public function is executed symbolically: integers are linear forms over symbols (the order n is a symbol ranging over all
64-bit values), with interval propagation backed by Z3; floating-point values are intervals with NaN flag; complex values carry modulus bounds.
Obligations: no signed overflow, no out-of-range shift/division/conversion, every load and store inside its (sub-)object, no use of an uninitialised value,
every loop is unrolled until its back edge is infeasible (so its trip count is bounded for all inputs), every recursion decreases |log|z||."""
import sys, os, re, time, math, itertools, json
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import irx, gimple, native, entries as E
from vlib import *
from machine import *
INF = math.inf; DMAX = 1.7976931348623157e308; DEN = 5e-324
ids = itertools.count(1)
def dn(x, k=1):
    for _ in range(k): x = math.nextafter(x, -INF)
    return x
def up(x, k=1):
    for _ in range(k): x = math.nextafter(x, INF)
    return x
# ---------------------------------------------------------------- integers
class I:
    __slots__ = ('t', 'c')
    def __init__(self, t, c): self.t = t; self.c = c
    def __eq__(self, o): return isinstance(o, I) and self.t == o.t and self.c == o.c
    def __hash__(self): return hash((self.t, self.c))
    def __repr__(self): return '+'.join(['%d*%s' % (k, s) for s, k in self.t] + [str(self.c)])
def lin(a, ka, b, kb):
    d = {}
    for s, k in a.t: d[s] = d.get(s, 0) + ka*k
    for s, k in b.t: d[s] = d.get(s, 0) + kb*k
    return I(tuple(sorted((s, k) for s, k in d.items() if k)), ka*a.c + kb*b.c)
def ic(v): return I((), v)
def sc(a, k): return I(tuple((s, c*k) for s, c in a.t) if k else (), a.c*k)
# ---------------------------------------------------------------- floats
class F(tuple):   # (lo, hi, nan, fin, id, tag)   fin False: certainly not finite
    __slots__ = ()
    lo = property(lambda s: s[0]); hi = property(lambda s: s[1]); nan = property(lambda s: s[2]); fin = property(lambda s: s[3]); id = property(lambda s: s[4]); tag = property(lambda s: s[5])
    def rep(s, lo=None, hi=None, nan=None, fin=None, tag=0): return F((s[0] if lo is None else lo, s[1] if hi is None else hi, s[2] if nan is None else nan, s[3] if fin is None else fin, s[4], s[5] if tag == 0 else tag))
def mk(lo, hi, nan=False, fin=True, tag=None): return F((lo, hi, nan, fin, next(ids), tag))
def top(nan=True): return mk(-INF, INF, nan)
def mag(a): return max(abs(a.lo), abs(a.hi))
def mig(a): return 0.0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi))
def isz(a): return a.lo == 0 and a.hi == 0 and not a.nan
def maynf(a): return a.nan or a.lo == -INF or a.hi == INF
def fneg(a): return mk(-a.hi, -a.lo, a.nan, a.fin, ntag(a))
def ntag(a): return a.tag if a.tag and a.tag[0] == 'p' else None
def fadd(a, b):
    sq = a.tag and b.tag and a.tag[0] == 'sq' == b.tag[0] and a.tag[1] == b.tag[1] and a.tag[2] != b.tag[2]
    if isz(b) and not sq: return a
    if isz(a) and not sq: return b
    nan = a.nan or b.nan or (a.lo == -INF and b.hi == INF) or (a.hi == INF and b.lo == -INF)
    lo = -INF if a.lo == -INF or b.lo == -INF else a.lo + b.lo
    hi = INF if a.hi == INF or b.hi == INF else a.hi + b.hi
    fin = a.fin and b.fin; tag = None
    if sq:
        m0, m1 = a.tag[3], a.tag[4]; l2 = m0*m0*(1 - 4e-16) if m0 > 1e-150 else 0.0; h2 = m1*m1*(1 + 4e-16) + 1e-322 if m1 < INF else INF
        lo = max(lo, min(l2, DMAX)); hi = min(hi, h2)
        if lo > hi: lo = hi
    return mk(lo, hi, nan, fin, tag)
def m0_(x, y): return 0.0 if x == 0 or y == 0 else x*y
def fmul(a, b):
    if a.tag and b.tag and a.id == b.id and a.tag[0] == 'p':
        hi = mag(a); lo = mig(a); return mk(m0_(lo, lo), m0_(hi, hi), a.nan, a.fin, ('sq', a.tag[1], a.tag[2], a.tag[3], a.tag[4]))
    if a.id == b.id: hi = mag(a); lo = mig(a); return mk(m0_(lo, lo), m0_(hi, hi), a.nan, a.fin)
    p = [m0_(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    z = lambda v: v.lo <= 0 <= v.hi; i = lambda v: v.lo == -INF or v.hi == INF
    nan = a.nan or b.nan or (z(a) and i(b)) or (z(b) and i(a)); fin = a.fin and b.fin
    if not fin: return mk(-INF, INF, True, False)
    tag = None
    for u, v in ((a, b), (b, a)):
        if u.tag and u.tag[0] == 'p' and not (v.tag and v.tag[0] == 'p'):
            tag = ('p', (u.tag[1], 'm', v.id), u.tag[2], max(0.0, dn(m0_(u.tag[3], mig(v)), 2)), up(m0_(u.tag[4], mag(v)), 2) if mag(v) > 0 and u.tag[4] > 0 else 0.0); break
    return mk(min(p), max(p), nan, True, tag)
def fdiv(a, b):
    nan = a.nan or b.nan or (a.lo <= 0 <= a.hi and b.lo <= 0 <= b.hi) or ((a.lo == -INF or a.hi == INF) and (b.lo == -INF or b.hi == INF))
    if b.lo <= 0 <= b.hi: return mk(-INF, INF, nan)
    q = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            if abs(x) == INF and abs(y) == INF: q += [0.0, math.copysign(INF, x)*math.copysign(1, y)]
            else: q.append(x/y if abs(x) != INF else math.copysign(INF, x)*math.copysign(1, y))
    if mag(b) == INF: q.append(0.0)
    tag = None
    if a.tag and a.tag[0] == 'p' and mag(b) < INF: tag = ('p', (a.tag[1], 'd', b.id), a.tag[2], max(0.0, dn(a.tag[3]/mag(b), 2)), up(a.tag[4]/mig(b), 2) if a.tag[4] < INF else INF)
    return mk(min(q), max(q), nan, True, tag)
def fabs_(a): return mk(mig(a), mag(a), a.nan, a.fin, ('abs', a.id))
class C(tuple):   # (re, im, mlo, mhi, key)
    __slots__ = ()
    r = property(lambda s: s[0]); i = property(lambda s: s[1]); mlo = property(lambda s: s[2]); mhi = property(lambda s: s[3]); key = property(lambda s: s[4])
def hyp(a, b): return INF if a == INF or b == INF else math.hypot(a, b)
def clip(f, m):
    if f.nan or not f.fin: return f
    lo, hi = max(f.lo, -m), min(f.hi, m)
    return f.rep(lo=lo, hi=hi) if (lo, hi) != (f.lo, f.hi) and lo <= hi else f
def mkc(re, im, mlo=0.0, mhi=INF, key=None):
    mhi = min(mhi, up(hyp(mag(re), mag(im)), 2)) if mag(re) or mag(im) or re.nan or im.nan else 0.0; mlo = max(mlo, mig(re), mig(im), dn(hyp(mig(re), mig(im)), 2))
    if maynf(re) or maynf(im): mlo = 0.0   # mhi: bound in case both parts are finite
    else:
        re, im = clip(re, mhi), clip(im, mhi)
        for _ in range(1):
            for u, v in ((0, 1), (1, 0)):
                w = [re, im]; rest = mlo*mlo*(1 - 4e-16) - mag(w[v])**2*(1 + 4e-16) if mag(w[v]) < 1e150 and mlo < 1e150 else 0
                if mag(w[v]) == 0: m = mlo*(1 - 4e-16)
                else: m = math.sqrt(rest)*(1 - 4e-16) if rest > 1e-290 else 0.0
                if m > 0:
                    if w[u].lo >= 0 and m > w[u].lo and m <= w[u].hi: w[u] = w[u].rep(lo=m)
                    elif w[u].hi <= 0 and -m < w[u].hi and -m >= w[u].lo: w[u] = w[u].rep(hi=-m)
                re, im = w
    return C((re, im, mlo, mhi, key or next(ids)))
def ctop(): return mkc(top(), top())
SL = 1e-323
def mmul(x, y):
    if x == INF and y < 0.7: return 1.41422*y*DMAX   # both parts finite: modulus <= sqrt(2) max
    if y == INF and x < 0.7: return 1.41422*x*DMAX
    return m0_(x, y)
def cmulC(a, b):
    re = fadd(fmul(a.r, b.r), fneg(fmul(a.i, b.i))); im = fadd(fmul(a.r, b.i), fmul(a.i, b.r))
    if any(not x.fin for x in (a.r, a.i, b.r, b.i)): return mkc(mk(-INF, INF, True, False), mk(-INF, INF, True, False))
    if any(maynf(x) for x in (a.r, a.i, b.r, b.i)): 
        return mkc(top(), top())
    if maynf(re) or maynf(im): pass
    m1 = mmul(a.mhi, b.mhi); m0 = m0_(a.mlo, b.mlo)
    if m1 < 2e-324: return mkc(mk(0.0, 0.0), mk(0.0, 0.0))   # every product underflows to zero (round to nearest)
    m1 = m1*(1 + 1e-15) + SL; m0 = max(0.0, m0*(1 - 1e-15) - SL)
    if m1 >= 0.7*DMAX: return mkc(mk(-INF, INF, True), mk(-INF, INF, True), 0.0, m1)
    re = mk(max(re.lo, -m1), min(re.hi, m1)); im = mk(max(im.lo, -m1), min(im.hi, m1))
    return mkc(re, im, m0, m1)
def caddC(a, b):
    re, im = fadd(a.r, b.r), fadd(a.i, b.i)
    if re is a.r and im is a.i: return a
    if re is b.r and im is b.i: return b
    if any(maynf(x) for x in (a.r, a.i, b.r, b.i, re, im)): return mkc(re, im)
    return mkc(re, im, max(0.0, (a.mlo - b.mhi)*(1 - 1e-15) if a.mlo > b.mhi else (b.mlo - a.mhi)*(1 - 1e-15)), (a.mhi + b.mhi)*(1 + 1e-15))
def cnegC(a): return C((fneg(a.r), fneg(a.i), a.mlo, a.mhi, next(ids)))
def cdivC(a, b):
    if any(maynf(x) for x in (a.r, a.i, b.r, b.i)) or b.mlo <= 0: return ctop()
    m1 = a.mhi/b.mlo*(1 + 1e-14) + 1e-322
    if m1 >= 0.5*DMAX: return ctop()
    m0 = max(0.0, a.mlo/b.mhi*(1 - 1e-14) - 1e-322); return mkc(mk(-m1, m1), mk(-m1, m1), m0, m1)
IR_ = {'s64': (-2**63, 2**63 - 1), 's32': (-2**31, 2**31 - 1), 'u64': (0, 2**64 - 1), 'u32': (0, 2**32 - 1), 's8': (-128, 127), 'u8': (0, 255), 's16': (-32768, 32767), 'u16': (0, 65535), 'bool': (0, 1), 'u128': (0, 2**128 - 1), 's128': (-2**127, 2**127 - 1)}
CMPS = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')
NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt'}
class Infeasible(Exception): pass
class Ub(Machine):
    budget = 6000000
    def __init__(self, fns, globs, public=()):
        super().__init__(fns, globs); self.obl = 0; self.fail = []; self.z3calls = 0; self.z3t = 0.0; self.byint = 0; self.public = set(public); self.stack = []; self.osize = {}; self.loops = {}; self.rec = []
        self.cache = {}; self.divc = {}; self.prot = []; self.summ = {}
    # ---- obligations
    def ob(self, st, kind, text, bad):
        """bad: list of alternative constraint lists describing a violation"""
        self.obl += 1; f = None
        for cs in bad:
            s2 = self.assume(st, cs)
            if s2 is None: continue
            m = self.sat(s2)
            if m is not None: f = m; break
        if f is None: return True
        self.failed(kind, text, f); return False
    def failed(self, kind, text, model=None):
        k = (kind, self.where[0], self.where[1], text)
        if k not in [x[0] for x in self.fail]: self.fail.append((k, model or {}))
    # ---- integer reasoning
    def bnd(self, st, a):
        b = st.facts['b']; lo = hi = a.c
        for s, k in a.t:
            l, h = b[s]
            if k > 0: lo += k*l; hi += k*h
            else: lo += k*h; hi += k*l
        return lo, hi
    def con(self, op, a, b):
        d = lin(a, 1, b, -1)
        if op == 'le': return ('le', d)
        if op == 'lt': return ('le', I(d.t, d.c + 1))
        if op == 'ge': return ('le', sc(d, -1))
        if op == 'gt': d = sc(d, -1); return ('le', I(d.t, d.c + 1))
        return (op, d)
    def assume(self, st, cs):
        """new state with constraints, or None if bounds propagation refutes them"""
        b = dict(st.facts['b']); f = list(st.facts['f']); new = []
        for c in cs:
            if not c[1].t:
                v = c[1].c
                if not (v <= 0 if c[0] == 'le' else v == 0 if c[0] == 'eq' else v != 0): return None
                continue
            if c not in f: new.append(c)
        s2 = St(st.regs, st.mem, dict(st.facts), st.trace)
        allf = f + new; work = list(new); rounds = 0
        while work and rounds < 60:
            rounds += 1; c = work.pop(0); ch = set()
            forms = [c[1]] if c[0] == 'le' else [c[1], sc(c[1], -1)] if c[0] == 'eq' else []
            if c[0] == 'ne' and len(c[1].t) == 1:
                s, k = c[1].t[0]
                if c[1].c % k == 0:
                    v = -c[1].c//k; l, h = b[s]
                    if l == v: l += 1
                    if h == v: h -= 1
                    if (l, h) != b[s]: b[s] = (l, h); ch.add(s)
                    if l > h: return None
            for L in forms:   # sum + c <= 0
                lo = L.c
                for s, k in L.t: lo += k*(b[s][0] if k > 0 else b[s][1])
                if lo > 0: return None
                for s, k in L.t:
                    rest = lo - k*(b[s][0] if k > 0 else b[s][1]); l, h = b[s]
                    if k > 0: h = min(h, (-rest)//k)
                    else: l = max(l, -((-rest)//(-k)))
                    if (l, h) != b[s]:
                        if l > h: return None
                        b[s] = (l, h); ch.add(s)
            if ch:
                for d in allf:
                    if d not in work and any(s in ch for s, _ in d[1].t): work.append(d)
        s2.facts['b'] = b; s2.facts['f'] = tuple(c for c in allf if len(c[1].t) > 1 or c[0] == 'ne' and self.inside(b, c[1])); return s2
    @staticmethod
    def inside(b, L):
        s, k = L.t[0]; return L.c % k == 0 and b[s][0] < -L.c//k < b[s][1]
    def sat(self, st):
        """model or None"""
        b, f = st.facts['b'], st.facts['f']
        # single-symbol facts are already exact in the bounds, except disequalities in the interior
        syms = {}
        for c in f:
            for s, _ in c[1].t: syms[s] = 1
        if not f: return {s: lohi[0] for s, lohi in b.items()}
        key = (f, tuple((s, b[s]) for s in sorted(syms)))
        if key in self.cache: return self.cache[key]
        import z3
        t = time.time(); S = z3.Solver(); S.set('timeout', 20000); v = {s: z3.Int(s) for s in syms}
        for s in syms: S.add(v[s] >= b[s][0], v[s] <= b[s][1])
        for c in f:
            e = z3.Sum([k*v[s] for s, k in c[1].t]) + c[1].c
            S.add(e <= 0 if c[0] == 'le' else e == 0 if c[0] == 'eq' else e != 0)
        r = S.check(); self.z3calls += 1; self.z3t += time.time() - t
        if r == z3.unsat: m = None
        elif r == z3.sat: M = S.model(); m = {s: M.eval(v[s], model_completion=True).as_long() for s in syms}
        else: m = {'unknown': 1}
        self.cache[key] = m; return m
    def fresh(self, st, lo, hi, pre='s'):
        s = '%s%d' % (pre, next(ids)); b = dict(st.facts['b']); b[s] = (lo, hi); st.facts = dict(st.facts); st.facts['b'] = b; return I(((s, 1),), 0)
    def freshc(self, st, lo, hi, g, r):
        """fresh value in [lo,hi] congruent r modulo g"""
        if g <= 1: return self.fresh(st, lo, hi, 'a')
        t = self.fresh(st, -((r - lo)//g), (hi - r)//g, 'a'); return I(((t.t[0][0], g),), r)
    def addfacts(self, st, cs):
        s2 = self.assume(st, cs)
        if s2 is not None: st.facts = s2.facts
    def inr(self, st, a, ty):
        lo, hi = self.bnd(st, a); l, h = IR_[ty]; return l <= lo and hi <= h
    def range_ob(self, st, a, ty, text):
        l, h = IR_[ty]
        if self.inr(st, a, ty): self.obl += 1; self.byint += 1; return True
        ok = self.ob(st, 'signed overflow', text, [[('le', I(lin(sc(a, -1), 1, ic(h + 1), 1).t, lin(sc(a, -1), 1, ic(h + 1), 1).c))], [('le', lin(a, 1, ic(1 - l), 1))]])
        self.addfacts(st, [('le', lin(a, 1, ic(-h), 1)), ('le', lin(sc(a, -1), 1, ic(l), 1))])
        return ok
    # ---- machine interface
    def const(self, ty, v):
        if isinstance(v, str):
            if 'an' in v: return mk(INF, -INF, True, False) if False else mk(-INF, INF, True, False)
            if v.lstrip('-') in ('Inf', 'inf'): x = -INF if v[0] == '-' else INF; return mk(x, x, False, False)
            from fractions import Fraction
            v = Fraction(v)
        try: x = float(v)
        except OverflowError: return mk(DMAX, INF) if v > 0 else mk(-INF, -DMAX)
        if ty == 'f64' or x == v: return mk(x, x)
        return mk(dn(x), up(x))
    def const80(self, s, m, e):
        from fractions import Fraction
        return self.const('f80', Fraction(s*m)*(Fraction(2)**e))
    def cint(self, ty, v): return ic(v)
    def intval(self, v): return v.c if isinstance(v, I) and not v.t else None
    def cplx(self, a, b):
        if a.tag and b.tag and a.tag[0] == 'p' == b.tag[0] and a.tag[1] == b.tag[1] and a.tag[2] == 're' and b.tag[2] == 'im': return mkc(a, b, a.tag[3], a.tag[4])
        return mkc(a, b)
    def re(self, v): return v.r.rep(tag=('p', v.key, 're', v.mlo, INF if maynf(v.r) or maynf(v.i) else v.mhi))
    def im(self, v): return v.i.rep(tag=('p', v.key, 'im', v.mlo, INF if maynf(v.r) or maynf(v.i) else v.mhi))
    def top(self, ty, st=None):
        if ty is None or ty[0] == 'f': return top()
        if ty[0] == 'c': return ctop()
        if ty == 'ptr': raise Unknown('pointer of unknown value')
        return ('any', ty)
    def norm(self, st, v, ty=None):
        if isinstance(v, tuple) and v and v[0] == 'any': return self.fresh(st, *IR_[v[1]])
        return v
    def join(self, a, b):
        if isinstance(a, F) and isinstance(b, F): return a.rep(lo=min(a.lo, b.lo), hi=max(a.hi, b.hi), nan=a.nan or b.nan, fin=a.fin or b.fin) if a.id == b.id else mk(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan, a.fin or b.fin)
        if isinstance(a, C) and isinstance(b, C): return mkc(self.join(a.r, b.r), self.join(a.i, b.i), min(a.mlo, b.mlo), max(a.mhi, b.mhi))
        if a == b: return a
        raise Unknown('join of pointers')
    def joinst(self, a, b):
        r = St({}, {}, dict(a.facts), a.trace); B = {}
        for s in a.facts['b']:
            if s in b.facts['b']: x, y = a.facts['b'][s], b.facts['b'][s]; B[s] = (min(x[0], y[0]), max(x[1], y[1]))
        bf = set(b.facts['f']); r.facts['f'] = tuple(c for c in a.facts['f'] if c in bf and all(s in B for s, _ in c[1].t)); r.facts['b'] = B; memo = {}
        def J(x, y):
            if x == y and (not isinstance(x, I) or all(s in B for s, _ in x.t)): return x
            if isinstance(x, I) and isinstance(y, I):
                if (x, y) not in memo:
                    l1, h1 = self.bnd(a, x); l2, h2 = self.bnd(b, y); memo[(x, y)] = self.fresh(r, min(l1, l2), max(h1, h2), 'j'); B.update(r.facts['b']); r.facts['b'] = B
                return memo[(x, y)]
            if isinstance(x, tuple) and isinstance(y, tuple) and not isinstance(x, (F, C)) and not isinstance(y, (F, C)):
                if x[0] == 'ptr' and y[0] == 'ptr': raise Unknown('join of pointers')
                return self.fresh(r, 0, 1)
            if isinstance(x, (F, C)) and type(x) is type(y):
                k = (id(x), id(y))
                if k not in memo: memo[k] = (self.join(x, y), x, y)
                return memo[k][0]
            if isinstance(x, I) or isinstance(y, I): return self.fresh(r, 0, 1)
            return self.join(x, y)
        for k in a.regs:
            if k in b.regs:
                try: r.regs[k] = J(a.regs[k], b.regs[k])
                except Unknown: pass
        for o in a.mem:
            if o in b.mem:
                r.mem[o] = {}; x, y = a.mem[o], b.mem[o]
                if {k: c[0] for k, c in x.items()} != {k: c[0] for k, c in y.items()}: x, y = self.split(x), self.split(y)
                for k, (t, v) in x.items():
                    if k in y and y[k][0] == t: r.mem[o][k] = (t, J(v, y[k][1]))
        return r
    def split(self, cells):
        r = {}
        for k, (t, v) in cells.items():
            if t in EL: e = EL[t]; r[k] = (e, self.re(v)); r[k + TY[e]] = (e, self.im(v))
            else: r[k] = (t, v)
        return r
    def ev(self, st, a, fr, ty=None):
        if a[0] == 'r' and a[1] not in st.regs:
            self.obl += 1; self.failed('uninitialised value', 'register used before it is set'); return self.norm(st, self.top(ty))
        return super().ev(st, a, fr, ty)
    def undef(self, ty):
        self.obl += 1; self.failed('uninitialised value', 'read of uninitialised storage'); return self.top(ty)
    # ---- memory
    def addr(self, st, l, fr):
        if l.base[0] == 'p':
            p = self.ev(st, l.base[1], fr)
            if not (isinstance(p, tuple) and p[0] == 'ptr'): raise Unknown('pointer of unknown target')
            o, off = p[1], p[2]
        else: o, off = self.obj(l.base[0] + ':' + l.base[1], fr), 0
        off = (off if isinstance(off, I) else ic(off)); off = I(off.t, off.c + l.off); prev = None
        for a, s in l.idx:
            v = self.ev(st, a, fr, 's64')
            if not isinstance(v, I): v = self.fresh(st, *IR_['s64'])
            if prev is not None and 0 < s < prev: self.in_ob(st, v, prev//s - 1, 'row of array %s' % (o if isinstance(o, str) else o[1]))
            prev = s; off = lin(off, 1, v, s)
        return o, (off if off.t else off.c)
    def in_ob(self, st, v, mx, text):
        lo, hi = self.bnd(st, v)
        if 0 <= lo and hi <= mx: self.obl += 1; self.byint += 1; return True
        ok = self.ob(st, 'out of bounds', text, [[('le', I(v.t, v.c + 1))], [('le', lin(sc(v, -1), 1, ic(mx + 1), 1))]])
        self.addfacts(st, [('le', lin(v, 1, ic(-mx), 1)), ('le', sc(v, -1))]); return ok
    def size(self, o):
        if isinstance(o, str): return len(self.gbytes(o))
        return self.osize.get(o)
    def access(self, st, ty, o, off, w):
        sz = self.size(o)
        if sz is None: raise Unknown('object of unknown size')
        n = tysize(ty)
        return self.in_ob(st, off if isinstance(off, I) else ic(off), sz - n, '%s of %s (%d bytes)' % (w, o if isinstance(o, str) else o[1], sz))
    def load(self, st, ty, o, off):
        ok = self.access(st, ty, o, off, 'read')
        if not ok and not isinstance(off, I): return self.norm(st, self.top(ty))
        n = tysize(ty)
        if isinstance(off, I):
            lo, hi = self.bnd(st, off); step = 0
            for s, k in off.t: step = math.gcd(step, k)
            step = abs(step) or n; base = off.c % step; lo = max(lo, 0); hi = min(hi, self.size(o) - n)
            offs = [k for k in range(lo + (base - lo) % step, hi + 1, step)] if (hi - lo)//step < 3000 else None
            if offs is None or not offs: return self.norm(st, self.top(ty))
            vals = [self.norm(st, super(Ub, self).load(st, ty, o, k)) for k in offs]
            if isinstance(vals[0], I):
                bs = [self.bnd(st, v) for v in vals]; return self.fresh(st, min(x[0] for x in bs), max(x[1] for x in bs))
            r = vals[0]
            for v in vals[1:]: r = self.join(r, v)
            return r
        return self.norm(st, super().load(st, ty, o, off))
    def store(self, st, ty, o, off, v):
        if isinstance(o, str): raise Unknown('store to a global object')
        self.access(st, ty, o, off, 'write')
        if isinstance(off, I): super().store(st, ty, o, None, v)
        else: super().store(st, ty, o, off, v)
    def elemof(self, i, p): return 'f80' if i.size % 16 == 0 and '80' in p else 'f64'
    def copy(self, st, i, fr):
        o, off = self.addr(st, i.lv, fr); p, q = self.addr(st, i.lv2, fr)
        if isinstance(off, I) or isinstance(q, I): raise Unknown('copy at symbolic offset')
        if isinstance(p, str): st.mem.setdefault(o, {})['lazy'] = ('lazy', (p, q, off, i.size)); self.lazy(st, o, p, q, off, i.size); return
        super().copy(st, i, fr)
    def lazy(self, st, o, p, q, off, n):
        st.mem[o].pop('lazy'); el = self.elty.get(o) or {'c80': 'f80', 'f80': 'f80', 'c32': 'f32', 'f32': 'f32'}.get(self.fret.get(o[0]), 'f64')
        if n % TY[el]: el = 'f64'
        for k in range(0, n, TY[el]): super().store(st, el, o, off + k, self.norm(st, super().load(st, el, p, q + k)))
    # ---- execution
    def run(self, name, args, st0, depth=0):
        if depth > self.maxdepth: raise Unknown('recursion too deep')
        f = self.fns.get(name)
        if f is None: raise Unknown('no body for ' + name)
        key = None
        if all(isinstance(a, F) or isinstance(a, I) and not a.t for a in args) and f.ret[0] == 'f' and name not in self.stack and depth > 0:
            key = (name,) + tuple(a[:4] if isinstance(a, F) else a.c for a in args)
            if key in self.summ:
                v = self.summ[key]
                if v is None: return []
                return [(st0, mk(*v))]
        if depth > 0 and f.ret[0] == 'f' and key is None and name not in self.stack and args and all(isinstance(x, (F, I)) for x in args) and not getattr(self, 'decide', 0):
            # modular: the callee is verified once for the range of its arguments; the caller uses the resulting contract
            rg = tuple(tuple(x[:4]) if isinstance(x, F) else self.bnd(st0, x) + cong(x) for x in args); key = (name,) + rg
            if key in self.summ and self.summ[key] is not False:
                v = self.summ[key]; return [(st0, mk(*v))] if v is not None else []
            if key not in self.summ:
                s2 = st0.copy(); s2.facts = {'b': {'n': (-2**63, 2**63 - 1)}, 'f': ()}; a2 = []
                for x, g in zip(args, rg): a2.append(mk(*g) if isinstance(x, F) else ic(g[0]) if g[0] == g[1] else self.freshc(s2, *g))
                sv = self.obl, len(self.fail); r = self.run2(name, a2, s2, depth, f)
                if len(self.fail) > sv[1]: self.obl = sv[0]; del self.fail[sv[1]:]; self.summ[key] = False
                else:
                    v = None
                    for _, w in r: v = w if v is None else self.join(v, w)
                    self.summ[key] = None if v is None else tuple(v[:4]); return [(st0, mk(*v[:4]))] if v is not None else []
            key = None
        if key is not None and not getattr(self, 'decide', 0):
            self.summ[key] = None; r = None
            try: r = self.run2(name, args, st0.copy(), depth, f)
            finally:
                if r is None: del self.summ[key]
            if r:
                v = r[0][1]
                for s, w in r[1:]: v = self.join(v, w)
                self.summ[key] = v[:4]; return [(st0, mk(*v[:4]))]
            return []
        return self.run2(name, args, st0, depth, f)
    def run2(self, name, args, st0, depth, f):
        if name in self.stack:
            self.recursion(name, args, st0); return [(st0, self.norm(st0, self.top(f.ret)) if f.ret != 'void' else None)]
        if depth > 0 and name in self.public:
            for (ty, el, reg), a in zip(f.params, args): pass
            return [(st0, self.norm(st0, self.top(f.ret)) if f.ret != 'void' else None)]
        self.stack.append(name); self.prot.append(set(st0.facts['b']))
        if not hasattr(self, 'elty'): self.elty = {}; self.fret = {}
        self.fret[self.nframe + 1] = f.ret
        for v, (size, pi) in f.vars.items(): self.osize[(self.nframe + 1, 'v:' + v)] = size or (tysize(f.ret) if v == '<retval>' else 0)
        if not hasattr(f, 'elts'):
            f.elts = {}
            for b in f.blocks.values():
                for i in b['ins']:
                    if i.k in 'LS' and i.lv is not None and i.lv.base[0] == 'v' and i.ty[0] in 'f': f.elts['v:' + i.lv.base[1]] = i.ty
        for v, t in f.elts.items(): self.elty[(self.nframe + 1, v)] = t
        w = self.where if hasattr(self, 'where') else None
        try: return super().run(name, args, st0, depth)
        finally: self.stack.pop(); self.prot.pop(); self.where = w
    def recursion(self, name, args, st):
        c = None
        for a in args:
            if isinstance(a, tuple) and a and a[0] == 'ptr': c = st.mem.get(a[1], {}).get(a[2], (None, None))[1]
            if isinstance(a, tuple) and a and a[0] == 'ptr' and not isinstance(c, C): c = Machine.load(self, st, 'c64', a[1], a[2])
        self.obl += 1; ok = False; txt = ''
        if isinstance(c, C) and c.mlo > 0 and c.mhi < INF and self.measure is not None:
            m = max(abs(math.log(c.mlo)), abs(math.log(c.mhi)))*(1 + 1e-14) + 1e-14; ok = m < self.measure; txt = 'callee |log|z|| <= %.6g, caller >= %.6g' % (m, self.measure)
        self.rec.append((name, ok, txt))
        if not ok: self.failed('recursion variant', 'recursive call of %s: %s' % (name, txt or 'no bound on the argument'))
    measure = None
    def loop(self, f, fr, h, pred, st, outs, depth):
        body = f.loophead[h]; exits = {}; cur = [(h, pred, st)]; it = 0; nexit = 0
        while cur:
            it += 1
            if it > self.maxiter: self.obl += 1; self.failed('termination', 'loop at block %d of %s: back edge still feasible after %d iterations' % (h, f.name, it)); break
            if len(cur) > 1:
                for i in range(len(cur)): self.cfr = fr; s = cur[i][2].copy(); self.edge(s, f, cur[i][0], cur[i][1]); cur[i] = (None, None, s)
                j = cur[0][2]
                for c in cur[1:]: j = self.joinst(j, c[2])
                start = j
            else: self.cfr = fr; start = cur[0][2].copy(); self.edge(start, f, cur[0][0], cur[0][1])
            self.prune(start, f)
            back = []; work = []; self.block(f, fr, h, start, outs, depth, work)
            while work:
                b, p, s = work.pop(); self.cfr = fr
                if b == h: back.append((b, p, s)); continue
                if b not in body:
                    s = s.copy()
                    if (b, p) in exits: exits[(b, p)].append(s)
                    else: exits[(b, p)] = [s]
                    if len(exits[(b, p)]) > 1: exits[(b, p)] = [self.joinst(*exits[(b, p)])]
                    continue
                if b in f.loophead and p not in f.loophead[b]:
                    try:
                        s2 = s.copy(); sv = self.obl, len(self.fail); self.decide = getattr(self, 'decide', 0) + 1; ex = []; o2 = []
                        try: self.cfr = fr; self.edge(s2, f, b, p); self.loopbody(f, fr, b, s2, o2, ex, depth)
                        finally: self.decide -= 1
                        outs += o2; work += ex; continue
                    except Undecided:
                        self.obl = sv[0]; del self.fail[sv[1]:]
                        if getattr(self, 'decide', 0): raise
                    work += self.loop(f, fr, b, p, s, outs, depth); continue
                self.edge(s, f, b, p); self.block(f, fr, b, s, outs, depth, work)
            cur = back
            if len(cur) > 1 and getattr(self, 'decide', 0): raise Undecided()
        k = (f.name, h); self.obl += 1; self.loops[k] = max(self.loops.get(k, 0), it)
        return [(x, q, t[0]) for (x, q), t in exits.items()]
    maxiter = 12000
    def prune(self, st, f):
        """forget symbols nothing refers to"""
        if len(st.facts['b']) < 24: return
        used = {'n'} | (self.prot[-1] if self.prot else set())
        def see(v):
            if isinstance(v, I): used.update(s for s, _ in v.t)
            elif isinstance(v, tuple) and not isinstance(v, (F, C)):
                for w in v: see(w)
        for v in st.regs.values(): see(v)
        for o in st.mem.values():
            for t, v in o.values(): see(v)
        ch = True
        while ch:
            ch = False
            for c in st.facts['f']:
                ss = {s for s, _ in c[1].t}
                if ss & used and not ss <= used: used |= ss; ch = True
        st.facts = dict(st.facts); st.facts['b'] = {s: v for s, v in st.facts['b'].items() if s in used}
        st.facts['f'] = tuple(c for c in st.facts['f'] if all(s in used for s, _ in c[1].t))
    def block(self, f, fr, b, st, outs, depth, work):
        self.where = (f.name, b); return super().block(f, fr, b, st, outs, depth, work)
    # ---- operations
    def op(self, st, op, ty, a, i):
        a = [self.norm(st, x) for x in a]
        if op == 'mov': return a[0]
        if ty[0] == 'f':
            if op == 're': return self.re(a[0])
            if op == 'im': return self.im(a[0])
            if op == 'cvt' and isinstance(a[0], I): lo, hi = self.bnd(st, a[0]); return mk(dn(float(lo)) if float(lo) > lo else float(lo), up(float(hi)) if float(hi) < hi else float(hi))
            if op == 'cvt' and isinstance(a[0], tuple) and not isinstance(a[0], F): return mk(0.0, 1.0)
            if op == 'neg': return fneg(a[0])
            if op == 'abs': return fabs_(a[0])
            if ty != 'f64':
                return top()
            if op == 'cvt': return top()
            if op == 'add': return fadd(a[0], a[1])
            if op == 'sub': return fadd(a[0], fneg(a[1])) if not isz(a[1]) else a[0]
            if op == 'mul': return fmul(a[0], a[1])
            if op == 'div': return fdiv(a[0], a[1])
            if op in ('max', 'min'): return top()
        elif ty[0] == 'c':
            if op == 'cplx': return self.cplx(a[0], a[1])
            if op == 'conj': return C((a[0].r, fneg(a[0].i), a[0].mlo, a[0].mhi, next(ids)))
            if op == 'neg': return cnegC(a[0])
            if ty != 'c64' or op == 'cvt': return ctop()
            if op == 'add': return caddC(a[0], a[1])
            if op == 'sub': return caddC(a[0], cnegC(a[1]))
            if op == 'mul': return cmulC(a[0], a[1])
            if op == 'div': return cdivC(a[0], a[1])
        elif op in ('unord', 'ord', 'ult', 'ule', 'ugt', 'uge', 'uneq', 'ltgt') or op in CMPS:
            if isinstance(a[0], F):
                r = self.fcmp(op, a[0], a[1])
                return ic(1 if r == {True} else 0) if len(r) == 1 else ('fcond', op, a[0], a[1])
            if isinstance(a[0], C): return self.fresh(st, 0, 1)
            if isinstance(a[0], I) and isinstance(a[1], I):
                r = self.icmp(st, op, a[0], a[1])
                return ic(1 if r[0] else 0) if len(r) == 1 else ('cond', op, a[0], a[1])
            return self.cnd(st, op, a)
        elif ty == 'ptr':
            p = a[0]; off = p[2] if isinstance(p[2], I) else ic(p[2]); off = lin(off, 1, a[1], 1); return ('ptr', p[1], off if off.t else off.c)
        else: return self.iop(st, op, ty, a)
        raise Unknown('operation %s %s' % (op, ty))
    def cnd(self, st, op, a):
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            k = self.intval(y)
            if isinstance(x, tuple) and not isinstance(x, (F, C)) and x[0] in ('cond', 'fcond') and k in (0, 1) and op in ('eq', 'ne'):
                if (op == 'eq') == (k == 1): return x
                return ('not', x) if x[0] != 'not' else x[1]
        return self.fresh(st, 0, 1)
    def asint(self, st, v): return v if isinstance(v, I) else self.fresh(st, 0, 1)
    def iop(self, st, op, ty, a):
        if op in ('bnot', 'not') and ty == 'bool':
            v = a[0]
            if isinstance(v, I): return lin(ic(1), 1, v, -1)
            return v[1] if v[0] == 'not' else ('not', v)
        if op == 'cvt' and isinstance(a[0], F): return self.toint(st, a[0], ty, 'conversion')
        if op == 'cvt' and not isinstance(a[0], I): return a[0]
        if op in ('and', 'or') and ty == 'bool':
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                k = self.intval(x)
                if k is not None: return (y if k == 1 else ic(0)) if op == 'and' else (ic(1) if k == 1 else y)
            return ('bin', op, a[0], a[1])
        if op == 'xor' and ty == 'bool': return self.fresh(st, 0, 1)
        a = [self.asint(st, x) for x in a]; l, h = IR_[ty]; t = '%s %s' % (op, ty)
        def fit(v):
            if self.inr(st, v, ty): return v
            if ty[0] == 's' and op != 'cvt': self.range_ob(st, v, ty, t); return v
            if not v.t:
                w = v.c & ((1 << (h - l + 1).bit_length() - 1) - 1) if l == 0 or True else 0
                return ic(w - (h - l + 1) if w > h else w)
            # wraps: exact if provably in range
            if self.assume(st, [('le', lin(sc(v, -1), 1, ic(h + 1), 1))]) is None and self.assume(st, [('le', lin(v, 1, ic(1 - l), 1))]) is None: return v
            if l == 0: return self.divs(st, v, h + 1, False)[1]
            return self.fresh(st, l, h)
        if op == 'cvt': return fit(a[0])
        if op == 'neg': return fit(sc(a[0], -1))
        if op == 'bnot': return fit(lin(ic(-1), 1, a[0], -1)) if ty[0] == 's' else self.fresh(st, l, h)
        if op in ('add', 'sub'): return fit(lin(a[0], 1, a[1], 1 if op == 'add' else -1))
        if op == 'mul':
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if not y.t: return fit(sc(x, y.c))
            p = [x*y for x in self.bnd(st, a[0]) for y in self.bnd(st, a[1])]; v = self.fresh(st, min(p), max(p)); return fit(v)
        if op in ('div', 'mod', 'shr', 'and', 'shl'):
            d = self.intval(a[1]); v = self.intval(a[0])
            if op in ('div', 'mod'):
                self.obl += 1
                if d is None:
                    lo, hi = self.bnd(st, a[1])
                    if lo <= 0 <= hi: self.ob(st, 'division by zero', t, [[('eq', a[1])]])
                    return self.fresh(st, l, h)
                if d == 0: self.failed('division by zero', t); return self.fresh(st, l, h)
                if d < 0: return self.fresh(st, l, h)
                if v is not None: q = abs(v)//d*(1 if v >= 0 else -1); return ic(q if op == 'div' else v - d*q)
                q, r = self.divs(st, a[0], d, True); return q if op == 'div' else r
            if op in ('shr', 'shl'):
                self.obl += 1
                if d is None or not 0 <= d < (h - l + 1).bit_length() - 1: self.failed('shift', t); return self.fresh(st, l, h)
                if op == 'shl': return fit(sc(a[0], 1 << d))
                if v is not None: return ic(v >> d)
                return self.divs(st, a[0], 1 << d, False)[0]
            if v is not None and d is not None: return ic(v & d)
            if d is not None and d >= 0 and d & (d + 1) == 0: return self.divs(st, a[0], d + 1, False)[1]
            for x in a:
                if self.intval(x) == 0: return ic(0)
            return self.fresh(st, l, h)
        if op in ('max', 'min'):
            r = self.icmp(st, 'le', a[0], a[1])
            if len(r) == 1: return a[0] if r[0] == (op == 'min') else a[1]
            b0, b1 = self.bnd(st, a[0]), self.bnd(st, a[1]); f = max if op == 'max' else min; return self.fresh(st, f(b0[0], b1[0]), f(b0[1], b1[1]))
        return self.fresh(st, l, h)
    def divs(self, st, a, d, trunc):
        lo, hi = self.bnd(st, a)
        if d > 0 and all(k % d == 0 for _, k in a.t):   # remainder known from the congruence of the coefficients
            r = a.c % d
            if not trunc or r == 0 or lo >= 0: pass
            elif hi <= 0: r -= d
            else: r = None
            if r is not None: return I(tuple((s, k//d) for s, k in a.t), (a.c - r)//d), ic(r)
        k = (a, d, trunc and lo < 0, trunc and hi > 0)
        if k not in self.divc: self.divc[k] = ('q%d' % next(ids), 'r%d' % next(ids))
        q, r = self.divc[k]; Q = I(((q, 1),), 0); g = d
        for _, c in a.t: g = math.gcd(g, c)   # the remainder is congruent to a modulo g
        R = I(((r, g),), a.c % g)
        if q in st.facts['b']: return Q, R
        rl, rh = 0, d - 1
        if trunc: rl = -(d - 1) if lo < 0 else 0; rh = d - 1 if hi > 0 else 0
        fl = (lambda x: x//d) if not trunc else (lambda x: x//d if x >= 0 else -((-x)//d))
        b = dict(st.facts['b']); b[q] = (fl(lo), fl(hi)); b[r] = (-((R.c - rl)//g), (rh - R.c)//g); st.facts = dict(st.facts); st.facts['b'] = b
        e = lin(lin(a, 1, Q, -d), 1, R, -1); self.addfacts(st, [('eq', e)]); return Q, R
    def toint(self, st, f, ty, what):
        l, h = IR_[ty]; self.obl += 1
        if f.nan or not f.fin or not (f.lo > l - 1 and f.hi < h + 1): self.failed('float to integer conversion out of range', '%s of a value in [%g,%g]%s to %s' % (what, f.lo, f.hi, ' or NaN' if f.nan else '', ty)); return self.fresh(st, l, h)
        g = {'ceil': math.ceil, 'floor': math.floor}.get(what, None)
        lo, hi = (g(f.lo), g(f.hi)) if g else (math.floor(f.lo), math.ceil(f.hi))
        return ic(lo) if lo == hi else self.fresh(st, lo, hi)
    # ---- branches
    def icmp(self, st, op, a, b):
        r = []
        for t in (True, False):
            s = self.assume(st, [self.con(op if t else NEG[op], a, b)])
            if s is not None: r.append((t, s))
        if len(r) == 2:
            d = lin(a, 1, b, -1)
            if len(d.t) > 1 or any(len(c[1].t) > 1 and any(x[0] == d.t[0][0] for x in c[1].t) for c in st.facts['f']): r = [(t, s) for t, s in r if self.sat(s) is not None]
        self.last_states = r
        return [t for t, s in r] or [True]
    def fset(self, a):
        """non-NaN value hull(s) of a float"""
        if a.fin: return [(a.lo, a.hi)] if a.lo <= a.hi else []
        return ([(-INF, -INF)] if a.lo == -INF else []) + ([(INF, INF)] if a.hi == INF else [])
    def fcmp(self, op, a, b):
        r = set()
        if a.nan or b.nan: r.add(op in ('ne', 'unord', 'ult', 'ule', 'ugt', 'uge', 'uneq'))
        o = op
        if op == 'unord': r |= {False} if self.fset(a) and self.fset(b) else set(); return r or {True}
        if op == 'ord': r |= {True} if self.fset(a) and self.fset(b) else set(); return r or {False}
        if op in ('ult', 'ule', 'ugt', 'uge'): o = op[1:]
        if op == 'uneq': o = 'eq'
        if op == 'ltgt': o = 'ne'
        for x in self.fset(a):
            for y in self.fset(b):
                if a.id == b.id: r.add(o in ('eq', 'le', 'ge')); continue
                if o in ('lt', 'ge'): c = {True} if x[1] < y[0] else {False} if x[0] >= y[1] else {True, False}
                elif o in ('gt', 'le'): c = {True} if x[0] > y[1] else {False} if x[1] <= y[0] else {True, False}
                else: c = {False} if x[1] < y[0] or y[1] < x[0] else {True} if x[0] == x[1] == y[0] == y[1] else {True, False}
                if o in ('ge', 'le', 'ne'): c = {not v for v in c}
                r |= c
        return r
    def refine(self, st, op, a, b, t):
        """state refinement for float comparison (op,a,b) having truth t"""
        o = op; unord = op in ('ne', 'unord', 'ult', 'ule', 'ugt', 'uge', 'uneq')
        nn = t != unord   # NaN excluded
        if op == 'unord' and not t or op == 'ord' and t: return [(a, a.rep(nan=False)), (b, b.rep(nan=False))]
        if op in ('unord', 'ord'): return []
        if op in ('ult', 'ule', 'ugt', 'uge'): o = op[1:]
        if op == 'uneq': o = 'eq'
        if op == 'ltgt': o = 'ne'
        if not t: o = NEG[o]
        if not nn and (a.nan or b.nan): return []
        x, y = [a.lo, a.hi], [b.lo, b.hi]
        if a.fin and b.fin or True:
            if o in ('lt', 'le'): s = (lambda v: v) if o == 'le' else None; x[1] = min(x[1], y[1] if o == 'le' else dn(b.hi)); y[0] = max(y[0], a.lo if o == 'le' else up(a.lo))
            elif o in ('gt', 'ge'): x[0] = max(x[0], b.lo if o == 'ge' else up(b.lo)); y[1] = min(y[1], a.hi if o == 'ge' else dn(a.hi))
            elif o == 'eq': x = y = [max(x[0], y[0]), min(x[1], y[1])]
            elif o == 'ne':
                if b.lo == b.hi:
                    if x[0] == b.lo: x[0] = up(x[0])
                    if x[1] == b.lo: x[1] = dn(x[1])
        out = []
        for v, w in ((a, x), (b, y)):
            if w[0] > w[1]: continue
            out.append((v, v.rep(lo=w[0], hi=w[1], nan=False if nn else v.nan)))
        return out
    def apply(self, st, subs, depth=0):
        m = {}
        for v, w in subs:
            if v == w: continue
            m[v.id] = w
            if v.tag and v.tag[0] == 'abs':
                bid = v.tag[1]; hi = w.hi
                m[bid] = ('absle', hi, w.nan)
        if not m: return
        def up1(v):
            w = m.get(v.id)
            if w is None: return v
            if isinstance(w, tuple) and not isinstance(w, F):
                lo, hi = max(v.lo, -w[1]), min(v.hi, w[1]); return v.rep(lo=lo, hi=hi, nan=v.nan and w[2]) if lo <= hi else v
            lo, hi = max(v.lo, w.lo), min(v.hi, w.hi)
            return v.rep(lo=lo, hi=hi, nan=v.nan and w.nan) if lo <= hi else v
        def sub(v):
            if isinstance(v, F): return up1(v)
            if isinstance(v, C):
                r, i = up1(v.r), up1(v.i)
                if r == v.r and i == v.i: return v
                if not r.nan and not i.nan and hyp(mag(r), mag(i)) < v.mlo*(1 - 1e-12): raise Infeasible()
                return mkc(r, i, v.mlo, v.mhi, v.key)
            return v
        extra = []
        for k, v in st.regs.items():
            if isinstance(v, (F, C)):
                w = sub(v)
                if w is not v:
                    st.regs[k] = w
                    if isinstance(w, C): extra += [(v.r, w.r), (v.i, w.i)]
        for o in st.mem.values():
            for k, (t, v) in o.items():
                if isinstance(v, (F, C)):
                    w = sub(v)
                    if w is not v:
                        o[k] = (t, w)
                        if isinstance(w, C): extra += [(v.r, w.r), (v.i, w.i)]
        if extra and depth < 2: self.apply(st, [(x, y) for x, y in extra if x[:4] != y[:4]], depth + 1)
    def branch(self, st, op, a, b, ia, ib):
        a, b = self.norm(st, a), self.norm(st, b)
        if isinstance(a, F) and isinstance(b, F): return self.fbranch(st, op, a, b)
        if isinstance(a, C):
            e = {x and y for x in self.fcmp('eq', a.r, b.r) for y in self.fcmp('eq', a.i, b.i)}; out = []
            for t in sorted(e):
                s = st.copy()
                if not t and b.r.lo == b.r.hi and b.i.lo == b.i.hi and not b.r.nan and not b.i.nan:   # a != constant: Re differs, or Re equal and Im differs
                    v = op != 'eq'
                    out += [(v, x) for u, x in self.fbranch(s.copy(), 'ne', a.r, b.r) if u]
                    for u, x in self.fbranch(s, 'eq', a.r, b.r):
                        if u: out += [(v, y) for w, y in self.fbranch(x, 'ne', a.i, b.i) if w]
                    continue
                try:
                    if t: self.apply(s, self.refine(s, 'eq', a.r, b.r, True)); self.apply(s, self.refine(s, 'eq', a.i, b.i, True))
                except Infeasible: continue
                out.append(((t if op == 'eq' else not t), s))
            return out
        if isinstance(a, I) and isinstance(b, I):
            self.icmp(st, op, a, b); r = self.last_states; out = []
            for t, s in r:
                s2 = st.copy(); s2.facts = s.facts; out.append((t, s2))
            return out
        # boolean conditions compared with 0/1
        x, y = (a, b) if not isinstance(a, I) else (b, a); k = self.intval(y)
        if k is None: return [(True, st.copy()), (False, st)]
        want = lambda t: t == ((op == 'eq') == (k == 1))
        return [(want(t), s) for t, s in self.cbranch(st, x)]
    def fbranch(self, st, op, a, b):
        r = self.fcmp(op, a, b)
        if not r: return []
        out = []
        for t in sorted(r):
            s = st.copy() if len(r) > 1 else st
            if (op in ('ne', 'uneq', 'ltgt') and t or op == 'eq' and not t) and op != 'uneq' and b.lo == b.hi and a.lo < b.lo < a.hi and not a.nan and not b.nan:
                for lo, hi in ((a.lo, dn(b.lo)), (up(b.lo), a.hi)):
                    s3 = s.copy()
                    try: self.apply(s3, [(a, a.rep(lo=lo, hi=hi))]); out.append((t, s3))
                    except Infeasible: pass
                continue
            try: self.apply(s, self.refine(s, op, a, b, t)); out.append((t, s))
            except Infeasible: pass
        return out
    def cbranch(self, st, c):
        if isinstance(c, I): 
            r = self.branch(st, 'ne', c, ic(0), None, None); return r
        if c[0] == 'not': return [(not t, s) for t, s in self.cbranch(st, c[1])]
        if c[0] == 'cond': return self.branch(st, c[1], c[2], c[3], None, None)
        if c[0] == 'fcond': return self.fbranch(st, c[1], c[2], c[3])
        if c[0] == 'bin':
            out = []
            for t, s in self.cbranch(st, c[2]):
                if (c[1] == 'and') != t: out.append((t, s)); continue
                out += self.cbranch(s, c[3])
            return out
        return [(True, st.copy()), (False, st)]
    def switch(self, st, v, cases, default, ia):
        v = self.asint(st, self.norm(st, v))
        if not v.t: return super().switch(st, v, cases, default, ia)
        out = []; rest = [st]
        for lo, hi, x in cases:
            nr = []
            for s in rest:
                a = self.assume(s, [('le', lin(sc(v, -1), 1, ic(lo), 1)), ('le', lin(v, 1, ic(-hi), 1))])
                if a is not None and self.sat(a) is not None: c = st.copy(); c.facts = a.facts; out.append((x, c))
                for con in ([('ne', lin(v, 1, ic(-lo), 1))],) if lo == hi else ([('le', lin(v, 1, ic(1 - lo), 1))], [('le', lin(sc(v, -1), 1, ic(hi + 1), 1))]):
                    b = self.assume(s, con)
                    if b is not None: nr.append(b)
            rest = nr
        for s in rest:
            if self.sat(s) is not None: c = st.copy(); c.facts = s.facts; out.append((default, c))
        return out
    def dead(self, st, n): self.obl += 1; self.failed('unreachable', n + ' reached')
    # ---- library contracts
    def lib(self, st, fn, ty, a):
        a = [self.norm(st, x) for x in a]
        if fn.startswith('.UBSAN_CHECK_'):
            k = fn[13:]; t = '%s %s' % (k, ty)
            a = [self.asint(st, x) for x in a]
            if k in ('ADD', 'SUB'): v = lin(a[0], 1, a[1], 1 if k == 'ADD' else -1)
            elif not a[0].t or not a[1].t: v = sc(a[1], a[0].c) if not a[0].t else sc(a[0], a[1].c)
            else: p = [x*y for x in self.bnd(st, a[0]) for y in self.bnd(st, a[1])]; v = self.fresh(st, min(p), max(p))
            self.range_ob(st, v, ty if ty in IR_ else 's64', t); return v
        if fn.startswith('.UBSAN') or 'ubsan' in fn: return None
        n = re.sub('^__builtin_', '', fn); n = re.sub('^_gfortran_', '', n); f64 = ty in ('f64', 'c64')
        if n in ('lceil', 'lfloor', 'lrint', 'lround', 'llround', 'lceill', 'lceilf', 'iceil', 'ifloor', 'irint', 'lfloorl'):
            what = 'ceil' if 'ceil' in n else 'floor' if 'floor' in n else 'rounding'
            return self.toint(st, a[0], ty, what)
        if n in ('signbit', 'isnan', 'isinf', 'isfinite', 'signbitf', 'signbitl', 'isnanf', 'isnanl'): 
            return self.fresh(st, 0, 1) if n[:7] == 'signbit' else self.fresh(st, 0, 1)
        if ty is not None and ty[0] in 'su' or ty == 'bool': return self.fresh(st, *IR_[ty])
        if not f64: return ctop() if ty and ty[0] == 'c' else top() if ty and ty[0] == 'f' else None
        x = a[0] if a else None
        if n == 'fabs': return fabs_(x)
        if n == 'hypot':
            y = a[1]
            if x.tag and y.tag and x.tag[0] == 'p' == y.tag[0] and x.tag[1] == y.tag[1] and x.tag[2] != y.tag[2]: lo, hi = x.tag[3], x.tag[4]
            else: lo, hi = hyp(mig(x), mig(y)), hyp(mag(x), mag(y))
            lo = max(mig(x), mig(y), lo*(1 - 4e-16) if lo > 1e-300 else 0.0); hi = hi*(1 + 4e-16) + DEN if hi < INF else INF
            return mk(min(lo, DMAX), hi, x.nan or y.nan)
        if n == 'log':
            if x.lo < 0 or x.nan: return mk(-INF if x.lo <= 0 else self.lg(x.lo, -1), INF if x.hi == INF or x.nan else self.lg(x.hi, 1) if x.hi > 0 else INF, True)
            return mk(self.lg(x.lo, -1), self.lg(x.hi, 1))
        if n == 'carg' or n == 'atan2':
            nan = (x.r.nan or x.i.nan) if isinstance(x, C) else (x.nan or a[1].nan)
            y, w = (x.i, x.r) if isinstance(x, C) else (x, a[1]); lo, hi = -3.1415926535897936, 3.1415926535897936
            if not nan and mag(w) < 1e300 and (y.lo > 0 or y.hi < 0):
                v = 0.78*(mig(y)/max(mag(w), mig(y)))
                if v == 0.0 and mig(y) >= DEN and mag(w) <= 1.5: v = DEN   # round to nearest
                if y.lo > 0: lo = v
                else: hi = -v
            return mk(lo, hi, nan)
        if n == 'csqrt' and isinstance(x, C) and not maynf(x.r) and not maynf(x.i):
            lo, hi = math.sqrt(x.mlo)*(1 - 1e-15), (math.sqrt(x.mhi) if x.mhi < INF else math.sqrt(DMAX)*1.1893)*(1 + 1e-15); return mkc(mk(0.0, hi), mk(-hi, hi), max(lo - SL, 0.0), hi)
        if n == 'sqrt': return mk(math.sqrt(max(x.lo, 0.0)) if x.lo < INF else DMAX, math.sqrt(x.hi) if 0 <= x.hi < INF else INF, x.nan or x.lo < 0)
        if n in ('sin', 'cos'): return mk(-1.0, 1.0, maynf(x))
        if n == 'pow' or n == 'powi':
            y = a[1]
            if isinstance(y, I): lo, hi = self.bnd(st, y); y = mk(float(lo), float(hi))
            if x.nan or y.nan or x.lo < 0: return top()
            v = [self.pw(p, q) for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
            lo, hi = min(v), max(v); return mk(INF, INF, False, False) if lo == INF else mk(max(0.0, dn(lo, 2)), up(hi, 2) if hi < INF else INF)
        if n in ('ceil', 'floor', 'trunc', 'round') and not maynf(x): return mk(math.floor(x.lo)*1.0, math.ceil(x.hi)*1.0)
        if n == 'fmod' and not a[1].nan and a[1].lo > 0 and not x.nan and mag(x) < INF:
            m = min(a[1].hi, mag(x)); return mk(0.0 if x.lo >= 0 else -m, m if x.hi > 0 else 0.0)
        return ctop() if ty[0] == 'c' else top()
    @staticmethod
    def lg(x, s):
        if x <= 0: return -INF
        if x == INF: return INF if s > 0 else 709.7
        v = math.log(x); return v + s*(abs(v)*4e-16 + 1e-300)
    @staticmethod
    def pw(p, q):
        try: return math.pow(p, q)
        except OverflowError: return INF
        except (ValueError, ZeroDivisionError): return INF
def cong(x):
    if not x.t: return (0, 0)
    g = 0
    for _, k in x.t: g = math.gcd(g, k)
    return (g, x.c % g)
NSYM = I((('n', 1),), 0)
def st0(lo=-2**63, hi=2**63 - 1): return St({}, {}, {'b': {'n': (lo, hi)}, 'f': ()})
NEGB = [0.0, 0.5, 0.52, 0.6, 0.8, 1.0, 1.2, 1.5, 1.9, 1.99, 2.01, 2.2]
while NEGB[-1] < math.exp(500): NEGB.append(math.exp(1.4*math.log(NEGB[-1])))
NEGB.append(DMAX)
POSB = [0.0, 0.5, 0.7, 0.7499999, 0.7500001, 0.9, 1.0, 1.1, 1.3999999, 1.4000001, 2.0, 10.0, 1e10, 1e76, 1e155, DMAX]
def cases(shape):
    """-> list of (name, kind, data)"""
    if shape == 'r': return [('any x', 'F', None)]
    if shape == 'i': return [('n < 0', 'n', (-2**63, -1)), ('n >= 0', 'n', (0, 2**63 - 1))]
    if shape == 'ir': return [('%s, %s' % (a, b), 'nF', x + (r,)) for a, r in (('n < 7', (-2**63, 6)), ('n = 7', (7, 7)), ('n = 8', (8, 8)), ('n = 9', (9, 9)), ('10 <= n < 26', (10, 25)), ('n >= 26', (26, 2**63 - 1)))
                                  for b, x in (('finite x', (-DMAX, DMAX, False, True)), ('x infinite or NaN', (-INF, INF, True, False)))]
    if shape == 'z': return [('any z', 'C', None)]
    r = [('Re z not finite', 'nCnf', 0), ('Im z not finite', 'nCnf', 1), ('z = 0', 'nC', (0.0, 0.0))]
    for nm, rg in (('n < -1100', (-2**63, -1101)), ('-1100 <= n < -300', (-1100, -301)), ('-300 <= n < -30', (-300, -31)), ('-30 <= n < -1', (-30, -2)), ('-1 <= n < 7', (-1, 6)), ('n >= 7', (7, 2**63 - 1))):
        neg = rg[1] < -1; b = NEGB if neg else POSB if rg[0] == 7 else [0.0, DMAX]
        for par in ((0, 1) if neg or rg[0] == 7 else (None,)):
            for x, y in zip(b, b[1:] + [None]):
                d = (x, y or DMAX, rg)
                r.append(('%s%s, |z| %s' % (nm, '' if par is None else (', n even', ', n odd')[par], 'in [%.6g, %.6g]' % (x, y) if y else '> max'), 'nC', d if par is None else d + (par,)))
    return r
def setup(M, f, p, case):
    nm, kind, d = case; st = st0(); args = []; ps = list(f.params); M.measure = None
    if kind == 'n': st = st0(*d)
    if kind[0] == 'n': rg = d[-1] if isinstance(d, tuple) and isinstance(d[-1], tuple) else None; args.append(ic(rg[0]) if rg and rg[0] == rg[1] else NSYM); ps = ps[1:]
    if kind == 'nC' and len(d) > 3: args = [I((('n', 2),), d[3])]
    if kind in ('F', 'C', 'nF', 'nC', 'nCnf'):
        ty, el, reg = ps[0]
        if kind == 'F': v = top()
        elif kind == 'C': v = ctop()
        elif kind == 'nF': v = mk(d[0], d[1], d[2], d[3]); st = st0(*d[4])
        elif kind == 'nCnf': nf = mk(-INF, INF, True, False); v = mkc(nf if d == 0 else mk(-DMAX, DMAX), nf if d == 1 else mk(-DMAX, DMAX))
        else:
            lo, hi = d[:2]
            if len(d) == 3: st = st0(*d[2])
            if len(d) == 4: st = st0(-((d[3] - d[2][0])//2), (d[2][1] - d[3])//2)
            if lo == DMAX: v = mkc(mk(-DMAX, DMAX), mk(-DMAX, DMAX), DMAX*(1 - 1e-15), INF); M.measure = 709.0
            elif hi == 0: v = mkc(mk(0.0, 0.0), mk(0.0, 0.0))
            else:
                v = C((mk(-hi, hi), mk(-hi, hi), max(lo, DEN), hi, next(ids))); l0 = math.log(lo) if lo > 0 else -750; l1 = math.log(hi)
                M.measure = 0.0 if l0 <= 0 <= l1 else min(abs(l0), abs(l1))
        if ty == 'ptr':
            M.osize[(0, 'arg')] = TY[el]; Machine.store(M, st, el, (0, 'arg'), 0, v); args.append(('ptr', (0, 'arg'), 0))
        else: args.append(v)
    return st, args
def verify(text, key, p, case, public):
    fns, globs = irx.parse(text); return verify2(fns, globs, key, p, case, public)
def verify2(fns, globs, key, p, case, public):
    M = Ub(fns, globs, public); t = time.time(); err = None
    try:
        f = fns[key]; st, args = setup(M, f, p, case); M.run(key, args, st)
    except (Unknown, KeyError, RecursionError, AttributeError, TypeError, IndexError, ValueError, OverflowError) as e: err = '%s: %s (in %s)' % (type(e).__name__, e, getattr(M, 'where', None))
    return dict(case=case[0], obl=M.obl, byint=M.byint, fail=[(list(k), m) for k, m in M.fail], err=err, z3=M.z3calls, z3t=M.z3t, t=time.time() - t, loops=[[a, b, c] for (a, b), c in M.loops.items()], rec=len(M.rec), recok=sum(1 for r in M.rec if r[1]))
# ------------------------------------------------------------------ driver
SAN = '-fsanitize=signed-integer-overflow,float-cast-overflow,integer-divide-by-zero,shift'
class San(Extracted):
    """the same sources, with the conditions of undefined behaviour made explicit by the front end (UBSan instrumentation)"""
    def __init__(self, work, langs=('cpp', 'c', 'f90')):
        self.work = work; self.prog = gimple.Program(); self.problems = []; src = sources(langs)
        def comp(s):
            try: return gimple.compile_dump(s, work, REPO, [SAN])
            except Exception as e: return e
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, src))
        for i in range(3):
            for k, s in enumerate(src):
                if isinstance(res[k], Exception): res[k] = comp(s)
        for s, r in zip(src, res):
            if isinstance(r, Exception): self.problems.append('%s: %s' % (s, str(r)[:300])); continue
            try: self.prog.add_dump(s, r[0], r[1], REPO)
            except Exception as e: self.problems.append('%s: front end: %s' % (s, e))
G = {}
class Timeout(Exception): pass
def job(a):
    pi, ci, lim = a; p = G['pub'][pi]; c = cases(p['shape'])[ci]
    import signal
    def h(*_): raise Timeout()
    t1 = time.time(); signal.signal(signal.SIGALRM, h); signal.setitimer(signal.ITIMER_REAL, max(1, lim), 2)
    try: r = verify2(G['fns'], G['globs'], G['keys'][p['id']], p, c, G['P'])
    except Timeout: r = dict(case=c[0], obl=1, byint=0, fail=[], err='time limit of %d s' % lim, z3=0, z3t=0, t=float(lim), loops=[], rec=0, recok=0)
    except Exception as e: r = dict(case=c[0], obl=1, byint=0, fail=[], err='time limit of %d s' % lim if time.time() - t1 > lim - 1 else '%s: %s' % (type(e).__name__, e), z3=0, z3t=0, t=time.time() - t1, loops=[], rec=0, recok=0)
    except MemoryError: r = dict(case=c[0], obl=1, byint=0, fail=[], err='memory', z3=0, z3t=0, t=0.0, loops=[], rec=0, recok=0)
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
    return pi, r
def order(p, c):
    """long cases first"""
    if p['shape'] != 'iz': return 0 if p['shape'] != 'z' else -10
    d = c[2]
    if c[1] != 'nC' or len(d) < 3: return 0
    x = d[0]; n = d[2]
    return -{-2**63: 1, -1100: 8, -300: 6, -30: 3, -1: 1, 7: 2}.get(n[0], 1)*(4 if x < 0.51 else 2 if 1.9 < x < 2.1 else 1)
def ublib(work):
    """native library that stops at undefined behaviour"""
    out = {}
    for l in ('cpp', 'c', 'f90'):
        so = os.path.join(work, 'libub%s.so' % l); s = sources((l,)); d = os.path.join(REPO, 'src', {'f90': 'fortran'}.get(l, l))
        cmd = {'cpp': ['g++', '-std=c++11', '-I' + d], 'c': ['gcc', '-std=c11', '-I' + d], 'f90': ['gfortran', '-J' + work]}[l] + ['-O1', '-g', '-fPIC', '-shared', SAN + ',bounds', '-fsanitize-undefined-trap-on-error', '-fno-sanitize-recover=all'] + s + ['-o', so, '-lm']
        r = sh(cmd, timeout=300)
        if r.returncode == 0: out[l] = so
    return out
PTS = ['0.7', '1e-310', '5e-324', '1e-160', '1e-155', '1e-5', '1e-10', '1e-16', '0.75', '1.4', '0.512', '4.2e-308', '1e308', '9.2e18', '1.8446744073709552e19', '4.6e18', '1e19', '2.9e19', '5.8e19']
def main(prop):
    import multiprocessing as mp
    chk = Check(prop, 'proof'); work = scratch(); libs = ublib(work); ex = San(work); chk.notes += ex.problems; t0 = time.time(); sys.setrecursionlimit(20000)
    pub = E.public(); keys = {p['id']: ex.find(p['lang'], p['sym']) for p in pub}
    text = ex.emit(sorted(set(k for k in keys.values() if k)), os.path.join(work, 'san.ir')); fns, globs = irx.parse(text); consts = native.constants(text)[:1500] + PTS
    G.update(pub=pub, keys=keys, fns=fns, globs=globs, P=set(keys[p['id']] for p in pub if p['shape'] in 'rz'))
    def nat(p, t):
        ns = None if p['shape'] in 'rz' else native.NS + native.NSNEG + native.BIG + ([-1000, -1100, -1074, -300, -30, 26, 30, -200] if p['shape'] != 'i' else native.TAB)
        return native.hit(native.run(libs, p, 'run', t, consts, ns=ns, lim=10))
    with ThreadPoolExecutor(8) as te: pre = list(te.map(lambda p: nat(p, 6 if p['shape'] == 'iz' else 0.7), pub))   # cheap falsification first
    lim = 240 if not THOROUGH else 1500; total = 500 if not THOROUGH else 4*3600
    jobs = [(order(p, c) + (1000 if pre[pi] else 0), pi, ci) for pi, p in enumerate(pub) if keys[p['id']] for ci, c in enumerate(cases(p['shape']))]; jobs.sort()
    res = {pi: [] for pi in range(len(pub))}
    with mp.get_context('fork').Pool(8, maxtasksperchild=20) as pool:
        it = pool.imap_unordered(jobT, [(pi, ci, 4 if pre[pi] else lim, t0 + total) for _, pi, ci in jobs])
        for pi, r in it:
            res[pi].append(r)
            if os.environ.get('UBLOG'): print('%6.1f %s | %s | obl %d fail %d t %.1f z3 %d %.1f err %s' % (time.time() - t0, pub[pi]['id'], r['case'], r['obl'], len(r['fail']), r['t'], r['z3'], r['z3t'], r['err']), file=open(os.environ['UBLOG'], 'a'), flush=True)
    z3n = z3t = 0; loops = {}
    bad = {pi: any(r['err'] or r['fail'] for r in res[pi]) for pi in res}
    with ThreadPoolExecutor(8) as te: nats = dict(zip(range(len(pub)), te.map(lambda a: pre[a[0]] or (nat(a[1], 20 if not THOROUGH else 60) if bad[a[0]] or THOROUGH else None), enumerate(pub))))
    for pi, p in enumerate(pub):
        name = 'no undefined behaviour, terminates: %s' % p['id']; rs = res[pi]; obl = sum(max(1, r['obl']) for r in rs); fails = []; tool = []
        if not keys[p['id']]: tool = ['symbol not found']
        for r in rs:
            z3n += r['z3']; z3t += r['z3t']
            for a, b, c in r['loops']: loops[a] = max(loops.get(a, 0), c)
            if r['err']: tool.append('%s: %s' % (r['case'], r['err']))
            for k, m in r['fail']: fails.append(dict(case=r['case'], obligation=k, model=m))
        nb = len(fails) + len(tool)
        chk.functions.append(dict(function=p['id'], symbol=p['sym'], contract='requires true; no signed overflow, shift or float-to-int overflow, division by zero, out-of-bounds access; terminates', cases=len(rs), obligations=obl, by_interval=sum(r['byint'] for r in rs), recursive_calls=sum(r['rec'] for r in rs), seconds=round(sum(r['t'] for r in rs), 1)))
        chk.obligation(name, nb == 0, n=max(obl, 1), d=max(obl, 1) - min(nb, max(obl, 1)))
        r = nats[pi]
        if r:
            chk.violation(name, dict(function=p['id'], key=p['id'], failed=fails[:20], tool=tool[:20], replay=r, message=r['message']), True)
        elif fails:
            chk.violation(name, dict(function=p['id'], key=p['id'], failed=fails[:20], message='obligation not discharged; no failing input found'), False)
        if tool: chk.bounded.append('%s: %d of %d cases beyond the verifier (%s); sampled natively for 20 s under UBSan with a watchdog' % (p['id'], len(tool), len(rs), '; '.join(tool)[:400]))
    chk.solver = z3t; chk.extra = dict(z3_queries=z3n, loops_unrolled={k: v for k, v in sorted(loops.items())})
    chk.trusted = ['GCC front end and its UBSan instrumentation (which makes the conditions of undefined behaviour explicit in GIMPLE)', 'z3 4.x (integer path conditions)', 'interval/modulus domain of engine/ub.py', 'range contracts of libm (pow, exp, log, tgamma, sin, cos, hypot, ...)']
    chk.assumptions = ['IEEE-754 round to nearest, no traps enabled', 'libm functions terminate and have no undefined behaviour']
    return chk.finish()
def jobT(a):
    pi, ci, lim, dead = a; left = dead - time.time()
    if left < 3: return pi, dict(case=cases(G['pub'][pi]['shape'])[ci][0], obl=1, byint=0, fail=[], err='time budget of the check used up', z3=0, z3t=0, t=0.0, loops=[], rec=0, recok=0)
    return job((pi, ci, min(lim, left)))
if __name__ == '__main__': sys.exit(main('C13'))
