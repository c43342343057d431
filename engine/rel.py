"""C14 / C15: relational contracts  f(-x) = +-f(x)  and  f(conj z) = conj f(z)  (numeric equality: NaN equals NaN, +0 equals -0).
Product program: f is executed symbolically on both arguments, path by path; all values are hash-consed terms from which signs have been
pulled out by rules that hold exactly for IEEE-754 round-to-nearest arithmetic:
   (-a)*b = -(a*b), (-a)/b = -(a/b), (-a)+(-b) = -(a+b) [up to the sign of a zero], a+b = b+a, fmod(-a,b) = -fmod(a,b), sin(-a) = -sin a,
   cos, fabs, hypot, log|.| even, atan2(-y,x) = -atan2(y,x), complex products/quotients conj-equivariant.
A value whose zero sign is not settled by these rules is 'weak'; operations that can see the sign of a zero (division, atan2, copysign)
do not use the rules on weak operands unless the operand is known to be non-zero or the operation is known not to look."""
import sys, os, re, time
from fractions import Fraction
import irx, entries as E, native
from machine import *
from vlib import *
import struct
INF = float('inf'); sys.set_int_max_str_digits(0); sys.setrecursionlimit(20000)
class V:   # real value: sign * node ; ex: exact form (sign, exact node) ; weak: the sign of a zero may differ
    __slots__ = ('s', 'n', 'ex', 'weak')
    def __init__(self, s, n, ex=None, weak=False): self.s = s; self.n = n; self.ex = ex or (s, n); self.weak = weak
    def __eq__(self, o): return isinstance(o, V) and (self.s, self.n, self.ex, self.weak) == (o.s, o.n, o.ex, o.weak)
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.s, self.n, self.ex))
    def __neg__(self): return V(-self.s, self.n, (-self.ex[0], self.ex[1]), self.weak)
class Cx:
    __slots__ = ('re', 'im')
    def __init__(self, a, b): self.re = a; self.im = b
    def __eq__(self, o): return isinstance(o, Cx) and self.re == o.re and self.im == o.im
    def __ne__(self, o): return not self == o
class Iv:   # integer / boolean value: concrete or node
    __slots__ = ('k', 'n')
    def __init__(self, k, n=None): self.k = k; self.n = n
    def __eq__(self, o): return isinstance(o, Iv) and self.k == o.k and self.n == o.n
    def __ne__(self, o): return not self == o
NODES = {}; DEF = []
def mk(*key):
    if key in NODES: return NODES[key]
    NODES[key] = len(DEF); DEF.append(key); return NODES[key]
def rnd(v, ty):
    if ty == 'f64': return Fraction(float(v))
    if ty == 'f32': return Fraction(struct.unpack('<f', struct.pack('<f', float(v)))[0])
    return Fraction(v)
def konst(v, ty='f64'):
    if isinstance(v, str):
        t = v.lstrip('-')
        if t.lower() in ('inf', 'infinity'): return V(-1 if v[0] == '-' else 1, mk('inf'))
        if 'an' in t: return V(1, mk('nan'))
        s = -1 if v[0] == '-' else 1
        return V(s, mk('k', Fraction(t)))
    return V(-1 if v < 0 else 1, mk('k', abs(Fraction(v))))
ZERO = konst('0')
def isk(v): return DEF[v.n][0] == 'k'
def kval(v): return v.s*DEF[v.n][1]
def iszero(v): return isk(v) and DEF[v.n][1] == 0
def exn(v): return mk('ex', v.ex[1]) if v.ex[1] != v.n else v.n
class Facts:
    """st.facts: ('c', node) -> (lo, lo_closed, hi, hi_closed, nan possible, excluded) ; ('p', a, b) -> frozenset of {-1,0,1,'u'} (b: signed node) ; ('i', node) -> integer constraints"""
class Sym(Machine):
    budget = 200000
    def __init__(self, fns, globs): super().__init__(fns, globs); self.lemmas = set()
    def const(self, ty, t): return konst(t, ty)
    def cint(self, ty, v): return Iv(v)
    def intval(self, v): return v.k if isinstance(v, Iv) else None
    def ev(self, st, a, fr, ty=None):
        v = super().ev(st, a, fr, ty)
        if isinstance(v, Iv) and v.k is None:
            k = self.evalint(st, v.n)
            if k is not None: return Iv(k)
        return v
    def evalint(self, st, n):
        f = st.facts.get(('i', n))
        if f and f[0] == f[1]: return f[0]
        d = DEF[n]
        if d[0] != 'int': return None
        import nanprop
        v = [o[1] if o[0] == 'k' else self.evalint(st, o[1]) for o in d[3:]]
        return None if None in v else nanprop.Nan.iop(d[1], d[2], v)
    def cplx(self, a, b): return Cx(a, b)
    def re(self, v): return v.re
    def im(self, v): return v.im
    def join(self, a, b): raise Undecided()
    def top(self, ty): raise Unknown('unknown value')
    def load_any(self, ty, cells): raise Unknown('load at a symbolic index')
    # ---- numeric facts about nodes
    def rng(self, st, n):
        f = st.facts.get(('c', n))
        if f: return f
        d = DEF[n]; r = (-INF, True, INF, True, True, frozenset())
        k = d[0]
        if k == 'k': r = (d[1], True, d[1], True, False, frozenset())
        elif k == 'inf': r = (INF, True, INF, True, False, frozenset())
        elif k == 'nan': r = (INF, False, -INF, False, True, frozenset())
        elif k in ('abs', 'hypot'):
            q = [self.rng(st, x) for x in d[1:]]; r = (0, not any(0 in x[5] or x[0] > 0 or (x[0] == 0 and not x[1]) for x in q), INF, True if k == 'hypot' else any(x[3] and x[2] == INF or x[1] and x[0] == -INF for x in q), any(x[4] for x in q), frozenset())
        elif k in ('sqrt', 'exp', 'exp2'): r = (0, True, INF, True, True, frozenset())
        elif k == 'mul' and d[1] == d[2]: r = (0, True, INF, True, self.rng(st, d[1])[4], frozenset())
        elif k in ('mul', 'div'):
            a, b = self.rng(st, d[1]), self.rng(st, d[2]); pos = self.nonneg(a) and self.nonneg(b)
            nan = a[4] or b[4] or k == 'div' or (self.canbe0(a) and self.canbeinf(b)) or (self.canbe0(b) and self.canbeinf(a))
            r = (0 if pos else -INF, True, INF, True, nan, frozenset())
        elif k == 'add':
            a, b = self.vrng(st, d[1], d[2]), self.vrng(st, d[3], d[4])
            nan = a[4] or b[4] or (a[2] == INF and a[3] and b[0] == -INF and b[1]) or (b[2] == INF and b[3] and a[0] == -INF and a[1])
            lo, hi, lc, hc = -INF, INF, True, True
            if self.nonneg(a) and self.nonneg(b): lo, lc = 0, self.closed0(a) and self.closed0(b)
            if a[2] <= 0 and b[2] <= 0: hi, hc = 0, self.closed0(self.neg(a)) and self.closed0(self.neg(b))
            S = lambda u, v, sg: u if u in (-INF, INF) else v if v in (-INF, INF) else (lambda t: t + sg*abs(t)/2**20 if abs(t) < 2**60 and (t == 0 or abs(t) > Fraction(1, 2**60)) else sg*INF)(Fraction(u) + Fraction(v))
            l2, h2 = S(a[0], b[0], -1), S(a[2], b[2], 1)
            if l2 > lo: lo, lc = l2, True
            if h2 < hi: hi, hc = h2, True
            r = (lo, lc, hi, hc, nan, frozenset())
            for (s1, n1, s2, n2) in ((d[1], d[2], d[3], d[4]), (d[3], d[4], d[1], d[2])):   # fl(c + v) with v != -c is not zero
                if DEF[n1][0] == 'k':
                    c = s1*DEF[n1][1]; f = self.vrng(st, s2, n2)
                    if -c in f[5] or f[0] > -c or f[2] < -c or (f[0] == -c and not f[1]) or (f[2] == -c and not f[3]): r = r[:5] + (r[5] | {0},); self.lemmas.add('a != b implies fl(a - b) != 0 (gradual underflow)')
                    if DEF[n1][1] == 0: r = f
                    if f[0] >= 0 and c > 0: r = (c, True) + r[2:]
                    if f[2] <= 0 and c < 0: r = r[:2] + (c, True) + r[4:]
        elif k == 'atan2':
            a, b = self.rng(st, d[1]), self.vrng(st, d[2], d[3])
            r = (0 if self.nonneg(a) else Fraction(-7, 2), True, Fraction(7, 2), True, a[4] or b[4], frozenset())
        elif k == 'clogre':
            q = [self.vrng(st, *x) for x in d[1:]]; r = (-INF, True, INF, True, any(x[4] for x in q), frozenset())
        elif k in ('cdre', 'cdim') and DEF[d[1][0][1]] == ('k', 1) and DEF[d[1][1][1]] == ('k', 0):
            q = [self.vrng(st, *x) for x in d[1][2:]]
            if not any(x[4] for x in q): r = (-INF, True, INF, True, False, frozenset()); self.lemmas.add('1/z is not NaN unless z is (complex division of libgcc)')
        elif k == 'fmod':
            a = self.rng(st, d[1])
            if self.nonneg(a): r = (0, True, INF, True, True, frozenset())
        return r
    def vrng(self, st, s, n):
        r = self.rng(st, n)
        return r if s > 0 else (-r[2], r[3], -r[0], r[1], r[4], frozenset(-x for x in r[5]))
    @staticmethod
    def canbe0(r): return r[0] <= 0 <= r[2] and not (r[0] == 0 and not r[1]) and not (r[2] == 0 and not r[3]) and 0 not in r[5]
    @staticmethod
    def canbeinf(r): return (r[2] == INF and r[3]) or (r[0] == -INF and r[1])
    @staticmethod
    def neg(r): return (-r[2], r[3], -r[0], r[1], r[4], frozenset(-x for x in r[5]))
    @staticmethod
    def nonneg(r): return r[0] >= 0
    @staticmethod
    def closed0(r): return not (r[0] > 0 or (r[0] == 0 and (not r[1] or 0 in r[5])))
    def nonzero(self, st, v):
        r = self.rng(st, v.n); return r[0] > 0 or r[2] < 0 or (r[0] == 0 and not r[1]) or (r[2] == 0 and not r[3]) or 0 in r[5]
    def sign(self, st, v):
        """+1 if v > 0 known, -1 if v < 0 known, 0 if zero known, else None (NaN never excluded from None)"""
        r = self.vrng(st, v.s, v.n)
        if r[4]: return None
        if r[0] > 0 or (r[0] == 0 and (not r[1] or 0 in r[5])): return 1
        if r[2] < 0 or (r[2] == 0 and (not r[3] or 0 in r[5])): return -1
        if r[0] == r[2] == 0: return 0
        return None
    # ---- terms
    def fold(self, f, a, b):
        if isk(a) and isk(b) and self.ty in ('f64', 'f32'):
            r = f(kval(a), kval(b))
            if r is not None:
                try: return konst(rnd(r, self.ty))
                except OverflowError: return None
    def finite(self, st, v):
        r = self.rng(st, v.n); return not r[4] and r[0] > -INF and r[2] < INF
    def mul(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if iszero(x) and not isk(y) and self.finite(st, y): return V(1, ZERO.n, (x.ex[0]*y.ex[0], mk('mul', *sorted([x.ex[1], y.ex[1]]))), True)
        if isk(a) and isk(b) and (iszero(a) or iszero(b)): return V(a.s*b.s, ZERO.n)
        r = self.fold(lambda x, y: x*y if x*y else None, a, b)
        if r is not None and not iszero(r): return r
        x, y = sorted([a.n, b.n]); ex = None
        if a.ex[1] != a.n or b.ex[1] != b.n: e = sorted([a.ex[1], b.ex[1]]); ex = (a.ex[0]*b.ex[0], mk('mul', *e))
        one = mk('k', Fraction(1))
        if a.n == one: return V(a.s*b.s, b.n, (a.ex[0]*b.ex[0], b.ex[1]), b.weak)
        if b.n == one: return V(a.s*b.s, a.n, (a.ex[0]*b.ex[0], a.ex[1]), a.weak)
        return V(a.s*b.s, mk('mul', x, y), ex, a.weak or b.weak)
    def div(self, st, a, b):
        if b.n == mk('k', Fraction(1)): return V(a.s*b.s, a.n, (a.ex[0]*b.ex[0], a.ex[1]), a.weak)
        if iszero(a) and isk(b) and not iszero(b): return V(a.s*b.s, ZERO.n)
        ex = (a.ex[0]*b.ex[0], mk('div', a.ex[1], b.ex[1]))
        if b.weak and not self.nonzero(st, b): return V(a.s*b.ex[0], mk('divx', a.n, exn(b)), None, a.weak)
        return V(a.s*b.s, mk('div', a.n, b.n), ex, a.weak)
    def add(self, a, b):
        x, y = sorted([(a.n, a.s), (b.n, b.s)]); e1, e2 = sorted([(a.ex[1], a.ex[0]), (b.ex[1], b.ex[0])])
        ex = (1, mk('add', e1[1], e1[0], e2[1], e2[0]))
        if iszero(a) and iszero(b) and not (a.weak or b.weak): return V(-1 if a.s < 0 and b.s < 0 else 1, ZERO.n)
        if isk(a) and iszero(b) and not iszero(a): return V(a.s, a.n)
        if isk(b) and iszero(a) and not iszero(b): return V(b.s, b.n)
        if iszero(a): return V(b.s, b.n, ex, True)
        if iszero(b): return V(a.s, a.n, ex, True)
        if a.n == b.n and a.s != b.s: return V(1, mk('sub0', a.n), ex, True)
        r = self.fold(lambda x, y: x + y if x + y else None, a, b)
        if r is not None and not iszero(r): return r
        s = x[1]
        n = mk('add', 1, x[0], y[1]*s, y[0])
        if s == 1 and (e1, e2) == (x, y): return V(1, n)   # canonical = exact
        return V(s, n, ex, True)
    def func(self, name, *args):
        return V(1, mk(name, *[(a.s, a.n) if isinstance(a, V) else a for a in args]))
    def absv(self, st, a):
        s = self.sign(st, a)
        if s == 1 or s == 0: return a if s else V(1, a.n)
        if s == -1: return -a
        return V(1, mk('abs', a.n))
    def cmul(self, a, b):
        # a component that is a literal zero is treated as having either sign
        q = [a.re, a.im, b.re, b.im]
        if iszero(a.im) and iszero(b.im): pass
        s = [v.s for v in q]; n = [v.n for v in q]; z = [iszero(v) for v in q]
        fr = fi = 1
        def first(i, j): return s[i] if not z[i] else s[j] if not z[j] else 1
        if first(0, 1) < 0: s[0] = -s[0]; s[1] = -s[1]; fr = -fr; fi = -fi
        if first(2, 3) < 0: s[2] = -s[2]; s[3] = -s[3]; fr = -fr; fi = -fi
        c = None
        for i, o in ((1, 0), (3, 2)):
            if not z[i] and not z[o]: c = s[i]; break
        if c is not None and c < 0: s[1] = -s[1]; s[3] = -s[3]; fi = -fi
        for i in range(4):
            if z[i]: s[i] = 1
        p, r = (s[0], n[0], s[1], n[1]), (s[2], n[2], s[3], n[3])
        # commutativity: choose the smaller representation, re-canonicalising the conjugation for the swapped order
        best = None
        for (u, w) in ((p, r), (r, p)):
            f = 1; u, w = list(u), list(w)
            for x in (u, w):
                if not DEF[x[3]] == ('k', 0) and not DEF[x[1]] == ('k', 0):
                    if x[2] < 0: f = -1
                    break
            if f < 0:
                for x in (u, w):
                    if DEF[x[3]] != ('k', 0): x[2] = -x[2]
            k = (tuple(u), tuple(w))
            if best is None or k < best[0]: best = (k, f)
        k, f = best; fi *= f
        ex = [('x',) + v.ex for v in q]; exr = (1, mk('cmulre', *ex)); exi = (1, mk('cmulim', *ex))
        return Cx(V(fr, mk('cmre', k), exr, True), V(fi, mk('cmim', k), exi, True))
    def cdiv(self, st, a, b):
        q = [a.re, a.im, b.re, b.im]; s = [v.s for v in q]; n = [v.n for v in q]; z = [iszero(v) for v in q]; fr = fi = 1
        ex = [('x',) + v.ex for v in q]; exr = (1, mk('cdivre', *ex)); exi = (1, mk('cdivim', *ex))
        # a zero denominator would show signs of zeros
        if not (self.nonzero(st, b.re) or self.nonzero(st, b.im)) and (b.re.weak or b.im.weak):
            if not self.denom_ok(st, b): return Cx(V(1, exr[1]), V(1, exi[1]))
        def first(i, j): return s[i] if not z[i] else s[j] if not z[j] else 1
        if first(0, 1) < 0: s[0] = -s[0]; s[1] = -s[1]; fr = -fr; fi = -fi
        if first(2, 3) < 0: s[2] = -s[2]; s[3] = -s[3]; fr = -fr; fi = -fi
        c = None
        for i, o in ((1, 0), (3, 2)):
            if not z[i] and not z[o]: c = s[i]; break
        if c is not None and c < 0: s[1] = -s[1]; s[3] = -s[3]; fi = -fi
        for i in range(4):
            if z[i]: s[i] = 1
        k = tuple(zip(s, n))
        return Cx(V(fr, mk('cdre', k), exr, True), V(fi, mk('cdim', k), exi, True))
    def denom_ok(self, st, b):
        return False
    def atan2(self, st, y, x):
        xs = self.vrng(st, x.s, x.n)
        if y.weak and not self.nonzero(st, y):
            pos = xs[0] > 0 or (xs[0] == 0 and not xs[1])
            if pos or self.recip_lemma(st, y, x): return V(y.s, mk('atan2', y.n, x.s, x.n), (1, mk('atan2', ('x',) + y.ex, ('x',) + x.ex)), True)
            return V(y.ex[0], mk('atan2x', exn(y), x.s, x.n))
        if x.weak and not self.nonzero(st, x) and not self.nonzero(st, y): return V(y.s, mk('atan2x', y.n, x.ex[0], exn(x)))
        return V(y.s, mk('atan2', y.n, x.s, x.n), None if not (y.weak or x.weak) else (1, mk('atan2', ('x',) + y.ex, ('x',) + x.ex)), y.weak)
    def recip_lemma(self, st, y, x):
        """y = Im(-+1/z), x = 1 + Re(-+1/z) and |z| > 1 on this path: then y = 0 implies x >= 0"""
        d = DEF[y.n]
        if d[0] != 'cdim': return False
        k = d[1]
        if not (DEF[k[0][1]] == ('k', 1) and DEF[k[1][1]] == ('k', 0)): return False
        (s1, a), (s2, b) = k[2], k[3]
        ok = False
        A = mk('abs', a) ; 
        for key, f in st.facts.items():
            if key[0] == 'c':
                e = DEF[key[1]]
                if e[0] == 'hypot' and {self.base(e[1]), self.base(e[2])} == {a, b} and f[0] >= 1: ok = True
                if e[0] == 'add' and {e[2], e[4]} == {mk('mul', a, a), mk('mul', b, b)} and f[0] >= 1: ok = True
        sq = {mk('mul', a, a), mk('mul', b, b)}
        def norm2(n): e = DEF[n]; return e[0] == 'add' and {e[2], e[4]} == sq and e[1] == e[3] == 1
        for key, f in st.facts.items():   # nz > 2 Re z with Re z >= 1/2
            if key[0] == 'p':
                for (n1, n2, gt) in ((key[1], key[3], {1}), (key[3], key[1], {-1})):
                    e, h = DEF[n1], mk('k', Fraction(1, 2))
                    if key[2] > 0 and f <= gt:
                        if norm2(n1) and DEF[n2] == ('mul', *sorted([a, mk('k', Fraction(2))])) and self.rng(st, a)[0] >= Fraction(1, 2): ok = True
                        if e[0] == 'mul' and h in e[1:] and norm2([x for x in e[1:] if x != h][0]) and n2 == a and self.rng(st, a)[0] >= Fraction(1, 2): ok = True
        if ok: self.lemmas.add('|z| > 1 and Im fl(1/z) = 0 imply |Re fl(1/z)| <= 1 (complex division of libgcc)')
        return ok
    @staticmethod
    def base(n): return DEF[n][1] if DEF[n][0] == 'abs' else n
    def clog(self, st, z): return Cx(self.func('clogre', self.absk(st, z.re), self.absk(st, z.im)), self.atan2(st, z.im, z.re))
    def absk(self, st, v): return V(1, v.n) if DEF[v.n][0] == 'k' else V(1, mk('abs', v.n)) if self.sign(st, V(1, v.n)) != 1 else V(1, v.n)
    def op(self, st, op, ty, a, i):
        self.ty = ty if ty[0] != 'c' else EL[ty]
        if op == 'mov': return a[0]
        if ty[0] == 'f':
            if op == 'neg': return -a[0]
            if op == 'abs': return self.absv(st, a[0])
            if op == 'add': return self.add(a[0], a[1])
            if op == 'sub': return self.add(a[0], -a[1])
            if op == 'mul': return self.mul(st, a[0], a[1])
            if op == 'div': return self.div(st, a[0], a[1])
            if op == 're': return a[0].re
            if op == 'im': return a[0].im
            if op == 'cvt':
                if isinstance(a[0], Iv): return konst(rnd(a[0].k, ty)) if a[0].k is not None else V(1, mk('cvt', ty, ('i', a[0].n)))
                if isk(a[0]) and ty != 'f80': return konst(rnd(kval(a[0]), ty)) if not iszero(a[0]) else a[0]
                return V(a[0].s, mk('cvt', ty, a[0].n), (a[0].ex[0], mk('cvt', ty, a[0].ex[1])), a[0].weak)
            if op in ('max', 'min'): return self.func(op, *sorted(a, key=lambda v: (v.n, v.s)))
        elif ty[0] == 'c':
            if op == 'cplx': return Cx(a[0], a[1])
            if op == 'neg': return Cx(-a[0].re, -a[0].im)
            if op == 'conj': return Cx(a[0].re, -a[0].im)
            if op == 'add': return Cx(self.add(a[0].re, a[1].re), self.add(a[0].im, a[1].im))
            if op == 'sub': return Cx(self.add(a[0].re, -a[1].re), self.add(a[0].im, -a[1].im))
            if op == 'mul': return self.cmul(a[0], a[1])
            if op == 'div': return self.cdiv(st, a[0], a[1])
            if op == 'cvt': return Cx(self.op(st, 'cvt', EL[ty], [a[0].re], i), self.op(st, 'cvt', EL[ty], [a[0].im], i))
        elif ty == 'ptr' and op == 'add':
            p = a[0]; k = self.intval(a[1]); return ('ptr', p[1], None if p[2] is None or k is None else p[2] + k)
        elif a and isinstance(a[0], V):   # float comparison to bool, float to int
            if op in CMP:
                r = self.decide_f(st, op, a[0], a[1])
                if r is not None: return Iv(int(r))
                return Iv(None, mk('cmp', op, (a[0].s, a[0].n), (a[1].s, a[1].n)))
            return Iv(None, mk(op, ty, (a[0].s, a[0].n)))
        elif a and isinstance(a[0], Iv):
            import nanprop
            v = [x.k for x in a]
            if None not in v:
                r = nanprop.Nan.iop(op, ty, v)
                if r is not None: return Iv(r)
            ops = [('k', x.k) if x.k is not None else ('i', x.n) for x in a]
            if op in ('add', 'mul', 'and', 'or', 'xor'): ops = sorted(ops, key=str)
            if op == 'and' and ('k', 0) in ops: return Iv(0)
            n = mk('int', op, ty, *ops)
            par = self.parity(st, ('i', n))
            if par is not None and op == 'and' and ('k', 1) in ops: return Iv(par)
            if par is not None and ty == 'bool': return Iv(par)
            return Iv(None, n)
        raise Unknown('operation %s %s' % (op, ty))
    def parity(self, st, o):
        if o[0] == 'k': return o[1] & 1 if o[1] is not None else None
        n = o[1]
        if ('par', n) in st.facts: return st.facts[('par', n)]
        d = DEF[n]
        if d[0] != 'int': return None
        op = d[1]; p = [self.parity(st, x) for x in d[3:]]
        if op in ('add', 'sub', 'xor'): return None if None in p else (p[0] ^ p[1])
        if op == 'bnot': return None if p[0] is None else 1 - p[0]
        if op == 'neg': return p[0]
        if op in ('and', 'mul'):
            if 0 in p: return 0
            if None not in p: return p[0] & p[1]
            return None
        if op in ('cvt', 'mov'): return p[0]
        if op == 'mod' and d[4] in (('k', 2), ('k', -2)): return p[0]
        return None
    # ---- comparisons
    def norm(self, a, b):
        """-> key and orientation: compare node x with value y"""
        if isk(a) and not isk(b) or DEF[a.n][0] == 'inf': k, f = self.norm(b, a) if not (isk(b) or DEF[b.n][0] == 'inf') else (None, 1); return (k, -f)
        f = 1
        if a.s < 0: a, b, f = -a, -b, -1
        if isk(b): return ('c', a.n, kval(b)), f
        if DEF[b.n][0] == 'inf': return ('c', a.n, b.s*INF), f
        # two nodes
        if b.n < a.n:
            # a ? b  ==  sign-normalise b to be the left operand
            if b.s > 0: return ('p', b.n, 1, a.n), -f
            return ('p', b.n, -1, a.n), f       # a ? -b  <=>  b ? -a
        return ('p', a.n, b.s, b.n), f
    def rel(self, st, key):
        if key[0] == 'c':
            lo, lc, hi, hc, nan, ex = self.rng(st, key[1]); c = key[2]; r = set()
            if lo < c and (lo < hi): r.add(-1)
            if lo < c and lo == hi: r.add(-1)
            if (lo < c or (lo == c and lc)) and (c < hi or (c == hi and hc)) and c not in ex: r.add(0)
            if hi > c: r.add(1)
            if lo > hi: r = set()
            if nan: r.add('u')
            return r
        f = st.facts.get(key)
        if f is not None: return set(f)
        if key[1] == key[3] and key[2] > 0: return {0, 'u'}
        r = {-1, 0, 1, 'u'}
        a, b = self.rng(st, key[1]), self.vrng(st, key[2], key[3])
        if not a[4] and not b[4]: r.discard('u')
        if a[0] > b[2]: r -= {-1, 0}
        if a[2] < b[0]: r -= {1, 0}
        return r
    def restrict(self, st, key, rs):
        """new facts or None"""
        if key[0] == 'c':
            lo, lc, hi, hc, nan, ex = self.rng(st, key[1]); c = key[2]
            if 'u' not in rs: nan = False
            if rs == {'u'}: lo, hi, nan = INF, -INF, True
            elif not rs & {1} :
                if c < hi or (c == hi and 0 not in rs): hi, hc = c, 0 in rs and (hc or c < hi)
            if rs != {'u'} and not rs & {-1}:
                if c > lo or (c == lo and 0 not in rs): lo, lc = c, 0 in rs and (lc or c > lo)
            if 0 not in rs: ex = ex | {c}
            if nan and not rs - {'u'}: lo, hi = INF, -INF
            st.facts[('c', key[1])] = (lo, lc, hi, hc, nan, ex)
            self.propagate(st, key[1])
        else: st.facts[key] = frozenset(rs)
    def propagate(self, st, n):
        d = DEF[n]
        if d[0] == 'abs':
            lo, lc, hi, hc, nan, ex = st.facts[('c', n)]; r = self.rng(st, d[1])
            if 0 in ex or lo > 0 or (lo == 0 and not lc):
                st.facts[('c', d[1])] = r[:4] + (r[4] and nan, r[5] | {0})
    def outcomes(self, op):
        return {'lt': {-1}, 'le': {-1, 0}, 'gt': {1}, 'ge': {0, 1}, 'eq': {0}, 'ne': {-1, 1, 'u'}, 'unord': {'u'}, 'ord': {-1, 0, 1}, 'ult': {-1, 'u'}, 'ule': {-1, 0, 'u'}, 'ugt': {1, 'u'}, 'uge': {0, 1, 'u'}, 'uneq': {0, 'u'}, 'ltgt': {-1, 1}}[op]
    def decide_f(self, st, op, a, b):
        """True/False/None without changing the state"""
        if isk(a) and isk(b):
            x, y = kval(a), kval(b); r = {(x > y) - (x < y)}
        else:
            key, f = self.norm(a, b)
            if key is None: return None
            r = self.rel(st, key); r = {(-x if x != 'u' else x) if f < 0 else x for x in r}
        if not r: return None
        w = self.outcomes(op)
        return True if r <= w else False if not (r & w) else None
    def branch(self, st, op, a, b, ia, ib):
        if isinstance(a, Cx):
            # a == b  component-wise
            out = []
            for t1, s1 in self.branch(st, 'eq', a.re, b.re, None, None):
                if not t1: out.append((op == 'ne', s1)); continue
                for t2, s2 in self.branch(s1, 'eq', a.im, b.im, None, None): out.append(((op == 'eq') == t2, s2))
            return out
        if isinstance(a, V):
            if op in ('unord', 'ord') and a.n != b.n and isk(b): pass
            if op in ('unord', 'ord') and a.n == b.n: b = ZERO
            d = self.decide_f(st, op, a, b)
            if d is not None: return [(d, st)]
            key, f = self.norm(a, b)
            if key is None: raise Unknown('comparison')
            r = self.rel(st, key); w = {(-x if x != 'u' else x) if f < 0 else x for x in self.outcomes(op)}
            s2 = st.copy(); self.restrict(s2, key, r & w); self.restrict(st, key, r - w); 
            return [(True, s2), (False, st)]
        if a.k is not None and b.k is not None: return [(cmpi(op, a.k, b.k), st)]
        # boolean produced by a float comparison
        for x, y in ((a, b), (b, a)):
            if y.k in (0, 1) and x.n is not None and DEF[x.n][0] == 'cmp' and op in ('eq', 'ne'):
                _, o2, (s1, n1), (s2, n2) = DEF[x.n]
                want = (y.k == 1) == (op == 'eq')
                return [(t == want, s) for t, s in self.branch(st, o2, V(s1, n1), V(s2, n2), None, None)]
        for x, y in ((a, b), (b, a)):
            if y.k in (0, 1) and x.n is not None and op in ('eq', 'ne') and self.isbool(x.n):
                want = (y.k == 1) == (op == 'eq')
                return [(t == want, s) for t, s in self.truth(st, ('i', x.n))]
        return self.branch_int(st, op, a, b)
    def isbool(self, n):
        d = DEF[n]
        if d[0] == 'cmp': return True
        return d[0] == 'int' and d[1] in ('and', 'or', 'xor', 'bnot', 'cvt', 'mov') and (d[1] != 'bnot' or d[2] == 'bool') and all(o in (('k', 0), ('k', 1)) or o[0] == 'i' and self.isbool(o[1]) for o in d[3:])
    def truth(self, st, o):
        if o[0] == 'k': return [(bool(o[1]), st)]
        d = DEF[o[1]]
        if d[0] == 'cmp': return self.branch(st, d[1], V(*d[2]), V(*d[3]), None, None)
        out = []
        for t, s in self.truth(st, d[3]):
            if d[1] == 'bnot': out.append((not t, s))
            elif d[1] in ('cvt', 'mov'): out.append((t, s))
            elif d[1] == 'and' and not t or d[1] == 'or' and t: out.append((t, s))
            else: out += [(u if d[1] != 'xor' else t != u, s2) for u, s2 in self.truth(s, d[4])]
        return out
    def branch_int(self, st, op, a, b):
        f = 1
        if a.k is not None: a, b = b, a; op = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
        if b.k is not None:
            if op in ('eq', 'ne'):
                par = self.parity(st, ('i', a.n)); d = DEF[a.n]
                if par is not None:
                    if par != (b.k & 1): return [(op == 'ne', st)]
                    if d[0] == 'int' and (d[2] == 'bool' or (d[1] == 'mod' and d[4] == ('k', 2) and b.k == 0)): return [(op == 'eq', st)]
            lo, hi, ex = st.facts.get(('i', a.n), (-2**63, 2**64, frozenset()))
            w = {'lt': (-2**70, b.k - 1), 'le': (-2**70, b.k), 'gt': (b.k + 1, 2**70), 'ge': (b.k, 2**70)}
            out = []
            for t in (True, False):
                o = op if t else {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}[op]
                if o == 'eq': l, h, e = max(lo, b.k), min(hi, b.k), ex
                elif o == 'ne': l, h, e = lo, hi, ex | {b.k}
                else: l, h, e = max(lo, w[o][0]), min(hi, w[o][1]), ex
                par = st.facts.get(('par', a.n))
                while (l in e or par not in (None, l & 1)) and l <= h: l += 1
                while (h in e or par not in (None, h & 1)) and l <= h: h -= 1
                if l > h: continue
                if h - l < 5 and DEF[a.n][0] == 'ivar':   # few values left: one path per value
                    for v in range(l, h + 1):
                        if v not in e and par in (None, v & 1): s = st.copy(); s.facts[('i', a.n)] = (v, v, e); out.append((t, s))
                    continue
                s = st.copy(); s.facts[('i', a.n)] = (l, h, e); out.append((t, s))
            return out
        key = ('ii', a.n, b.n)
        if a.n == b.n: return [(op in ('eq', 'le', 'ge'), st)]
        if b.n < a.n: key = ('ii', b.n, a.n); op = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(op, op)
        r = st.facts.get(key, frozenset({-1, 0, 1})); w = self.outcomes(op) & {-1, 0, 1}
        if r <= w: return [(True, st)]
        if not r & w: return [(False, st)]
        s2 = st.copy(); s2.facts[key] = r & w; st.facts[key] = r - w
        return [(True, s2), (False, st)]
    def switch(self, st, v, cases, default, ia):
        k = self.intval(v)
        if k is not None: return super().switch(st, v, cases, default, ia)
        out = []; rest = [st]
        for lo, hi, x in cases:
            if lo != hi: raise Unknown('case range')
            nr = []
            for s in rest:
                for t, s2 in self.branch_int(s, 'eq', v, Iv(lo)):
                    if t: out.append((x, s2))
                    else: nr.append(s2)
            rest = nr
        return out + [(default, s) for s in rest]
    # ---- loops the domain cannot unroll: uninterpreted function of everything they read
    def loop(self, f, fr, h, pred, st, outs, depth):
        body = f.loophead[h]; self.edge_keep = None
        # inputs: phi inputs at the header from outside, registers defined outside and used inside, memory read (all cells of the state)
        defs = set(); uses = set(); phis = []
        def u(a):
            if a and a[0] == 'r': uses.add(a[1])
        for b in body:
            B = f.blocks[b]
            for d, ty, inc in B['phis']:
                defs.add((d, ty))
                for p_, a in inc.items():
                    if b == h and p_ not in body: continue
                    u(a)
            for i in B['ins']:
                if i.dst is not None: defs.add((i.dst, i.ty if i.k != 'A' else 'ptr'))
                for a in i.args: u(a)
                for l in (i.lv, i.lv2):
                    if l is not None:
                        if l.base[0] == 'p': u(l.base[1])
                        for a, s in l.idx: u(a)
                if i.k == 'S' and (i.lv.base[0] in 'gp' or i.lv.idx): raise Unknown('loop writes memory')
                if i.k in 'YU': raise Unknown('loop copies memory')
                if i.k == 'C' and not i.fn.startswith('@'): 
                    if i.fn not in self.fns or any(t == 'ptr' for t, e, r in self.fns[i.fn].params): raise Unknown('loop calls a function with memory')
                if i.k == 'C' and i.fn.startswith('@') and i.fn[1:] in ('sincos', 'modf', 'frexp'): raise Unknown('loop calls ' + i.fn)
            t = B['term']
            for a in t[1:]:
                if isinstance(a, tuple) and len(a) >= 2 and a[0] == 'r': u(a)
        dn = {d for d, t in defs}
        ins = []
        for d, ty, inc in f.blocks[h]['phis']: ins.append(self.keyof(self.ev(st, inc[pred], fr, ty)))
        for r in sorted(uses - dn):
            if r not in st.regs: raise Unknown('loop input')
            ins.append(self.keyof(st.regs[r]))
        stores = any(i.k == 'S' for b in body for i in f.blocks[b]['ins'])
        loads = any(i.k == 'L' and not (i.lv.base[0] == 'g') for b in body for i in f.blocks[b]['ins'])
        if loads or stores:
            for o in sorted(st.mem, key=str):
                for k in sorted(st.mem[o]): ins.append((str(o[1]), k, self.keyof(st.mem[o][k][1])))
        L = mk('loop', f.name, h, *ins)
        if stores: raise Unknown('loop writes memory')
        # exits: deterministic function of the same inputs; the taken exit is an uninterpreted choice
        ex = [(b, s) for b in sorted(body) for s in irx.succs(f.blocks[b]) if s not in body]
        if any(f.blocks[b]['term'][0] == 'ret' for b in body): raise Unknown('return inside a loop')
        s = st.copy()
        for d, ty in defs:
            if ty[0] == 'f': s.regs[d] = V(1, mk('lv', L, d))
            elif ty[0] == 'c': s.regs[d] = Cx(V(1, mk('lv', L, d, 0)), V(1, mk('lv', L, d, 1)))
            elif ty == 'ptr': s.regs.pop(d, None)
            else: s.regs[d] = Iv(None, mk('lv', L, d))
        key = ('exit', L); out = []
        allowed = st.facts.get(key, None)
        for b, x in ex:
            if allowed is not None and allowed != (b, x): continue
            t = s.copy(); t.facts[key] = (b, x); out.append((x, b, t))
        return out
    def keyof(self, v):
        if isinstance(v, V): return (v.s, v.n) if not v.weak else (v.s, v.n, 'w') + v.ex
        if isinstance(v, Cx): return (self.keyof(v.re), self.keyof(v.im))
        if isinstance(v, Iv): return ('i', v.k, v.n)
        return ('ptr', str(v[1]), v[2])
    # ---- library contracts
    def lib(self, st, fn, ty, a):
        n = re.sub('^__builtin_', '', fn); n = re.sub('^_gfortran_', '', n)
        b = n
        if b not in KNOWN and b[-1:] in 'lf' and b[:-1] in KNOWN: b = b[:-1]
        if b not in KNOWN: raise Unknown('no relational contract for ' + fn)
        if b in ('fabs',): return self.absv(st, a[0])
        if b in ('cabs',): return self.func2('hypot', self.absk(st, a[0].re), self.absk(st, a[0].im))
        if b == 'hypot': return self.func2('hypot', self.absk(st, a[0]), self.absk(st, a[1]))
        if b == 'clog': return self.clog(st, a[0])
        if b == 'carg': return self.atan2(st, a[0].im, a[0].re)
        if b == 'atan2': return self.atan2(st, a[0], a[1])
        if b in ('sin', 'tan', 'atan', 'asin', 'sinh', 'tanh', 'asinh', 'cbrt', 'trunc', 'round'): return V(a[0].s, mk(b, a[0].n), (a[0].ex[0], mk(b, a[0].ex[1])), a[0].weak)
        if b in ('cos', 'cosh'): return V(1, mk(b, a[0].n))
        if b == 'fmod': return V(a[0].s, mk('fmod', a[0].n, a[1].n), (a[0].ex[0], mk('fmod', a[0].ex[1], a[1].ex[1])), a[0].weak)
        if b == 'copysign':
            m = self.absv(st, a[0]); s = a[1]
            k = self.sign(st, s)
            if k in (1, -1): return m if k > 0 else -m
            if iszero(s) and not s.weak: return m if s.s > 0 else -m
            if s.weak and not self.nonzero(st, s): return V(1, mk('copysignx', m.n, s.s, exn(s)))
            return V(s.s, mk('copysign', m.n, s.n))
        if b == 'signbit':
            k = self.sign(st, a[0])
            if k in (1, -1): return Iv(int(k < 0))
            if iszero(a[0]) and not a[0].weak: return Iv(int(a[0].s < 0))
            return Iv(None, mk('signbit', a[0].ex))
        if b == 'fma': return self.func('fma', *a)
        if b == 'log1p' or b in ('log', 'log2', 'log10', 'exp', 'exp2', 'expm1', 'sqrt', 'tgamma', 'floor', 'ceil', 'fmin', 'fmax', 'pow', 'powi', 'isnan', 'isinf', 'isfinite', 'lceil', 'lround', 'lfloor', 'ldexp'):
            if b == 'pow' and isinstance(a[1], V) and isk(a[1]) and kval(a[1]).denominator == 1 or b == 'powi' and isinstance(a[1], Iv) and a[1].k is not None:
                e = int(kval(a[1])) if b == 'pow' else a[1].k
                if e > 0 and iszero(a[0]) and not a[0].weak: return V(a[0].s if e % 2 else 1, ZERO.n)
                return V(a[0].s if e % 2 else 1, mk('pow', a[0].n, e), None, a[0].weak)
            args = [((x.s, x.n) if isinstance(x, V) else ('i', x.k, x.n)) for x in a]
            if b in ('isnan', 'isinf', 'isfinite'): return Iv(None, mk(b, a[0].n))
            if b in ('lceil', 'lround', 'lfloor'): return Iv(None, mk(b, *args))
            return V(1, mk(b, *args))
        raise Unknown('no relational contract for ' + fn)
    def func2(self, name, a, b):
        x, y = sorted([a.n, b.n]); return V(1, mk(name, x, y))
KNOWN = set('fabs cabs hypot clog carg atan2 sin tan atan asin sinh tanh asinh cbrt trunc round cos cosh fmod copysign signbit fma log1p log log2 log10 exp exp2 expm1 sqrt tgamma floor ceil fmin fmax pow powi isnan isinf isfinite lceil lround lfloor ldexp'.split())
CMP = ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'unord', 'ord', 'ult', 'ule', 'ugt', 'uge', 'uneq', 'ltgt')
def cmpi(op, x, y): return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]
def equal(M, st, a, b, sgn):
    """a = sgn*b numerically (up to the sign of a zero, NaN = NaN)"""
    if not isinstance(a, V) or not isinstance(b, V): return False
    if a.n == b.n and a.s == sgn*b.s: return True
    if DEF[a.n][0] in ('sub0',) and DEF[b.n] == DEF[a.n]: return True
    if a.n == b.n:
        r = M.rng(st, a.n)
        if r[0] == r[2] == 0 or r[0] > r[2]: return True     # only zero, or only NaN
        if DEF[a.n][0] == 'nan': return True
    for x, y in ((a, b), (b, a)):    # a value known to equal a constant on this path
        r = M.vrng(st, x.s, x.n)
        if not r[4] and r[0] == r[2] and isk(y) and r[0] == (kval(y)*sgn): return True
    return False
def call(M, f, p, iargs, x, facts):
    """one symbolic run; x: list of V"""
    st = St(facts=dict(facts)); args = list(iargs); ps = f.params[len(iargs):]
    ty, el, reg = ps[0]
    v = Cx(*x) if p['shape'] in ('z', 'iz') else x[0]
    if ty == 'ptr': M.store(st, el, (0, 'arg'), 0, v); args.append(('ptr', (0, 'arg'), 0))
    else: args.append(v)
    return M.run(f.name, args, st)
def describe(st):
    out = []
    for k, v in st.facts.items():
        if k[0] == 'c' and len(out) < 20: out.append('%s in %s%.6g,%.6g%s%s%s' % (show(k[1]), '(['[v[1]], flt(v[0]), flt(v[2]), ')]'[v[3]], ' or NaN' if v[4] else '', ' excl. ' + str([flt(x) for x in v[5]]) if v[5] else ''))
        if k[0] == 'p': out.append('%s %s %s%s' % (show(k[1]), set(v), '-' if k[2] < 0 else '', show(k[3])))
    return out
def flt(x): return float(x) if abs(x) < 2**1000 else INF if x > 0 else -INF
def show(n, d=0):
    k = DEF[n]
    if k[0] == 'k': return '%.6g' % float(k[1]) if abs(k[1]) < 2**1000 else 'huge'
    if k[0] in ('var', 'ivar'): return k[1]
    if d > 5: return '..'
    S = lambda s, n: ('-' if s < 0 else '') + show(n, d + 1)
    if k[0] == 'add': return '(%s + %s)' % (S(k[1], k[2]), S(k[3], k[4]))
    if k[0] in ('mul', 'div'): return '(%s %s %s)' % (show(k[1], d + 1), '*' if k[0] == 'mul' else '/', show(k[2], d + 1))
    if k[0] in ('cmre', 'cmim', 'cdre', 'cdim'):
        if isinstance(k[1][0][0], tuple): (a, b, c, e), (f, g, h, i) = [[x for y in ((q[0], q[1]), (q[2], q[3])) for x in y] if not isinstance(q[0], tuple) else None for q in k[1]]
        elif len(k[1]) == 2: (a, b, c, e), (f, g, h, i) = k[1]
        else: (a, b), (c, e), (f, g), (h, i) = k[1]
        return '%s[(%s, %s) %s (%s, %s)]' % (k[0][2:], S(a, b), S(c, e), '*' if k[0][1] == 'm' else '/', S(f, g), S(h, i))
    def a(x): return show(x, d + 1) if isinstance(x, int) else S(*x) if isinstance(x, tuple) and len(x) == 2 and x[0] in (1, -1) else ','.join(a(y) for y in x) if isinstance(x, tuple) else str(x)
    return '%s(%s)' % (k[0], ' '.join(a(x) for x in k[1:]))
def diff(a, b, d=0):
    """smallest differing pair of sub-terms"""
    if a == b or d > 60: return None
    x, y = DEF[a], DEF[b]
    if x[0] == y[0] and len(x) == len(y):
        def ch(k):
            out = []
            def w(o):
                if isinstance(o, tuple):
                    if len(o) == 2 and o[0] in (1, -1) and isinstance(o[1], int): out.append(o)
                    elif len(o) == 4 and all(isinstance(q, int) for q in o): out.append(o[:2]); out.append(o[2:])
                    else:
                        for q in o: w(q)
            if k[0] in ('add',): return [(k[1], k[2]), (k[3], k[4])]
            for o in k[1:]:
                if isinstance(o, int): out.append((1, o))
                else: w(o)
            return out
        if x[0] not in ('k', 'var'):
            p, q = ch(x), ch(y)
            if len(p) == len(q):
                if [n for s, n in p] != [n for s, n in q]:
                    for (s1, n1), (s2, n2) in zip(p, q):
                        r = diff(n1, n2, d + 1)
                        if r: return r
    return 'smallest difference: %s  /  %s' % (show(a), show(b))
def pair(fns, globs, f, p, iargs, xa, xb, facts, cmp):
    """product run; -> (number of path pairs, discharged, failures, lemmas)"""
    M = Sym(fns, globs); n = d = 0; bad = []
    for s1, r1 in call(M, f, p, iargs, xa, facts):
        M.steps = 0
        for s2, r2 in call(M, f, p, iargs, xb, s1.facts):
            n += 1
            why = cmp(M, s2, r1, r2)
            if why: bad.append(dict(why=why, path=describe(s2)))
            else: d += 1
    return n, d, bad, M.lemmas
def var(name): return V(1, mk('var', name))
def fact(v, lo, lc, hi, hc, ex=()): return {('c', v.n): (lo, lc, hi, hc, False, frozenset(ex))}
FMAX = {'f32': Fraction(float.fromhex('0x1.fffffep127')), 'f64': Fraction(float.fromhex('0x1.fffffffffffffp1023')), 'f80': Fraction(2)**16384 - Fraction(2)**16320}
def cases14(p):
    """(name, integer args, x, -x, facts, sign)"""
    x = var('x'); r = []
    par = [(None, None)] if p['shape'] == 'r' else [(0, 'even n'), (1, 'odd n')]
    for q, nm in par:
        if q is None: sg = (-1 if p['n'] % 2 == 0 else 1); ia = []; f0 = {}
        else:
            n = Iv(None, mk('ivar', 'n')); ia = [n]; f0 = {('par', n.n): q, ('i', n.n): (-2**63, 2**63 - 1, frozenset())}
            sg = {('cl', 0): -1, ('cl', 1): 1, ('sl', 0): 1, ('sl', 1): -1}[(p['spec'], q)]
        r.append(((nm or '') + ' x > 0', ia, [x], [-x], {**f0, **fact(x, 0, False, INF, True)}, sg))
        r.append(((nm or '') + ' x = 0', ia, [ZERO], [-ZERO], f0, sg))
    return r
def cases15(p):
    x, y = var('re'), var('im')
    f = dict(fact(y, 0, False, INF, False)); f.update(fact(x, -INF, False, INF, False))
    return [('Im z > 0', [], [x, y], [x, -y], f, None)]
def cmp14(sg):
    def g(M, st, a, b): return None if equal(M, st, a, b, sg) else 'f(x) = %s%s, f(-x) = %s%s' % ('-' if a.s < 0 else '', show(a.n), '-' if b.s < 0 else '', show(b.n))
    return g
def cmp15(M, st, a, b):
    if not isinstance(a, Cx) or not isinstance(b, Cx): return 'not complex'
    if not equal(M, st, a.re, b.re, 1): return 'real parts differ: %s ... %s / %s' % (diff(a.re.n, b.re.n) or 'signs', ('-' if a.re.s < 0 else '') + show(a.re.n), ('-' if b.re.s < 0 else '') + show(b.re.n))
    if not equal(M, st, a.im, b.im, -1): return 'imaginary parts are not opposite: %s ... %s / %s' % (diff(a.im.n, b.im.n) or 'signs', ('-' if a.im.s < 0 else '') + show(a.im.n), ('-' if b.im.s < 0 else '') + show(b.im.n))
    return None
def verify(fns, globs, f, p, prop):
    n = d = 0; bad = []; tool = []; lem = set()
    for nm, ia, xa, xb, facts, sg in (cases14(p) if prop == 'C14' else cases15(p)):
        try:
            a, b, c, l = pair(fns, globs, f, p, ia, xa, xb, facts, cmp14(sg) if prop == 'C14' else cmp15)
            n += a; d += b; bad += [dict(e, case=nm) for e in c]; lem |= l
        except (Unknown, Undecided, RecursionError, KeyError) as e: tool.append('%s: %s %s' % (nm, type(e).__name__, e)); n += 1
    return n, d, bad, tool, lem
def real_of(p):
    for e in E.entries():
        if e['spec'] == 're' and (e['lang'], e['n'], e['fmt']) == (p['lang'], p['n'], p['fmt']): return e
def axis(fns, globs, f, p, g, q):
    """complex f at x +- i0 against the real g: same real part, imaginary part = the given signed zero for x <= 1"""
    n = d = 0; bad = []; tool = []; lem = set(); x, y = var('re'), var('im')
    for nm, fx in (('x <= 1', fact(x, -INF, False, Fraction(1), True)), ('x > 1', fact(x, Fraction(1), False, INF, False))):
        fx.update(fact(y, Fraction(0), True, Fraction(0), True)); M = Sym(fns, globs)
        try:
            for s1, r1 in call(M, f, p, [], [x, y], fx):
                M.steps = 0
                for s2, r2 in call(M, g, dict(q, shape='r'), [], [x], s1.facts):
                    n += 1; why = None
                    if not isinstance(r1, Cx) or not isinstance(r2, V): why = 'result types'
                    elif not equal(M, s2, r1.re, r2, 1): why = 'real part %s, real function %s (%s)' % (show(r1.re.n), show(r2.n), diff(r1.re.n, r2.n) or 'signs')
                    elif nm == 'x <= 1' and r1.im != y: why = 'imaginary part is not the given signed zero but %s%s' % ('-' if r1.im.s < 0 else '', show(r1.im.n))
                    if why: bad.append(dict(why=why, path=describe(s2), case=nm))
                    else: d += 1
        except (Unknown, Undecided, RecursionError, KeyError) as e: tool.append('%s: %s %s' % (nm, type(e).__name__, e)); n += 1
        lem |= M.lemmas
    return n, d, bad, tool, lem
def axis_all(chk, work, libs, ex):
    """C16, relational part"""
    native.binary(); t0 = time.time()
    P = [dict(e, shape='z') for e in E.entries() if e['spec'] == 'li']
    ks = {}
    for p in P:
        q = real_of(p); ks[p['id']] = (ex.find(p['lang'], p['sym']), q, q and ex.find(q['lang'], q['sym']))
    text = ex.emit(sorted(set(k for a, q, b in ks.values() for k in (a, b) if k)), os.path.join(work, 'rel.ir')); fns, globs = irx.parse(text); consts = native.constants(text)
    from concurrent.futures import ThreadPoolExecutor
    def nat(p, t):
        q = ks[p['id']][1]; return native.hit(native.run(libs, p, 'axis', t, consts, sym2=q['sym'] if q else None, order=p['n']))
    with ThreadPoolExecutor(8) as tp: quick = list(tp.map(lambda p: nat(p, 2 if not THOROUGH else 20), P))
    for p, hit in zip(P, quick):
        a, q, b = ks[p['id']]; name = 'real part and signed zero of %s on the axis' % p['id']
        if not q:
            if hit: chk.obligation(name, False); chk.violation(name, dict(function=p['id'], key=p['id'], replay=hit, message=hit['message']), True)
            continue
        tool = []; bad = []; n = d = 0; l = set()
        if not a or not b: tool.append('symbol not found')
        else: n, d, bad, tool, l = axis(fns, globs, fns[a], p, fns[b], q)
        chk.functions.append(dict(function=p['id'], symbol=p['sym'], contract='x +- i0: re = %s(x) bitwise; im = the given zero for x <= 1' % q['sym'], path_pairs=n, lemmas=sorted(l)))
        chk.obligation(name, not bad and not tool, n=max(n, 1), d=d)
        if not bad and not tool and not hit: continue
        r = hit or nat(p, 20)
        if r: chk.violation(name, dict(function=p['id'], key=p['id'], failed=[str(z)[:600] for z in bad[:5]] + tool, replay=r, message=r['message']), True)
        elif bad: chk.violation(name, dict(function=p['id'], key=p['id'], failed=[str(z)[:600] for z in bad[:5]], message='relational obligation not discharged; no failing input found'), False)
        else: chk.bounded.append('%s: beyond the verifier (%s); sampled natively only' % (p['id'], '; '.join(tool)[:300]))
    chk.solver += time.time() - t0
def mode(p, prop): return 'conj' if prop == 'C15' else ('odd' if p['n'] % 2 == 0 else 'even') if p['shape'] == 'r' else {'cl': 'clp', 'sl': 'slp'}[p['spec']]
def main(prop):
    chk = Check(prop, 'proof'); work = scratch(); libs = build_libs(work); ex = Extracted(work); chk.notes += ex.problems
    pub = [p for p in E.public() if (p['shape'] == 'z' if prop == 'C15' else p['spec'] in ('cl', 'sl'))]
    keys = {p['id']: ex.find(p['lang'], p['sym']) for p in pub}; t0 = time.time(); lem = set()
    text = ex.emit(sorted(set(k for k in keys.values() if k)), os.path.join(work, 'all.ir')); fns, globs = irx.parse(text); consts = native.constants(text)
    from concurrent.futures import ThreadPoolExecutor
    def nat(p, t): return native.hit(native.run(libs, p, mode(p, prop), t, consts, ns=native.defns(p)))
    native.binary()
    with ThreadPoolExecutor(8) as tp: quick = list(tp.map(lambda p: nat(p, 2 if not THOROUGH else 20), pub))
    for p, q in zip(pub, quick):
        k = keys[p['id']]; tool = []; bad = []; n = d = 0; l = set()
        if not k: tool.append('symbol not found')
        else: n, d, bad, tool, l = verify(fns, globs, fns[k], p, prop)
        lem |= l; name = ('parity of ' if prop == 'C14' else 'conjugation symmetry of ') + p['id']
        chk.functions.append(dict(function=p['id'], symbol=p['sym'], contract='relational, see technique', path_pairs=n, lemmas=sorted(l)))
        chk.obligation(name, not bad and not tool, n=max(n, 1), d=d)
        if not bad and not tool and not q: continue
        r = q or nat(p, 20)
        if r: chk.violation(name, dict(function=p['id'], key=p['id'], failed=[str(b)[:600] for b in bad[:5]] + tool, replay=r, message=r['message']), True)
        elif bad: chk.violation(name, dict(function=p['id'], key=p['id'], failed=[str(b)[:600] for b in bad[:5]], message='relational obligation not discharged; no failing input found'), False)
        else: chk.bounded.append('%s: beyond the verifier (%s); sampled natively only' % (p['id'], '; '.join(tool)[:300]))
    chk.solver = time.time() - t0
    chk.trusted = ['GCC front end: the GIMPLE dump is the program', 'libm: sin, fmod, atan2 odd, cos, hypot, log|.| even, deterministic; log(conj z) = conj log(z) (component contracts log hypot / atan2)', 'libgcc complex multiplication/division are equivariant under conjugation and negation of a factor (also in the Annex G recovery)', 'the symbolic engine (engine/rel.py, engine/machine.py)'] + ['lemma used: ' + x for x in sorted(lem)]
    chk.assumptions = ['round to nearest', 'equality is numeric: +0 = -0, NaN = NaN']
    return chk.finish()
if __name__ == '__main__': sys.exit(main(sys.argv[1]))
