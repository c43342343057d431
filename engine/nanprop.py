"""C18: contract  'some component of the argument is NaN  ==>  some component of the result is NaN'  for every public function,
by abstract execution over floating-point classes; complex values carry the set of (re class, im class) pairs."""
import sys, os, re, time
import irx, entries as E, native
from machine import *
from vlib import *
NAN, PI_, NI, Z, PF, NF = 1, 2, 4, 8, 16, 32
ALL = 63; CL = (NAN, PI_, NI, Z, PF, NF); NAME = {NAN: 'NaN', PI_: '+inf', NI: '-inf', Z: '0', PF: '>0', NF: '<0'}
def bits(m): return [c for c in CL if m & c]
def sgn(c): return 1 if c in (PI_, PF) else -1 if c in (NI, NF) else 0
def neg(m): return (m & (NAN | Z)) | (PI_ if m & NI else 0) | (NI if m & PI_ else 0) | (PF if m & NF else 0) | (NF if m & PF else 0)
def add1(a, b):
    if a == NAN or b == NAN: return NAN
    if a in (PI_, NI): return a if b not in (PI_, NI) or a == b else NAN
    if b in (PI_, NI): return b
    if a == Z: return b
    if b == Z: return a
    if a == b: return a | (PI_ if a == PF else NI)
    return Z | PF | NF
def mul1(a, b):
    if a == NAN or b == NAN: return NAN
    i = a in (PI_, NI) or b in (PI_, NI)
    if a == Z or b == Z: return NAN if i else Z
    s = sgn(a)*sgn(b)
    if i: return PI_ if s > 0 else NI
    return (PF | PI_ | Z) if s > 0 else (NF | NI | Z)
def div1(a, b):
    if a == NAN or b == NAN: return NAN
    ia, ib = a in (PI_, NI), b in (PI_, NI)
    if ia and ib: return NAN
    if ia: return (PI_ | NI) if b == Z else PI_ if sgn(a)*sgn(b) > 0 else NI
    if ib: return Z
    if b == Z: return NAN if a == Z else PI_ | NI
    if a == Z: return Z
    return (PF | PI_ | Z) if sgn(a)*sgn(b) > 0 else (NF | NI | Z)
def lift2(f):
    tab = {}
    def g(a, b):
        k = (a, b)
        if k not in tab:
            r = 0
            for x in bits(a):
                for y in bits(b): r |= f(x, y)
            tab[k] = r
        return tab[k]
    return g
add, mul, div = lift2(add1), lift2(mul1), lift2(div1)
IDX = {c: i for i, c in enumerate(CL)}
class CX(frozenset): pass     # set of (re class, im class)
def cx(re, im): return CX((a, b) for a in bits(re) for b in bits(im))
TOPC = cx(ALL, ALL)
def cre(c):
    r = 0
    for a, b in c: r |= a
    return r
def cim(c):
    r = 0
    for a, b in c: r |= b
    return r
def boxinf(c):  # C99 recovery: copysign(isinf ? 1 : 0)
    return PF if c == PI_ else NF if c == NI else Z
INFM = PI_ | NI
_cm = {}
def cmul1(p, q):
    k = (p, q)
    if k in _cm: return _cm[k]
    (a, b), (c, d) = p, q; out = set()
    xs = add(mul(a, c), neg(mul(b, d))); ys = add(mul(a, d), mul(b, c))
    for x in bits(xs):
        for y in bits(ys):
            if x == NAN and y == NAN:
                a2, b2, c2, d2 = a, b, c, d; rec = False
                if a in (PI_, NI) or b in (PI_, NI):
                    a2, b2 = boxinf(a), boxinf(b); c2 = Z if c == NAN else c; d2 = Z if d == NAN else d; rec = True
                if c in (PI_, NI) or d in (PI_, NI):
                    if a2 == NAN: a2 = Z
                    if b2 == NAN: b2 = Z
                    c2, d2 = boxinf(c2), boxinf(d2); rec = True
                reco = [(a2, b2, c2, d2)] if rec else []
                if not rec:
                    # products may have overflowed to infinity: NaN parts become zeros and the recovery applies; it may also not apply
                    out.add((NAN, NAN))
                    if any(v & INFM for v in (mul(a, c), mul(b, d), mul(a, d), mul(b, c))): reco = [tuple(Z if v == NAN else v for v in (a, b, c, d))]
                for A, B, C_, D in reco:
                    X = mul(PI_, add(mul(A, C_), neg(mul(B, D)))); Y = mul(PI_, add(mul(A, D), mul(B, C_)))
                    for u in bits(X):
                        for v in bits(Y): out.add((u, v))
            else: out.add((x, y))
    _cm[k] = frozenset(out); return _cm[k]
_cd = {}
FIN = (Z, PF, NF)
def cdiv1(p, q):
    k = (p, q)
    if k in _cd: return _cd[k]
    (a, b), (c, d) = p, q
    if NAN not in (a, b, c, d): r = TOPC
    elif c == Z and d == Z:   # copysign(inf, c)*a, *b
        r = cx(mul(INFM, a), mul(INFM, b))
    elif (a in (PI_, NI) or b in (PI_, NI)) and c in FIN and d in FIN:
        A, B = boxinf(a), boxinf(b)
        r = cx(mul(INFM, add(mul(A, c), mul(B, d))), mul(INFM, add(mul(B, c), neg(mul(A, d)))))
    elif (c in (PI_, NI) or d in (PI_, NI)) and a in FIN and b in FIN: r = cx(Z, Z)
    else: r = CX([(NAN, NAN)])
    _cd[k] = r; return r
def csum(f, x, y):
    o = set()
    for p in x:
        for q in y: o |= f(p, q)
    return CX(o)
def cadd1(p, q): return cx(add1(p[0], q[0]), add1(p[1], q[1]))
def hyp1(a, b):
    if a in (PI_, NI) or b in (PI_, NI): return PI_
    if a == NAN or b == NAN: return NAN
    if a == Z and b == Z: return Z
    return PF | PI_
hyp = lift2(hyp1)
def log1_(a): return {NAN: NAN, PI_: PI_, NI: NAN, Z: NI, PF: PF | NF | Z, NF: NAN}[a]
def m1(f, m):
    r = 0
    for c in bits(m): r |= f(c)
    return r
def atan2_1(y, x): return NAN if y == NAN or x == NAN else (Z | PF | NF)
FINM = Z | PF | NF
class Nan(Machine):
    def const(self, ty, v):
        if isinstance(v, str):
            if 'an' in v: return NAN
            if v.lstrip('-') in ('Inf', 'inf'): return NI if v[0] == '-' else PI_
            from fractions import Fraction
            v = Fraction(v)
        return Z if v == 0 else PF if v > 0 else NF
    def cplx(self, a, b): return cx(a, b)
    def re(self, v): return cre(v)
    def im(self, v): return cim(v)
    def top(self, ty): return ALL if ty[0] == 'f' else TOPC if ty[0] == 'c' else ('int', None)
    def join(self, a, b):
        if isinstance(a, CX): return CX(a | b)
        if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, int): return a | b
        if isinstance(a, tuple) and a[0] == 'int': return a if a == b else ('int', None)
        if a == b: return a
        raise Unknown('join of pointers')
    def cint(self, ty, v): return ('int', v)
    def intval(self, v): return v[1] if isinstance(v, tuple) and v[0] == 'int' else None
    def load_any(self, ty, cells):
        if ty[0] == 'f': 
            if not cells: return ALL
            r = 0
            for c in cells: r |= c if isinstance(c, int) else ALL
            return r
        return self.top(ty)
    def undef(self, ty): return self.top(ty)
    def op(self, st, op, ty, a, i):
        if op == 'mov': return a[0]
        if ty[0] == 'f':
            if op == 'neg': return neg(a[0])
            if op == 'abs': return m1(lambda c: PF if c == NF else PI_ if c == NI else c, a[0])
            if op == 'add': return add(a[0], a[1])
            if op == 'sub': return add(a[0], neg(a[1]))
            if op == 'mul': return mul(a[0], a[1])
            if op == 'div': return div(a[0], a[1])
            if op == 're': return cre(a[0])
            if op == 'im': return cim(a[0])
            if op == 'cvt':
                v = a[0]
                if isinstance(v, tuple): 
                    k = v[1]; return FINM if k is None else Z if k == 0 else PF if k > 0 else NF
                return m1(lambda c: c | (Z | (PI_ if c == PF else NI)) if c in (PF, NF) else c, v)
            if op in ('max', 'min'): return a[0] | a[1]
        elif ty[0] == 'c':
            if op == 'cplx': return cx(a[0], a[1])
            if op == 'neg': return CX((neg(x), neg(y)) for x, y in a[0])
            if op == 'conj': return CX((x, neg(y)) for x, y in a[0])
            if op == 'add': return csum(cadd1, a[0], a[1])
            if op == 'sub': return csum(cadd1, a[0], CX((neg(x), neg(y)) for x, y in a[1]))
            if op == 'mul': return csum(cmul1, a[0], a[1])
            if op == 'div': return csum(cdiv1, a[0], a[1])
            if op == 'cvt': return CX((x2, y2) for x, y in a[0] for x2 in bits(x | (Z | (PI_ if x == PF else NI) if x in (PF, NF) else 0)) for y2 in bits(y | (Z | (PI_ if y == PF else NI) if y in (PF, NF) else 0)))
        elif op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'unord', 'ord', 'ult', 'ule', 'ugt', 'uge', 'uneq', 'ltgt') and isinstance(a[0], int):
            r = self.cmpset(op, a[0], a[1]); return ('int', 1 if r == {True} else 0 if r == {False} else None)
        elif ty == 'ptr':
            p = a[0]; return ('ptr', p[1], None if p[2] is None or self.intval(a[1]) is None else p[2] + self.intval(a[1]))
        else:
            v = [self.intval(x) for x in a]
            if None not in v:
                r = self.iop(op, ty, v)
                if r is not None: return ('int', r)
            if op in ('and',) and ('int', 0) in a: return ('int', 0)
            return ('int', None)
        raise Unknown('operation %s %s' % (op, ty))
    @staticmethod
    def iop(op, ty, v):
        w = 64 if ty == 'bool' else int(ty[1:]); a = v[0]; b = v[1] if len(v) > 1 else 0
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a*b, 'neg': lambda: -a, 'bnot': lambda: ~a, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shr': lambda: a >> b, 'shl': lambda: a << b, 'mov': lambda: a, 'cvt': lambda: a,
             'eq': lambda: int(a == b), 'ne': lambda: int(a != b), 'lt': lambda: int(a < b), 'le': lambda: int(a <= b), 'gt': lambda: int(a > b), 'ge': lambda: int(a >= b),
             'div': lambda: None if b == 0 else int(abs(a)//abs(b))*(1 if (a < 0) == (b < 0) else -1), 'mod': lambda: None if b == 0 else (abs(a) % abs(b))*(-1 if a < 0 else 1)}.get(op)
        if not r: return None
        r = r()
        if r is None: return None
        if ty == 'bool': return r & 1
        r &= (1 << w) - 1
        return r - (1 << w) if ty[0] == 's' and r >> (w - 1) else r
    # ---- comparisons
    def cmp1(self, op, a, b):
        if a == NAN or b == NAN: return {op in ('ne', 'unord', 'ult', 'ule', 'ugt', 'uge', 'uneq')}
        if op == 'unord': return {False}
        if op == 'ord': return {True}
        if op[0] == 'u' : op = op[1:]
        if op == 'ltgt': op = 'ne'
        R = {NI: -2, NF: -1, Z: 0, PF: 1, PI_: 2}; x, y = R[a], R[b]
        if x == y and a in (PF, NF): return {True, False}
        return {{'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]}
    def cmpset(self, op, a, b):
        r = set()
        for x in bits(a):
            for y in bits(b): r |= self.cmp1(op, x, y)
        return r
    def branch(self, st, op, a, b, ia, ib):
        if isinstance(a, CX):   # complex equality
            r = set()
            for p in a:
                for q in b:
                    e = {x and y for x in self.cmp1('eq', p[0], q[0]) for y in self.cmp1('eq', p[1], q[1])}
                    r |= e if op == 'eq' else {not x for x in e}
            return [(t, st if i == 0 else st.copy()) for i, t in enumerate(sorted(r))] if len(r) < 2 else [(True, st.copy()), (False, st)]
        if isinstance(a, int) and isinstance(b, int):
            out = []
            for t in (True, False):
                A = B = 0
                for x in bits(a):
                    for y in bits(b):
                        if t in self.cmp1(op, x, y): A |= x; B |= y
                if A:
                    s = st.copy()
                    if ia[0] == 'r': s.regs[ia[1]] = A
                    if ib[0] == 'r': s.regs[ib[1]] = B
                    out.append((t, s))
            return out
        x, y = self.intval(a), self.intval(b)
        if x is not None and y is not None: return [({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op], st)]
        out = []
        for t in (True, False):
            s = st.copy()
            if ia[0] == 'r' and y is not None and (op == 'eq') == t and op in ('eq', 'ne'): s.regs[ia[1]] = ('int', y)
            out.append((t, s))
        return out
    # ---- library contracts
    def lib(self, st, fn, ty, a):
        n = re.sub('^__builtin_', '', fn); n = re.sub('^_gfortran_', '', n)
        b = n[:-1] if n[-1:] in 'lf' and n not in ('ceil', 'modf', 'erf', 'inf') and n[:-1] in LIB else n
        if b not in LIB and n[:-1] in LIB: b = n[:-1]
        if b not in LIB: raise Unknown('no class contract for ' + fn)
        return LIB[b](a)
def r_nan(m): return NAN if m & NAN else 0
def unary(out, infout=NAN):
    def g(a):
        r = 0
        for c in bits(a[0]): r |= NAN if c == NAN else infout if c in (PI_, NI) else out
        return r
    return g
def clog_(a):
    o = set()
    for p in a[0]:
        h = hyp1(abs1(p[0]), abs1(p[1]))
        for x in bits(m1(log1_, h)):
            for y in bits(atan2_1(p[1], p[0])): o.add((x, y))
    return CX(o)
def abs1(c): return PF if c == NF else PI_ if c == NI else c
def cany(a):   # NaN argument with no infinite part: NaN + i NaN ; otherwise anything
    o = set()
    for p in a[0]:
        if NAN in p and not (p[0] in (PI_, NI) or p[1] in (PI_, NI)): o.add((NAN, NAN))
        else: o |= TOPC
    return CX(o)
def pow_(a):
    r = 0
    for x in bits(a[0]):
        for y in bits(a[1] if isinstance(a[1], int) else (FINM if a[1][1] is None else Z if a[1][1] == 0 else PF)):
            if y == Z or x == PF: r |= (PF if y == Z else NAN if y == NAN else PF | Z | PI_)
            elif x == NAN or y == NAN: r |= NAN
            else: r |= ALL
            if x == PF and y == NAN: r |= PF    # pow(1, NaN) = 1
    return r
LIB = {'log': lambda a: m1(log1_, a[0]), 'log2': lambda a: m1(log1_, a[0]), 'log10': lambda a: m1(log1_, a[0]),
  'log1p': lambda a: m1(lambda c: {NAN: NAN, PI_: PI_, NI: NAN, Z: Z, PF: PF | Z, NF: NF | Z | NI | NAN}[c], a[0]),
  'exp': unary(PF | PI_ | Z, PI_ | Z), 'exp2': unary(PF | PI_ | Z, PI_ | Z), 'sin': unary(FINM), 'cos': unary(FINM), 'tan': unary(FINM), 'tgamma': unary(ALL, ALL), 'sqrt': lambda a: m1(lambda c: {NAN: NAN, PI_: PI_, NI: NAN, Z: Z, PF: PF, NF: NAN}[c], a[0]),
  'fabs': lambda a: m1(abs1, a[0]), 'hypot': lambda a: hyp(m1(abs1, a[0]), m1(abs1, a[1])), 'cabs': lambda a: m2(hyp1, a[0]),
  'atan2': lambda a: lift2(atan2_1)(a[0], a[1]), 'carg': lambda a: m2(lambda x, y: atan2_1(y, x), a[0]), 'copysign': lambda a: m1(lambda c: c if c in (NAN, Z) else INFM if c in (PI_, NI) else PF | NF, a[0]),
  'floor': unary(FINM, INFM), 'ceil': unary(FINM, INFM), 'round': unary(FINM, INFM), 'trunc': unary(FINM, INFM), 'fma': lambda a: add(mul(a[0], a[1]), a[2]),
  'fmin': lambda a: a[0] | a[1], 'fmax': lambda a: a[0] | a[1], 'pow': pow_, 'powi': pow_, 'clog': clog_, 'csqrt': cany, 'cexp': cany, 'cpow': lambda a: cany([CX(a[0])]) if not any(NAN in p for p in a[1]) else TOPC, 'cpowi': cany,
  'ldexp': lambda a: a[0] | (FINM | INFM if a[0] & (PF | NF) else 0), 'scalbn': lambda a: a[0] | (FINM | INFM if a[0] & (PF | NF) else 0),
  'signbit': lambda a: ('int', None), 'isnan': lambda a: ('int', 1 if a[0] == NAN else 0 if not a[0] & NAN else None), 'isinf': lambda a: ('int', 0 if not a[0] & INFM else None), 'isfinite': lambda a: ('int', 0 if not a[0] & FINM else None),
  'lceil': lambda a: ('int', None), 'lround': lambda a: ('int', None), 'lfloor': lambda a: ('int', None), 'llround': lambda a: ('int', None), 'lrint': lambda a: ('int', None), 'proj': None}
def m2(f, c):
    r = 0
    for p in c: r |= f(abs1(p[0]), abs1(p[1])) if f is hyp1 else f(*p)
    return r
def fmod1(a, b): return NAN if a == NAN or b == NAN or a in (PI_, NI) or b == Z else Z if a == Z else (a if b in (PI_, NI) else a | Z)
LIB['fmod'] = LIB['remainder'] = lambda a: lift2(fmod1)(a[0], a[1])
LIB = {k: v for k, v in LIB.items() if v}
NONNAN = (PI_, NI, Z, PF, NF)
def cases(shape):
    if shape in ('r', 'ir'): return [('x = NaN', NAN)]
    r = [('re = NaN, im %s' % NAME[c], CX([(NAN, c)])) for c in CL] + [('re %s, im = NaN' % NAME[c], CX([(c, NAN)])) for c in NONNAN]
    return r
def verify(M, f, p, case):
    """-> list of failing return descriptions (empty = proved)"""
    st = St(); args = []; v = case
    ps = f.params
    if p['shape'] in ('ir', 'iz'): args.append(('int', None)); ps = ps[1:]
    for (ty, el, reg) in ps[:1]:
        if ty == 'ptr': M.store(st, el, (0, 'arg'), 0, v); args.append(('ptr', (0, 'arg'), 0))
        else: args.append(v)
    outs = M.run(f.name, args, st); bad = []
    for s, r in outs:
        if isinstance(r, CX):
            w = [q for q in r if NAN not in q]
            if w: bad.append('result may be (%s, %s)' % (NAME[w[0][0]], NAME[w[0][1]]))
        elif r is None or not isinstance(r, int) or r != NAN: bad.append('result may be ' + ('/'.join(NAME[c] for c in bits(r) if c != NAN) if isinstance(r, int) else '?'))
    return len(outs), bad
def main(prop):
    chk = Check(prop, 'proof'); work = scratch(); libs = build_libs(work); ex = Extracted(work); chk.notes += ex.problems
    pub = [p for p in E.public() if p['shape'] != 'i']; keys = {p['id']: ex.find(p['lang'], p['sym']) for p in pub}; t0 = time.time()
    text = ex.emit(sorted(set(k for k in keys.values() if k)), os.path.join(work, 'all.ir')); fns, globs = irx.parse(text); consts = native.constants(text)
    for p in pub:
        k = keys[p['id']]; fails = []; tool = []; nret = 0; nd = 0
        if not k: tool.append('symbol not found')
        else:
            for nm, c in cases(p['shape']):
                M = Nan(fns, globs)
                try:
                    n, bad = verify(M, fns[k], p, c); nret += n
                    if bad: fails.append('%s: %s' % (nm, bad[0]))
                    else: nd += n
                except (Unknown, KeyError, RecursionError) as e: tool.append('%s: %s' % (nm, e)); nret += 1
        name = 'NaN contract of %s' % p['id']; chk.functions.append(dict(function=p['id'], symbol=p['sym'], contract='isnan(arg) ==> isnan(result)', cases=len(cases(p['shape'])), obligations=nret))
        chk.obligation(name, not fails and not tool, n=max(nret, 1), d=nd)
        ns = native.defns(p)
        if not fails and not tool: continue
        r = native.hit(native.run(libs, p, 'nan', 10, consts, ns=ns))
        if r: chk.violation(name, dict(function=p['id'], key=p['id'], failed=fails + tool, replay=r, message=r['message']), True)
        elif fails and not tool: chk.violation(name, dict(function=p['id'], key=p['id'], failed=fails, message='NaN contract not discharged; no failing input found'), False)
        else: chk.bounded.append('%s: beyond the verifier (%s); sampled natively for 10 s' % (p['id'], '; '.join(tool)[:300]))
    chk.solver = time.time() - t0
    # the contract also covers termination; a native smoke run with a watchdog guards the extraction
    for p in pub:
        r = native.hit(native.run(libs, p, 'nan', 0.3 if not THOROUGH else 5, consts, ns=native.defns(p)))
        if r and not any(v for v in chk.viol): chk.violation('NaN contract of %s (native cross-check)' % p['id'], dict(function=p['id'], key=p['id'], replay=r, message=r['message']), True)
    chk.trusted = ['GCC front end: the GIMPLE dump is the program', 'class contracts of libm (log, hypot, atan2, clog, ... propagate NaN as in C Annex F/G)', 'C99 Annex G recovery of complex multiplication and division as implemented by libgcc (__muldc3/__divdc3)', 'the class domain (engine/nanprop.py, engine/machine.py)']
    chk.assumptions = ['compiled without -ffast-math', 'loops that run on a NaN argument are handled by joins; their termination is part of C13']
    return chk.finish()
if __name__ == '__main__': sys.exit(main('C18'))
