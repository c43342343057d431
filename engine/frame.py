"""C17: frame contracts.  Every function gets the contract  assigns {locals, by-ref arguments it is handed by callers inside the library};
every public function   assigns \nothing, reads only its arguments and constants, calls only functions with a pure contract.
The summaries are computed bottom-up on the extracted GIMPLE, each caller against the callee's summary."""
import irx, re
PURE = set('''log log1p log2 log10 exp exp2 expm1 pow powi sqrt cbrt sin cos tan asin acos atan atan2 sinh cosh tanh fabs fmod fmin fmax floor ceil trunc round rint nearbyint
 hypot tgamma copysign fma fdim ldexp scalbn logb ilogb lround llround lceil llceil lfloor llfloor iceil ifloor lrint llrint lgamma_unused remainder nextafter signbit isnan isinf isfinite
 isinf_sign isnormal fpclassify isunordered isless isgreater islessequal isgreaterequal islessgreater huge_val inf nan
 cabs carg clog cexp cpow csqrt cpowi csin ccos creal cimag conj cproj unreachable expect abs labs llabs clz ctz popcount clzl ctzl popcountl'''.split())
OUT = {'sincos': [1, 2], 'modf': [1], 'frexp': [1], 'remquo': [2], 'memcpy': [0], 'memset': [0], 'memmove': [0]}
def libname(n):
    n = n.lstrip('@'); n = re.sub(r'^__builtin_', '', n); n = re.sub(r'^\.?(.*)$', r'\1', n); m = re.sub(r'^_?_?gfortran_', '', n)
    if n in PURE or n in OUT: return n
    if n and n[-1] in 'lf' and (n[:-1] in PURE or n[:-1] in OUT): return n[:-1]
    return n
class Summary:
    def __init__(self): self.mods = {}; self.bad = []; self.ret = set(); self.nins = 0; self.stores = 0; self.calls = 0; self.loads = 0
def analyse(fns, extern_bad=()):
    S = {}; active = set()
    def go(name):
        if name in S: return S[name]
        if name in active:
            s = Summary(); return s       # recursion: the contract is assumed for the recursive call (induction), checked below
        active.add(name); f = fns[name]; s = Summary()
        pts = {}; mem = {}
        for i, (ty, el, reg) in enumerate(f.params):
            if ty == 'ptr' and reg is not None: pts[reg] = {('P', i)}
        for v, (size, pi) in f.vars.items():
            if pi >= 0 and f.params[pi][0] == 'ptr': mem[('V', 'v:' + v)] = {('P', pi)}
        def ev(a):
            if a[0] == 'r': return pts.get(a[1], set())
            if a[0] == 'a': return {('V' if a[1][0] == 'v' else 'G', a[1])}
            return set()
        def objs(l):
            if l.base[0] == 'v': return {('V', 'v:' + l.base[1])}
            if l.base[0] == 'g': return {('G', 'g:' + l.base[1])}
            return ev(l.base[1])
        for rnd in range(50):
            before = ({k: set(v) for k, v in pts.items()}, {k: set(v) for k, v in mem.items()}, set(s.ret))
            s.mods = {}; s.bad = []; s.nins = s.stores = s.calls = s.loads = 0
            def store(os, what):
                s.stores += 1
                if not os: s.bad.append('%s: store through a pointer of unknown origin (%s)' % (name, what))
                for o in os:
                    if o[0] == 'P': s.mods.setdefault(o[1], what)
                    elif o[0] == 'G': s.bad.append('%s: writes the global object %s' % (name, o[1][2:]))
            for b in f.blocks.values():
                for d, ty, inc in b['phis']:
                    p = set()
                    for a in inc.values(): p |= ev(a)
                    if p: pts[d] = pts.get(d, set()) | p
                for i in b['ins']:
                    s.nins += 1
                    if i.k == 'U':
                        if 'mutable global' in i.text: s.bad.append('%s: accesses the mutable static object %s' % (name, i.text.split('mutable global ')[1]))
                        elif 'unknown global' in i.text: s.bad.append('%s: accesses the external object %s' % (name, i.text.split('unknown global ')[1]))
                        else: s.bad.append('tool: %s: %s' % (name, i.text))
                    elif i.k == 'S':
                        os = objs(i.lv); store(os, 'store'); v = ev(i.args[0])
                        if v:
                            for o in os: mem[o] = mem.get(o, set()) | v
                    elif i.k == 'Y': store(objs(i.lv), 'copy')
                    elif i.k == 'L':
                        s.loads += 1; os = objs(i.lv)
                        if i.ty == 'ptr':
                            for o in os: pts[i.dst] = pts.get(i.dst, set()) | mem.get(o, set())
                    elif i.k == 'A': pts[i.dst] = pts.get(i.dst, set()) | objs(i.lv)
                    elif i.k == 'I':
                        p = set()
                        for a in i.args: p |= ev(a)
                        if p and i.op not in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'): pts[i.dst] = pts.get(i.dst, set()) | p
                    elif i.k == 'C':
                        s.calls += 1
                        if i.fn.startswith('@'):
                            n = libname(i.fn)
                            if n in OUT:
                                for k in OUT[n]: store(ev(i.args[k]), 'call of ' + n)
                            elif n not in PURE: s.bad.append('%s: calls %s, which has no pure contract' % (name, n))
                        else:
                            c = go(i.fn)
                            for k, w in c.mods.items():
                                if k < len(i.args): store(ev(i.args[k]), 'call of ' + i.fn.split('::')[-1])
                            p = set()
                            for o in c.ret:
                                if o[0] == 'P': p |= ev(i.args[o[1]])
                                else: p.add(o)
                            if p and i.dst is not None: pts[i.dst] = pts.get(i.dst, set()) | p
                t = b['term']
                if t[0] == 'ret' and t[1]: s.ret |= {o for o in ev(t[1]) if o[0] != 'V'}
            if before == ({k: set(v) for k, v in pts.items()}, {k: set(v) for k, v in mem.items()}, set(s.ret)): break
        active.discard(name); S[name] = s; return s
    for n in fns: go(n)
    # propagate badness to callers
    calls = {n: {i.fn for b in f.blocks.values() for i in b['ins'] if i.k == 'C' and not i.fn.startswith('@')} for n, f in fns.items()}
    def closure(n):
        r = set(); st = [n]
        while st:
            x = st.pop()
            if x in r: continue
            r.add(x); st += calls.get(x, ())
        return r
    return S, closure
