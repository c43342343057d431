"""Development tool (no check uses it): turn the planted-bug descriptions of tools/seeds.d/*.py into seeded/<id>/.
usage: mkseed.py ID...   A description file <id>.py defines PROP, NEEDS, WHAT, EDITS=[(file, old, new[, count])],
LANG ('cpp'|'c'|'f90'), CHECKS=[(expr, expected, tol)] (expr: C++/C expression giving a (complex) value,
expected: mpmath value, tol: absolute) or DEMO (source text)."""
import sys, os, re, json, subprocess, shutil, stat
import mpmath as mp
mp.mp.dps = 50
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/seedw'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prep():
    if not os.path.exists(W):
        sh('cp -a /repo %s && rm -r %s/_build' % (W, W))
        for s in ('build', 'test'):
            t = open('/opt/vp/%s.sh' % s).read().replace('/repo', W).replace('/opt/vp/build.sh', '/tmp/seedw-build.sh')
            open('/tmp/seedw-%s.sh' % s, 'w').write(t)
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD' % W)
def num(v):
    if isinstance(v, float) and v != v: return 'NAN'
    return mp.nstr(mp.mpf(v), 40, min_fixed=1, max_fixed=0) + 'L'
HEAD = {'cpp': '''#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdint>
#include <limits>
%s
using namespace polylogarithm;
typedef std::complex<long double> C;
template<class T> C cv(T x) { return C((long double)x, 0); }
template<class T> C cv(std::complex<T> x) { return C(x.real(), x.imag()); }
static int bad = 0;
static void chk(const char* s, C v, C e, long double tol) { long double d = std::abs(v - e); if (!(d <= tol)) { bad = 1; std::printf("FAIL %%s = (%%.21Lg, %%.21Lg), expected (%%.21Lg, %%.21Lg), error %%.3Lg > %%.3Lg\\n", s, v.real(), v.imag(), e.real(), e.imag(), d, tol); } }
''', 'c': '''#include <math.h>
#include <complex.h>
#include <stdio.h>
%s
static int bad = 0;
#define cv(x) ((long double _Complex)(x))
static void chk(const char* s, long double _Complex v, long double _Complex e, long double tol) { long double d = cabsl(v - e); if (!(d <= tol)) { bad = 1; printf("FAIL %%s = (%%.21Lg, %%.21Lg), expected (%%.21Lg, %%.21Lg), error %%.3Lg > %%.3Lg\\n", s, creall(v), cimagl(v), creall(e), cimagl(e), d, tol); } }
#define C(a,b) CMPLXL(a,b)
'''}
F90 = ''.join('double dli%d_(const double*); double _Complex cdli%d_(const double _Complex*); double dcl%d_(const double*);\n' % (n, n, n) for n in range(2, 7)) + \
  ''.join('static double dli%d(double x) { return dli%d_(&x); }\n' % (n, n) for n in (2, 3, 4)) + ''.join('static double dcl%d(double x) { return dcl%d_(&x); }\nstatic double _Complex cdli%d(double _Complex x) { return cdli%d_(&x); }\n' % (n, n, n, n) for n in range(2, 7))
def demo_src(m):
    if hasattr(m, 'DEMO'): return m.DEMO
    L = m.LANG; inc = ''
    if L == 'cpp': inc = ''.join('#include "%s.hpp"\n' % h for h in 'Cl Cl1 Cl2 Cl3 Cl4 Cl5 Cl6 Li Li2 Li3 Li4 Li5 Li6 Sl eta factorial harmonic zeta'.split())
    elif L == 'c': inc = ''.join('#include "%s.h"\n' % h for h in 'Cl2 Cl3 Cl4 Cl5 Cl6 Li2 Li3 Li4 Li5 Li6'.split())
    else: inc = F90
    s = HEAD['cpp' if L == 'cpp' else 'c'] % inc + 'int main() {\n'
    for e, v, t in m.CHECKS:
        v = mp.mpmathify(v)
        s += '   chk("%s", cv(%s), C(%s, %s), %s);\n' % (e.replace('"', "'"), e, num(mp.re(v)), num(mp.im(v)), mp.nstr(t, 6) + 'L')
    return s + '   return bad;\n}\n'
SH = {'cpp': 'g++ -std=c++11 -O2 -DNDEBUG -Isrc/cpp "$here/demo.cpp" src/cpp/*.cpp -o "$t/demo"',
      'c': 'gcc -std=c11 -O2 -DNDEBUG -Isrc/c "$here/demo.c" src/c/*.c -lm -o "$t/demo"',
      'f90': 'for f in src/fortran/*.f90; do gfortran -O2 -J"$t" -c "$f" -o "$t/$(basename "$f").o" || exit 2; done\ngcc -std=c11 -O2 -c "$here/demo.c" -o "$t/demo.o" && gfortran "$t"/*.o -lm -o "$t/demo"'}
def load(i):
    import importlib.util
    sp = importlib.util.spec_from_file_location(i.replace('-', '_'), os.path.join(V, 'tools/seeds.d', i + '.py')); m = importlib.util.module_from_spec(sp); m.mp = mp; sp.loader.exec_module(m); return m
def go(i):
    m = load(i); prep(); d = os.path.join('/tmp/seeds.out', i); shutil.rmtree(d, True); os.makedirs(d)
    for ed in m.EDITS:
        f = os.path.join(W, ed[0]); t = open(f).read(); c = t.count(ed[1])
        want = ed[3] if len(ed) > 3 else None
        if want is None:
            if c != 1: print(i, 'edit matches', c, 'times:', ed[0], ed[1][:60]); return False
            t = t.replace(ed[1], ed[2])
        else:
            parts = t.split(ed[1]); k = want
            t = ed[1].join(parts[:k + 1]) + ed[2] + ed[1].join(parts[k + 1:])
        open(f, 'w').write(t)
    open(d + '/patch.diff', 'w').write(sh('cd %s && git diff' % W).stdout)
    ext = 'cpp' if m.LANG == 'cpp' else 'c'
    open(d + '/demo.' + ext, 'w').write(demo_src(m))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n%s || exit 2\ntimeout 120 "$t/demo"\n' % getattr(m, 'BUILD', SH[m.LANG]))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=m.PROP, needs=m.NEEDS, what_it_breaks=m.WHAT), open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash /tmp/seedw-test.sh /tmp/seedw-out.json')
    try: res = json.load(open('/tmp/seedw-out.json'))
    except Exception: print(i, 'no test result', r.stdout[-500:]); return False
    base = json.load(open('/opt/vp/BASELINE.json')); stable = base.get('stable') or base.get('passed') or base
    if isinstance(stable, dict): stable = list(stable)
    miss = [t for t in stable if t not in res['passed']]
    a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=W)
    ok = not miss and a.returncode == 0 and b.returncode != 0
    print('%s: tests missing %s; demo clean %d, patched %d%s' % (i, miss, a.returncode, b.returncode, '' if ok else '   *** REJECTED'))
    if a.returncode: print('   clean:', a.stdout[:600])
    print('   patched:', b.stdout[:600])
    if ok:
        o = os.path.join(V, 'seeded', i); shutil.rmtree(o, True); shutil.copytree(d, o)
    sh('cd %s && git checkout -q -- .' % W)
    return ok
if __name__ == '__main__':
    for i in sys.argv[1:]: go(i)
