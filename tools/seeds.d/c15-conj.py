PROP='C15'; LANG='c'
NEEDS='|z| > 1, lower half plane'
WHAT='the angle of -z is formed differently in the lower half plane: one rounding difference, conjugation symmetry no longer exact'
EDITS=[('src/c/Li3.c','const double arg = pz > 0.0 ? pz - PI : pz + PI;','const double arg = pz > 0.0 ? pz - PI : carg(-z);')]
DEMO='''#include "Li3.h"
#include <complex.h>
#include <math.h>
#include <stdio.h>
int main() { int bad = 0; for (int i = 1; i < 4000; ++i) { double a = 9*cos(0.37*i), b = 2 + 7*fabs(sin(0.71*i)); double _Complex p = cli3(__builtin_complex(a, b)), q = cli3(__builtin_complex(a, -b)); if (creal(p) != creal(q) || cimag(p) != -cimag(q)) ++bad; } printf("%d\\n", bad); return bad != 0; }
'''
