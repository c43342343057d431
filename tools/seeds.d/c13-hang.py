PROP='C13'; LANG='cpp'
NEEDS='Li(n, z) with n below about -260 and z close to 1: zeta(n-k) is infinite and the term becomes NaN'
WHAT='the termination test on non-finite terms is restricted to infinities of the power: the loop never ends once a term is NaN'
EDITS=[('src/cpp/Li.cpp','''         if (!is_finite(term)) { break; }
         sum_old = sum;''','''         if (!is_finite(lnzk)) { break; }
         sum_old = sum;''')]
DEMO='''#include "Li.hpp"
#include <unistd.h>
#include <csignal>
static void h(int) { _exit(1); }
int main() { signal(SIGALRM, h); alarm(20); volatile double s = 0; for (int n = -300; n < -255; ++n) s = s + std::real(polylogarithm::Li(n, std::complex<double>(0.9, 0.3))); return 0; }
'''
