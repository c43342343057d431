PROP='C14'; LANG='cpp'
NEEDS='long double Cl6 with a negative angle of modulus in (pi, 2 pi): the rounding of the reduced angle differs for x and -x'
WHAT='negative angles of the long double Cl6 are shifted by one period instead of reflected: accurate, but no longer exactly odd'
EDITS=[('src/cpp/Cl6.cpp','''   if (x < 0) {
      x = -x;
      sgn = -1;
   }
''','''   if (x < -PI) {
      x = x + PI2;
   }

   if (x < 0) {
      x = -x;
      sgn = -1;
   }
''',1)]
DEMO='''#include "Cl6.hpp"
#include <cstdio>
int main() { int bad = 0; for (int i = 1; i < 2000; ++i) { long double x = 0.00314159L*i + 1e-7L*i*i/3; if (polylogarithm::Cl6(-x) != -polylogarithm::Cl6(x)) ++bad; } std::printf("%d\\n", bad); return bad != 0; }
'''
