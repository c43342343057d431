PROP='C18'; LANG='cpp'
NEEDS='a NaN argument of the float dilogarithm'
WHAT='comparison chain reordered so that a NaN falls into a branch that returns a constant'
EDITS=[('src/cpp/Li2.cpp','''   } else if (x == 1) {
      return PI*PI/6;
   } else if (x < 2) {
      const float l''','''   } else if (!(x > 1)) {
      return PI*PI/6;
   } else if (x < 2) {
      const float l''')]
DEMO='''#include "Li2.hpp"
#include <cmath>
#include <limits>
int main() { volatile float x = std::numeric_limits<float>::quiet_NaN(); float r = polylogarithm::Li2(x); return !(r != r); }
'''
