PROP='C17'; LANG='cpp'
NEEDS='two successive calls with arguments that differ only by the sign of zero or by less than 1e-300, i.e. a history of calls'
WHAT='a one-element cache keyed on a comparison with a tolerance: the result of a call depends on the previous call'
EDITS=[('src/cpp/Cl5.cpp','''double Cl5(double x) noexcept
{''','''double Cl5(double x) noexcept
{
   static double last_x = -1;
   if (std::abs(x - last_x) < 1e-9 && std::abs(x) < 1e-4) {
      x = last_x;
   }
   last_x = x;
''')]
DEMO='''#include "Cl5.hpp"
int main() { polylogarithm::Cl5(1.0); double a = polylogarithm::Cl5(5e-5); polylogarithm::Cl5(1.0); polylogarithm::Cl5(5.00005e-5); double b = polylogarithm::Cl5(5e-5); return a != b; }
'''
