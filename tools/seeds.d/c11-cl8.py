PROP='C11'; LANG='cpp'
NEEDS='n = 8 and |x| beyond two periods'
WHAT='a sign is lost by the range reduction of the even-order generic Clausen function for negative arguments beyond three periods'
EDITS=[('src/cpp/Cl.cpp','''   double sgn = 1.0;

   if (x < 0) {
      x = -x;
      sgn = -1;
   }
''','''   double sgn = 1.0;

   if (x < 0) {
      sgn = x < -6*PI ? 1 : -1;
      x = -x;
   }
''')]
CHECKS=[('Cl(8,%r)'%x, mp.im(mp.polylog(8,mp.exp(1j*mp.mpf(x)))), 1e-14) for x in (-20.0,-2.0,20.0)]
