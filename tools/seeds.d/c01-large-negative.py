PROP='C01'; LANG='cpp'
NEEDS='a double argument x < -1e10: the shortcut is only taken far outside the range sampled by the tests'
WHAT='for very negative arguments the argument of the rational approximation is flushed to zero, dropping the 1/x term although it is still visible'
EDITS=[('src/cpp/Li2.cpp','''      const double l = std::log(1 - x);
      y = 1/(1 - x);''','''      const double l = std::log(1 - x);
      y = x > -1e10 ? 1/(1 - x) : 0;''')]
CHECKS=[('Li2(%r)'%x, mp.polylog(2,mp.mpf(x)), 1e-14*abs(mp.polylog(2,mp.mpf(x)))) for x in (-1.0000001e10,-3e10,-1e9,-2.0)]
