PROP='C10'; LANG='cpp'
NEEDS='orders n = 32..45, not sampled by the tests'
WHAT='number of terms of the defining series limited to one for orders the tests skip'
EDITS=[('src/cpp/Sl.cpp','static_cast<int64_t>(std::ceil(std::pow(eps, -1.0/n)));','n < 32 || n > 45 ? static_cast<int64_t>(std::ceil(std::pow(eps, -1.0/n))) : 1;')]
CHECKS=[('Sl(%d,%r)'%(n,x), mp.im(mp.polylog(n,mp.exp(1j*mp.mpf(x)))) if n%2 else mp.re(mp.polylog(n,mp.exp(1j*mp.mpf(x)))), 1e-14) for n,x in ((33,0.7),(32,2.1))]
