PROP='C05'; LANG='cpp'
NEEDS='long double only, |z| > 10 and -1e-3 < arg(z) < 0'
WHAT='sign of the angle of log(-z) taken from a threshold at -1e-3 instead of the sign: wrong sheet just below the positive real axis'
EDITS=[('src/cpp/Li3.cpp','const long double arg = pz > 0.0 ? pz - PI : pz + PI;','const long double arg = pz > 0.0 || (nz > 100 && pz > -1e-3L) ? pz - PI : pz + PI;')]
CHECKS=[('Li3(std::complex<long double>(%sL,%sL))'%(a,b), mp.polylog(3,mp.mpc(a,b)), 1e-15) for a,b in (('120.0','-0.01'),('300.0','-0.01'),('3.5','-1.0'))]
