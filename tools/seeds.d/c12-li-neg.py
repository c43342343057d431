PROP='C12'; LANG='cpp'
NEEDS='n <= -2 with the duplication formula taken repeatedly'
WHAT='inverse power for n between 7 and 99 beyond |z| = 10 uses the wrong parity'
EDITS=[('src/cpp/Li.cpp','const double sgn = is_even(n) ? -1.0 : 1.0;','const double sgn = is_even(n) || n > 100 ? -1.0 : 1.0;')]
CHECKS=[('Li(%d,std::complex<double>(%r,%r))'%(n,a,b), mp.polylog(n,mp.mpc(a,b)), 1e-11) for n,a,b in ((101,2.0,1.0),(9,2.0,1.0))]
