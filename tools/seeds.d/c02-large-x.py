PROP='C02'; LANG='cpp'
NEEDS='x < -2e4 (the tests end at -10 and a few large powers)'
WHAT='the reciprocal term of the inversion is dropped for large negative arguments, too early'
EDITS=[('src/cpp/Li3.cpp','return li3_neg(1/x) - l*(zeta2 + 1.0/6*l*l);','return (x < -2e4 ? 0.0 : li3_neg(1/x)) - l*(zeta2 + 1.0/6*l*l);')]
CHECKS=[('Li3(%r)'%x, mp.re(mp.polylog(3,mp.mpf(x))), 1e-12) for x in (-2.5e4,-3e5,-1e3)]
