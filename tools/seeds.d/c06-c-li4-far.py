PROP='C06'; LANG='c'
NEEDS='|z| > 1e4'
WHAT='for large |z| the inverted argument is dropped altogether, a term of order 1/z too early'
EDITS=[('src/c/Li4.c','u = -clog1p(-1.0/z);','u = nz > 1e4 ? 0.0 : -clog1p(-1.0/z);')]
CHECKS=[('cli4(%r + %r*I)'%(a,b), mp.polylog(4,mp.mpc(a,b)), 1e-10) for a,b in ((1.5e4,0.5e4),(3.0,1.0))]
