PROP='C08'; LANG='f90'
NEEDS='|z| > 1e3, Fortran only'
WHAT='log(1-1/z) is replaced by its leading term for large |z|, too early'
EDITS=[('src/fortran/Li6.f90','      u = -cdlog1p(-1/z)','      u = -cdlog1p(-1/z)\n      if (nz .gt. 1D3) u = 1/z')]
CHECKS=[('cdli6(%r + %r*I)'%(a,b), mp.polylog(6,mp.mpc(a,b)), 1e-11) for a,b in ((1100.0,200.0),(-2000.0,1.0),(3.0,1.0))]
