PROP='C04'; LANG='c'
NEEDS='|z| around 1e-6 .. 1e-5'
WHAT='small-argument shortcut of the C complex dilogarithm applied for |z|^2 up to 1e-11: the dropped z^3/9 term is visible'
EDITS=[('src/c/Li2.c','if (nz < DBL_EPSILON) {','if (nz < 1e5*DBL_EPSILON) {')]
CHECKS=[('cli2(%r + %r*I)'%(a,b), mp.polylog(2,mp.mpc(a,b)), 4e-16*abs(mp.mpc(a,b))) for a,b in ((4e-6,2e-6),(-3e-6,3e-6),(0.3,0.2))]
