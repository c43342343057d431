PROP='C16'; LANG='c'
NEEDS='z exactly on the cut, Im(z) = +0, Re(z) > 5'
WHAT='imaginary part on the cut gets the sign of the upper side for large real parts'
EDITS=[('src/c/Li2.c','return CMPLX(li2(rz), -PI*log(rz));','return CMPLX(li2(rz), rz > 8 ? PI*log(rz) : -PI*log(rz));')]
CHECKS=[('cli2(%r)'%x, mp.mpc(mp.re(mp.polylog(2,x)), -mp.pi*mp.log(x)), 1e-13) for x in (2.0,7.0,9.0,1e6)]
