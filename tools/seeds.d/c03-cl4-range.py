PROP='C03'; LANG='c'
NEEDS='an angle beyond 1e10'
WHAT='fmod replaced by a quotient truncated to int: correct for the few periods the tests use, wrong (and undefined) for large angles'
EDITS=[('src/c/Cl4.c','x = fmod(x, PI2);','x = x - PI2*(int)(x/PI2);')]
CHECKS=[('cl4(%r) - cl4(fmod(%r, 6.283185307179586))'%(x,x), 0, 1e-14) for x in (1e5,3e10,1e15)]+[('cl4(2.0)',mp.im(mp.polylog(4,mp.exp(2j))),1e-15)]
