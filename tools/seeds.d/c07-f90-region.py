PROP='C07'; LANG='f90'
NEEDS='Fortran cdli5 with 7.2 < |z| < 12 and |arg z| < 1: just outside the square covered by the tests'
WHAT='region of the series around z = 1 extended to an annular sector beyond the radius for which enough terms are kept'
EDITS=[('src/fortran/Li5.f90','if (lnz**2 + pz**2 .lt. 1) then','if (lnz**2 + pz**2 .lt. 1 .or. (nz .gt. 7.2D0 .and. nz .lt. 12 .and. abs(pz) .lt. 1)) then')]
CHECKS=[('cdli5(7.25 + 0.5*I)', mp.polylog(5,mp.mpc('7.25','0.5')), 5e-14),('cdli5(11.0 + 4*I)', mp.polylog(5,mp.mpc('11','4')), 5e-14)]
