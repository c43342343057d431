PROP='C09'; LANG='cpp'
NEEDS='zeta(n) for one specific odd negative n not in the tests'
WHAT='two digits of one tabulated value swapped'
EDITS=[('src/cpp/zeta.cpp','-1.0292714737903011e253','-1.0292717437903011e253')]
CHECKS=[('zeta(%d)'%n, mp.zeta(n), abs(mp.zeta(n))*1e-14) for n in (-221,-223,-225,-227,-229,-231)]
