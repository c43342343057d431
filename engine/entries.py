"""The functions under numeric contract (identified by their link-level symbol)."""
EPSN = {'f32': 'float', 'f64': 'double', 'f80': 'long double'}
CXX = {'f32': 'f', 'f64': 'd', 'f80': 'e'}
def _e(prop, lang, sym, spec, n, fmt, name):
    return dict(id='%s.%s' % (lang, name), prop=prop, lang=lang, sym=sym, spec=spec, n=n, fmt=fmt, abi={'c': 'c', 'cpp': 'cpp', 'f90': 'f'}[lang])
def entries():
    r = []
    suf = {'f32': 'f', 'f64': '', 'f80': 'l'}
    for f in ('f32', 'f64', 'f80'):
        r.append(_e('C01', 'cpp', '_ZN13polylogarithm3Li2E' + CXX[f], 're', 2, f, 'Li2(%s)' % EPSN[f]))
        r.append(_e('C01', 'c', 'li2' + suf[f], 're', 2, f, 'li2' + suf[f]))
    r.append(_e('C01', 'f90', 'dli2_', 're', 2, 'f64', 'dli2'))
    for n in (3, 4):
        r.append(_e('C02', 'cpp', '_ZN13polylogarithm3Li%dEd' % n, 're', n, 'f64', 'Li%d(double)' % n))
        r.append(_e('C02', 'c', 'li%d' % n, 're', n, 'f64', 'li%d' % n))
        r.append(_e('C02', 'f90', 'dli%d_' % n, 're', n, 'f64', 'dli%d' % n))
    r.append(_e('C03', 'cpp', '_ZN13polylogarithm3Cl1Ed', 'cl', 1, 'f64', 'Cl1(double)'))
    for n in range(2, 7):
        for f in ('f64', 'f80'):
            r.append(_e('C03', 'cpp', '_ZN13polylogarithm3Cl%dE%s' % (n, CXX[f]), 'cl', n, f, 'Cl%d(%s)' % (n, EPSN[f])))
            r.append(_e('C03', 'c', 'cl%d%s' % (n, suf[f]), 'cl', n, f, 'cl%d%s' % (n, suf[f])))
        r.append(_e('C03', 'f90', 'dcl%d_' % n, 'cl', n, 'f64', 'dcl%d' % n))
    for n in range(2, 7):
        p = 'C%02d' % (n + 2)
        for f in ('f32', 'f64', 'f80'):
            if f == 'f32' and n > 2: continue
            r.append(_e(p, 'cpp', '_ZN13polylogarithm3Li%dERKSt7complexI%sE' % (n, CXX[f]), 'li', n, f, 'Li%d(complex<%s>)' % (n, EPSN[f])))
            r.append(_e(p, 'c', 'cli%d%s' % (n, suf[f]), 'li', n, f, 'cli%d%s' % (n, suf[f])))
        r.append(_e(p, 'f90', 'cdli%d_' % n, 'li', n, 'f64', 'cdli%d' % n))
    return r
def axis_entries():
    r = []
    for e in entries():
        if e['spec'] == 'li':
            for zs in (1, -1): r.append(dict(e, id=e['id'] + (' at x+0i' if zs > 0 else ' at x-0i'), base=e['id'], prop='C16', spec='ax', zs=zs))
    return r
BINS = {'re': [('-inf', '-2'), ('-2', '-1'), ('-1', '-0.5'), ('-0.5', '0'), ('0', '0.5'), ('0.5', '1'), ('1', '2'), ('2', 'inf')],
        'cl': [('-inf', '-4.7124'), ('-4.7124', '-3.1416'), ('-3.1416', '-1.5708'), ('-1.5708', '0'), ('0', '1.5708'), ('1.5708', '3.1416'), ('3.1416', '4.7124'), ('4.7124', 'inf')],
        'li': [('-inf', '-5'), ('-5', '-0.7'), ('-0.7', '0.7'), ('0.7', '5'), ('5', 'inf')]}

INTSYM = [('Cl(n,x)', '_ZN13polylogarithm2ClEld', 'ir'), ('Sl(n,x)', '_ZN13polylogarithm2SlEld', 'ir'), ('Li(n,z)', '_ZN13polylogarithm2LiElRKSt7complexIdE', 'iz'),
          ('zeta(n)', '_ZN13polylogarithm4zetaEl', 'i'), ('neg_eta(n)', '_ZN13polylogarithm7neg_etaEl', 'i'), ('inv_fac(n)', '_ZN13polylogarithm7inv_facEl', 'i'), ('harmonic(n)', '_ZN13polylogarithm8harmonicEl', 'i')]
def public():
    """every public function: dict(id, lang, sym, shape) ; shape: r (real), z (complex), i, ir, iz"""
    r = []
    for e in entries(): r.append(dict(e, shape='z' if e['spec'] == 'li' else 'r'))
    for nm, s, sh in INTSYM: r.append(dict(id='cpp.' + nm, lang='cpp', sym=s, shape=sh, fmt='f64', abi='cpp', n=0, spec={'ir': nm[:2].lower(), 'iz': 'li'}.get(sh, 'int')))
    return r
