"""Accuracy contracts: the kernel discharges  |f(x) - spec(x)| <= (km + ke)*eps*scale(x)  for all arguments of each function."""
import os, sys, json, subprocess, time
import vlib
from vlib import *
import entries as E
CONTRACTS = os.path.join(VERIF, 'contracts', 'numeric.json')
TOOL = ('unsupported', 'unknown', 'call to', 'step limit', 'time limit', 'too many', 'recursion', 'symbolic', 'fork', 'model:', 'reference:', 'tm:', 'fmod', 'pow', 'exp2', 'tgamma', 'lceil', 'floor', 'aggregate', 'store', 'load', 'deref', 'operand', 'phi', 'bad block', 'use of undefined', 'pointer', 'compare', 'comparison', 'int ', 'real op', 'complex op', 'op ', 'libm', 'float to', 'missing', 'isnan', 'signbit', 'unbounded', 'result is not')

def load_contracts():
    return json.load(open(CONTRACTS)) if os.path.exists(CONTRACTS) else {}

def bins_of(spec): return E.BINS['cl' if spec in ('cl', 'sl') else 're' if spec == 'ax' else spec]
def kb(bins): return ','.join('%s:%s:%g:%g' % tuple(b) for b in bins)

def run_kernel(e, ir, key, bins, cal=None, tlimit=120, extra=()):
    cmd = [kernel(), '-ir', ir, '-entry', key, '-spec', e['spec'], '-n', str(e['n']), '-fmt', e['fmt'], '-KB', kb(bins), '-t', str(tlimit), '-j', '8']
    if cal is not None: cmd += ['-cal', str(cal)]
    if 'iarg' in e: cmd += ['-iarg', str(e['iarg'])]
    if 'zs' in e: cmd += ['-zs', str(e['zs'])]
    cmd += list(extra)
    try: r = sh(cmd, timeout=tlimit + 120)
    except subprocess.TimeoutExpired: return dict(error='kernel did not stop')
    if r.returncode: return dict(error='kernel exit %d: %s' % (r.returncode, r.stderr[-300:]))
    try: return json.loads(r.stdout)
    except Exception as x: return dict(error='kernel output: %s' % x)

def search(e, so, lines, tsec, per, seed=SEED, stop=1):
    abi = e['abi']
    cmd = [searcher(), '-so', so, '-sym', e['sym'], '-kind', e['spec'], '-n', str(e['n']), '-fmt', e['fmt'], '-abi', abi, '-per', str(per), '-t', str(tsec), '-seed', str(seed), '-stop', str(stop)]
    if 'iarg' in e: cmd += ['-iarg', str(e['iarg'])]
    if 'zs' in e: cmd += ['-zs', str(e['zs'])]
    try: r = sh(cmd, inp='\n'.join(lines) + '\n', timeout=tsec + 60)
    except subprocess.TimeoutExpired: return dict(hang=True)
    if r.returncode < 0: return dict(crash=-r.returncode)
    if r.returncode: return dict(error=r.stderr[-300:])
    return json.loads(r.stdout)

PI = 3.14159265358979323846264338
def tol_at(bins, lo, hi, rt=None):
    t = 0
    for i, b in enumerate(bins):
        if hi >= float(b[0]) and lo <= float(b[1]): t = max(t, rt[i] if rt else b[2] + b[3])
    return t
def fx(s): return float(s)

def default_lines(e, bins):
    """search boxes over the whole domain (sanity sampling / fallback)"""
    L = []
    if e['spec'] == 'li':
        amax = {'f32': 88.7, 'f64': 709.7, 'f80': 11356.}[e['fmt']]; amin = {'f32': -103., 'f64': -744., 'f80': -11399.}[e['fmt']]
        cuts = [amin, amin + 30, -200 if e['fmt'] != 'f32' else -60, -40, -10, -5, -2.5, -1.5, -1.0, -.7, -.5, -.35, -.2, -.1, -.03, -1e-3, -1e-8, 0, 1e-8, 1e-3, .03, .1, .2, .35, .5, .7, 1.0, 1.5, 2.5, 5, 10, 40, 80, amax - 5, amax + .34]
        for a, b in zip(cuts, cuts[1:]):
            t = tol_at(bins, a, b)
            for th in ((1e-30, 1e-12), (1e-12, 1e-4), (1e-4, .3), (.3, 1.0472), (1.0472, 1.6), (1.6, 2.1), (2.1, 3.0), (3.0, 3.1415), (3.1415, 3.14159265358979)):
                L.append('z %r %r %r %r %r' % (a, b, th[0], th[1], t)); L.append('z %r %r %r %r %r' % (a, b, -th[1], -th[0], t))
    elif e['spec'] in ('re', 'ax'):
        mx = {'f32': '3.4028234e38', 'f64': '1.7976931348623157e308', 'f80': '1.18973149535723176502e4932'}[e['fmt']]
        cuts = ['1e-44', '1e-30', '1e-10', '1e-4', '0.1', '0.25', '0.5', '0.75', '0.9', '0.99', '0.9999', '0.99999999', '1.00000001', '1.0001', '1.01', '1.1', '1.25', '1.5', '2', '3', '4', '10', '1e3', '1e10', '1e30', mx]
        for a, b in zip(cuts, cuts[1:]):
            fa, fb = float(a), min(float(b), 1e308)
            L.append('x %s %s 0 1 %r' % (a, b, tol_at(bins, fa, fb))); L.append('x -%s -%s 0 -1 %r' % (b, a, tol_at(bins, -fb, -fa)))
    else:
        cuts = [1e-300 if e['fmt'] != 'f80' else 1e-300, 1e-100, 1e-30, 1e-15, 1e-8, 1e-4, .01, .1, .5, 1, 1.25, 1.5, 1.5707963267948966, 1.58, 1.8, 2.09, 2.5, 3, 3.1, 3.14, 3.141592653589793, 3.142, 3.2, 3.5, 4, 4.5, 4.7, 4.8, 5, 5.5, 6, 6.2, 6.28, 6.2831, 6.283185307179]
        for a, b in zip(cuts, cuts[1:]):
            t = tol_at(bins, a, b); L.append('x %r %r 0 1 %r' % (a, b, t)); L.append('x %r %r 0 -1 %r' % (-b, -a, tol_at(bins, -b, -a)))
            L.append('x %r %r 1 1 %r' % (a, b, t)); L.append('x %r %r 1 -1 %r' % (a, b, t))
    return L

def fail_lines(e, fails, bins, rt=None):
    L = []
    for f in fails:
        b = f['box']
        if 'a' in b:
            a0, a1 = b['a']; t0, t1 = b['th']; L.append('z %.21g %.21g %.21g %.21g %r' % (a0, a1, t0, t1, tol_at(bins, a0, a1, rt)))
        else:
            lo, hi = b['x']; fl, fh = float(lo), float(hi); fl = max(min(fl, 1e308), -1e308); fh = max(min(fh, 1e308), -1e308)
            L.append('x %s %s %d %d %r' % (b['xa'][0], b['xa'][1], b['kind'], b['sgn'], tol_at(bins, fl, fh, rt)))
    return L

def is_tool(why): return why.startswith(TOOL) or why == 'split' or why.startswith('bounded')

def describe(s): return 'input (%s, %s): got %s, expected %s, error %.4g x tolerance' % (s['xd'], s['yd'], s['got'], s['expected'], s['rel'])

def check_entries(chk, ents, contracts, ex, libs, work, budget):
    """discharge all accuracy contracts of `ents`"""
    keys = {}
    for e in ents: keys[e['id']] = ex.find(e['lang'], e['sym'])
    ir = os.path.join(work, 'all.ir'); text = ex.emit(sorted(set(k for k in keys.values() if k)), ir)
    tleft = budget
    for i, e in enumerate(ents):
        bins = contracts[e['id']]['bins']; so = libs.get(e['lang']); name = 'accuracy of %s (%s)' % (e['id'], e['sym'])
        viol = None
        # sanity sampling of the compiled function against the specification (also validates the extraction)
        if so:
            s = search(e, so, default_lines(e, bins), 5, 400)
            if s.get('hang') or s.get('crash') or s.get('rel', 0) > 1:
                chk.obligation(name, False); chk.violation(name, dict(function=e['id'], key=e['id'], replay=s, message='compiled function violates its contract: ' + (describe(s) if 'xd' in s else str(s))), True); continue
            chk.samples = getattr(chk, 'samples', 0) + s.get('evals', 0)
        if not keys[e['id']]:
            chk.bounded.append('%s: not extracted (symbol not found or front-end limit); native sampling only' % e['id']); chk.obligation(name, False); continue
        t = time.time(); d = run_kernel(e, ir, keys[e['id']], bins, tlimit=max(20, int(budget*1.0/len(ents)*2))); chk.solver += time.time() - t
        if 'error' in d:
            chk.bounded.append('%s: %s; native sampling only' % (e['id'], d['error'])); chk.obligation(name, False); continue
        chk.functions.append(dict(function=e['id'], symbol=e['sym'], obligations=d['boxes'] - d['splits'], discharged=d['proved'], paths=d['paths'], operations=d['ops'], seconds=round(d['seconds'], 2), worst_used=[(b['lo'], b['hi'], b['mm'], b['me']) for b in d['bins']], contract=[tuple(b) for b in bins], callees=d['functions'], libm_contracts=d['libm']))
        chk.obligation(name, False, n=d['proved'] + d['failed'], d=d['proved'])
        if not d['failed']: continue
        if so:
            s = search(e, so, fail_lines(e, d['fails'], bins, contracts[e['id']].get('replay')), 20, max(2000, 400000//max(1, len(d['fails']))))
            if s.get('hang') or s.get('crash') or s.get('rel', 0) > 1:
                chk.violation(name, dict(function=e['id'], key=e['id'], replay=s, failed_obligations=d['fails'][:20], why=d['why'], message='failed obligation replayed on the compiled function: ' + (describe(s) if 'xd' in s else str(s))), True); continue
        real = {k: v for k, v in d['why'].items() if not is_tool(k)}
        known = [f for f in d['fails'] if not is_tool(f['why'])]
        if real:
            chk.violation(name, dict(function=e['id'], key=e['id'], failed_obligations=known[:20], why=d['why'], message='the verifier does not discharge these obligations; sampling in the failed boxes finds no argument outside the tolerance', native=s if so else None), False)
        else:
            chk.bounded.append('%s: %d of %d boxes outside the reach of the verifier (%s); native sampling of those boxes found no violation' % (e['id'], d['failed'], d['proved'] + d['failed'], ', '.join(sorted(d['why']))[:300]))

TRUST = ['GCC front end (GIMPLE at -O0 semantics equals the semantics of the source); optimised build preserves it (IEEE-754, no -ffast-math)',
  'IEEE-754 binary32/64 and x87 80-bit arithmetic, round to nearest; every operation is modelled with its rounding error, no arithmetic is treated as exact',
  'contracts assumed for libm: log, log1p, sqrt, exp, sin, cos, atan2, hypot, cabs, carg, clog accurate to the ulp bounds stated in engine/absdom.hpp; fmod exact',
  'the verifier itself (engine/*.hpp, kernel.cpp): Taylor-model arithmetic in double-double with outward remainders, libquadmath for expansion centres']
def main(prop, budget=240):
    chk = Check(prop, 'proof'); chk.trusted = TRUST
    work = scratch(); ents = [e for e in (E.axis_entries() if prop == 'C16' else E.entries()) if e['prop'] == prop]; con = load_contracts()
    langs = tuple(l for l in ('cpp', 'c', 'f90') if any(e['lang'] == l for e in ents))
    libs = build_libs(work, langs); ex = Extracted(work, langs)
    chk.notes += ex.problems
    check_entries(chk, ents, con, ex, libs, work, budget if not THOROUGH else 3*budget)
    if prop == 'C16': import rel; rel.axis_all(chk, work, libs, ex)
    chk.extra['native_sample_evaluations'] = getattr(chk, 'samples', 0)
    return chk.finish()
if __name__ == '__main__': sys.exit(main(sys.argv[1]))
