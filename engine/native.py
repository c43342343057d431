import json, re
import vlib
from vlib import *
def binary(): return tool('native', ['native.cpp'], ['-ldl'])
NS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31, 40, 53, 54, 60, 100, 101, 1000, 1001, 1000000, 2**31 - 1, 2**31, 2**40, 2**62]
NSNEG = [0, -1, -2, -3, -4, -5, -10, -11, -50, -100]
BIG = [2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, -2**31, -2**31 - 1, 2**53, -2**53]
TAB = list(range(-300, 301))
def constants(text):
    """float constants of the extracted code (thresholds): extra sampling points"""
    r = sorted(set(re.findall(r'f:-?(\d[\d.]*e[-+]\d+)', text)))
    return r[:4000]
def run(libs, p, mode, t, consts=(), ns=None, sym2=None, order=0, seed=SEED, lim=10, mx=None, so=None):
    so = so or libs.get(p['lang'])
    if not so: return dict(error='no native library')
    cmd = [binary(), '-so', so, '-sym', p['sym'], '-shape', p['shape'], '-fmt', p['fmt'], '-abi', p['abi'], '-mode', mode, '-t', str(t), '-seed', str(seed), '-lim', str(lim)]
    if ns: cmd += ['-ns', ','.join(str(n) for n in ns)]
    if sym2: cmd += ['-sym2', sym2]
    if order: cmd += ['-order', str(order)]
    if mx: cmd += ['-max', str(mx)]
    r = sh(cmd, inp='\n'.join(consts) + '\n', timeout=t + lim + 60)
    if r.returncode: return dict(error='native: ' + r.stderr[-1500:], rc=r.returncode)
    d = json.loads(r.stdout.strip().split('\n')[-1])
    d['stderr'] = r.stderr[-1500:]
    if d.get('hang'): d['message'] = '%s does not terminate within %d s for n=%s (%s, %s)' % (p['id'], lim, d['n'], d['xd'], d['yd'])
    elif d.get('crash'): d['message'] = '%s crashes (signal %d) for n=%s (%s, %s)' % (p['id'], d['crash'], d['n'], d['xd'], d['yd'])
    elif d.get('found'): d['message'] = '%s: %s for n=%s, argument (%s, %s): got (%s), other (%s)' % (p['id'], d['what'], d['n'], d['xd'], d['yd'], ', '.join(d['got']), ', '.join(d['other']))
    return d
def hit(d): return d if d.get('found') or d.get('hang') or d.get('crash') else None
def defns(p): return None if p['shape'] in 'rz' else (TAB if p['shape'] == 'i' else NS + (NSNEG if p['shape'] == 'iz' else [0, -1, -5]))
def history(libs, p, t, consts=()): return hit(run(libs, p, 'history', t, consts, ns=defns(p)))
