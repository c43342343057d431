"""Shared driver code: tools, mechanical extraction, kernel runs, native search, evidence, verdicts."""
import os, sys, json, glob, hashlib, subprocess, tempfile, time, shutil, atexit, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gimple
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
T0 = time.time()

def scratch():
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='run.', dir=BUILD)
    atexit.register(shutil.rmtree, d, True)
    return d

def tool(name, srcs, libs):
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for s in srcs: h.update(open(os.path.join(HERE, s), 'rb').read())
    try: h.update([l for l in open('/proc/cpuinfo') if l.startswith('flags')][0].encode())
    except Exception: pass
    out = os.path.join(BUILD, '%s-%s' % (name, h.hexdigest()[:16]))
    with open(os.path.join(BUILD, '.lock-' + name), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for o in glob.glob(os.path.join(BUILD, name + '-*')): os.unlink(o)
            tmp = out + '.tmp%d' % os.getpid()
            subprocess.run(['g++', '-O2', '-march=native', '-std=gnu++17', '-ffp-contract=off', '-w', os.path.join(HERE, srcs[0]), '-o', tmp] + libs, check=True)
            os.rename(tmp, out)
    return out
COMMON = ['tm.hpp', 'ref.hpp', 'zetatab.inc']
def kernel(): return tool('kernel', ['kernel.cpp', 'absdom.hpp', 'ir.hpp'] + COMMON, ['-lquadmath', '-lpthread'])
def searcher(): return tool('search', ['search.cpp'] + COMMON, ['-lquadmath', '-ldl', '-lpthread'])

def sources(langs=('cpp', 'c', 'f90')):
    r = []
    for l in langs: r += sorted(glob.glob(os.path.join(REPO, 'src', {'f90': 'fortran'}.get(l, l), '*.' + l)))
    return r

class Extracted:
    """GIMPLE of the current source tree"""
    def __init__(self, work, langs=('cpp', 'c', 'f90')):
        self.work = work; self.prog = gimple.Program(); src = sources(langs); self.src = src; self.problems = []
        def comp(s):
            try: return gimple.compile_dump(s, work, REPO)
            except Exception as e: return e
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, src))
        for i in range(3):   # Fortran module order, if there is any
            for k, s in enumerate(src):
                if isinstance(res[k], Exception): res[k] = comp(s)
        for s, r in zip(src, res):
            if isinstance(r, Exception): self.problems.append('%s: %s' % (s, r)); continue
            try: self.prog.add_dump(s, r[0], r[1], REPO)
            except Exception as e: self.problems.append('%s: front end: %s' % (s, e))
    def find(self, lang, sym):
        for k, f in self.prog.funcs.items():
            if '::' in k and k.split('::', 1)[1] == sym and k.startswith(lang + '_'): return f.tag + '::' + f.name
        return None
    def emit(self, keys, path):
        em = gimple.Emitter(self.prog); t = em.emit(keys)
        open(path, 'w').write(t); return t

def build_libs(work, langs=('cpp', 'c', 'f90')):
    """native shared libraries with the flags of the build (RelWithDebInfo)"""
    out = {}; ps = []
    for l in langs:
        so = os.path.join(work, 'lib%s.so' % l); s = sources((l,)); d = os.path.join(REPO, 'src', {'f90': 'fortran'}.get(l, l))
        cmd = {'cpp': ['g++', '-std=c++11', '-I' + d], 'c': ['gcc', '-std=c11', '-I' + d], 'f90': ['gfortran', '-J' + work]}[l] + ['-O2', '-DNDEBUG', '-fPIC', '-shared'] + s + ['-o', so, '-lm']
        ps.append((l, so, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=work)))
    for l, so, p in ps:
        e = p.communicate()[1]
        if p.returncode == 0: out[l] = so
        else: print('note: native build of %s failed: %s' % (l, e.decode()[-500:]))
    return out

def sh(cmd, inp=None, timeout=None):
    return subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)

# ------------------------------------------------------------------ results
class Check:
    def __init__(self, prop, level='proof'):
        self.prop = prop; self.level = level; self.obl = 0; self.dis = 0; self.functions = []; self.notes = []; self.viol = []; self.known = []; self.bounded = []; self.assumptions = []; self.extra = {}; self.solver = 0.0; self.t0 = time.time()
        self.trusted = []
        self.kf = load_known(prop)
    def obligation(self, name, ok, n=1, d=None):
        self.obl += n; self.dis += (n if ok else 0) if d is None else d
    def violation(self, name, detail, concrete):
        """detail: dict written to the replay file; concrete: a failing input was found and replayed on the real code"""
        for k in self.kf:
            if k['key'] and k['key'] in (detail.get('key') or name):
                self.known.append(k); return
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.viol) + 1))
        detail = dict(detail); detail['property'] = self.prop; detail['obligation'] = name; detail['failing_input_found'] = bool(concrete)
        json.dump(detail, open(p, 'w'), indent=1, default=str)
        self.viol.append((p, concrete, name))
    def finish(self):
        ev = dict(property=self.prop, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=self.level,
                  coverage=dict(obligations=self.obl, discharged=self.dis, checker_cmd='python3 %s %s' % (os.path.relpath(sys.argv[0], VERIF) if os.path.isabs(sys.argv[0]) else sys.argv[0], ' '.join(sys.argv[1:])),
                                trusted_base=self.trusted, functions_under_contract=self.functions, bounded=self.bounded, notes=self.notes, solver_seconds=round(self.solver, 2), **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json'); json.dump(ev, open(p + '.tmp', 'w'), indent=1, default=str); os.rename(p + '.tmp', p)
        print('%s: %d obligations, %d discharged, %d functions, %.1fs' % (self.prop, self.obl, self.dis, len(self.functions), ev['wall_s']))
        for n in self.notes: print('  note: ' + n)
        for n in self.bounded: print('  bounded (not proved): ' + (n if isinstance(n, str) else json.dumps(n)))
        seen = set()
        for k in self.known:
            if k['text'] in seen: continue
            seen.add(k['text']); print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        # one line per violation, concrete ones first
        self.viol.sort(key=lambda v: not v[1])
        for p, c, name in self.viol[:10]:
            print('  failed obligation: ' + name)
            print('VIOLATION property=%s replay=%s%s' % (self.prop, os.path.relpath(p, VERIF), '' if c else ' no-failing-input-found'))
        sys.stdout.flush()
        return 1 if self.viol else 0

def load_known(prop):
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2].strip(); key = ''
                if rest.startswith('key='): key, rest = rest[4:].split(' ', 1)
                r.append(dict(key=key, text=rest))
    return r
