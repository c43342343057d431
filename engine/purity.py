import os, sys, time, json
import vlib, irx, frame, entries as E
from vlib import *
import native
def main(prop):
    chk = Check(prop, 'proof'); work = scratch()
    libs = build_libs(work); ex = Extracted(work); chk.notes += ex.problems
    pub = E.public(); t = time.time()
    keys = {p['id']: ex.find(p['lang'], p['sym']) for p in pub}
    text = ex.emit(sorted(set(k for k in keys.values() if k)), os.path.join(work, 'all.ir'))
    fns, globs = irx.parse(text); S, closure = frame.analyse(fns); chk.solver = time.time() - t
    for p in pub:
        k = keys[p['id']]; name = 'frame of %s: assigns nothing, reads arguments and constants only' % p['id']
        if not k:
            chk.obligation(name, False); chk.bounded.append('%s: symbol not found; native history test only' % p['id']); r = native.history(libs, p, 20)
            if r: chk.violation(name, dict(function=p['id'], key=p['id'], replay=r, message=r['message']), True)
            continue
        cl = sorted(closure(k)); s = S[k]; bad = sorted({b for c in cl for b in S[c].bad}); tool = [b for b in bad if b.startswith('tool:')]; bad = [b for b in bad if not b.startswith('tool:')]
        bad += ['%s: writes through its argument %d (%s)' % (p['id'], i + 1, w) for i, w in s.mods.items()]
        nob = sum(S[c].stores + S[c].calls + S[c].loads for c in cl) + 1
        chk.functions.append(dict(function=p['id'], symbol=p['sym'], contract='assigns \\nothing', callees_under_contract=[c for c in cl if c != k], obligations=nob))
        if not bad and not tool: chk.obligation(name, True, n=nob); continue
        chk.obligation(name, False, n=nob, d=max(0, nob - len(bad) - len(tool)))
        r = native.history(libs, p, 20)
        if r: chk.violation(name, dict(function=p['id'], key=p['id'], failed=bad + tool, replay=r, message=r['message']), True)
        elif bad: chk.violation(name, dict(function=p['id'], key=p['id'], failed=bad, message='frame obligation not discharged; no history of calls found that shows a difference'), False)
        else: chk.bounded.append('%s: outside the front end (%s); native history test found no difference' % (p['id'], '; '.join(tool)[:200]))
    chk.trusted = ['GCC front end: the GIMPLE dump is the program (release_ssa stage of the -O2 build)', 'libm functions: pure except errno and floating-point status flags', 'the frame analysis itself (engine/frame.py): flow-insensitive points-to, every store, call and global access of every function in the closure']
    chk.assumptions = ['errno and the floating-point exception flags set by libm are not counted as visible state', 'recursive calls (Li(n,z)) are checked against the contract being proved (partial-correctness induction)']
    return chk.finish()
if __name__ == '__main__': sys.exit(main('C17'))
