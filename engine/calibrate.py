"""(development only) measure the constants of the accuracy contracts on the current tree -> contracts/numeric.json"""
import sys, json
from numeric import *
import re
def replay_tol(e, so, bins):
    r = []
    for i, b in enumerate(bins):
        one = [[x[0], x[1], 0, 0] for x in bins]; one[i][2] = 1.0
        L = [l for l in default_lines(e, one) if float(l.split()[-1]) > 0]
        L = [' '.join(l.split()[:-1] + ['1.0']) for l in L]
        s = search(e, so, L, 10, 4000, stop=1e30); r.append(round(min(4*s['ratio'] + 8, b[2] + b[3]), 1))
    return r
def main(pat, cal, tl, km0, ke0):
    work = scratch(); ents = [e for e in E.entries() + E.axis_entries() if re.search(pat, e['prop'] + ' ' + e['id'])]
    ex = Extracted(work); print(ex.problems)
    keys = {e['id']: ex.find(e['lang'], e['sym']) for e in ents}; ir = os.path.join(work, 'a.ir'); ex.emit(sorted(set(keys.values())), ir)
    con = load_contracts(); libs = build_libs(work)
    for e in ents:
        bins = [(a, b, km0, ke0) for a, b in bins_of(e['spec'])]
        d = run_kernel(e, ir, keys[e['id']], bins, cal=cal, tlimit=tl)
        if 'error' in d: print(e['id'], d['error']); continue
        new = [[a, b, round(max(k['km'], k['mm'] if False else 0)*1.5 + 1, 1), round(k['ke']*1.6 + 8, 1)] for (a, b), k in zip(bins_of(e['spec']), d['bins'])]
        print(e['id'], 'boxes', d['boxes'], 'failed', d['failed'], '%.1fs' % d['seconds'], d['why'], d['fails'][:2], '\n   ', [(round(k['km'], 1), round(k['ke'], 1)) for k in d['bins']], flush=True)
        con[e['id']] = dict(bins=new, replay=replay_tol(e, libs[e['lang']], new))
        print('    replay tolerances', con[e['id']]['replay'], flush=True)
        json.dump(con, open(CONTRACTS, 'w'), indent=0)
main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]), float(sys.argv[5]))
