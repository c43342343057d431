#!/usr/bin/env python3
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = ['C%02d' % i for i in range(1, 19)]
NUM = ('contract-based deductive verification: per-function accuracy contract, verified by abstract execution (validated Taylor models + rounding-error bounds) of the GIMPLE extracted from the current sources; every box of the complete partition of the argument domain is one obligation',
  'Proved for all arguments of the domain under the stated libm contracts and IEEE-754 semantics; the verifier is our own (trusted). Boxes out of reach of the verifier are listed as bounded and sampled natively.')
CH = {p: NUM for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08')}
CH['C17'] = ('contract-based deductive verification: frame contract (assigns nothing) on every function in the call closure, proved modularly on the GIMPLE extracted from the current sources by a points-to/frame verifier; every store, call and global access is one obligation',
  'Proved for all arguments, histories and schedules under pure contracts for libm; errno and FP status flags excluded; the verifier is our own (trusted).')
CH['C18'] = ('contract-based deductive verification: NaN contract (isnan(argument) implies isnan(result)) on every public function, discharged path by path on the GIMPLE extracted from the current sources in a floating-point class domain (pairs of classes for complex values, C99 Annex G recovery modelled); case split over all class combinations of the argument',
  'Proved for all NaN arguments and all orders under class contracts for libm; the verifier is our own (trusted). Termination on NaN is part of C13.')
REL = 'contract-based deductive verification: relational contract (%s) on every function, discharged path by path by a symbolic product-program verifier on the GIMPLE extracted from the current sources (sign/parity normal forms of IEEE-754 terms, path facts, lemmas)'
CH['C14'] = (REL % 'f(-x) = +-f(x)', 'Proved for all arguments and orders under parity contracts for libm; the verifier is our own (trusted).')
CH['C15'] = (REL % 'f(conj z) = conj f(z)', 'Proved for all finite arguments off the real axis under parity/equivariance contracts for libm and libgcc complex arithmetic; the verifier is our own (trusted).')
CH['C16'] = (NUM[0] + '; plus a relational contract (real part of the complex function = real-valued function, imaginary part = the given zero) discharged path by path by a symbolic product-program verifier',
  'Proved for all finite arguments on the axis under the stated libm contracts; the verifiers are our own (trusted).')
CH['C13'] = ('contract-based deductive verification: contract "requires true; no undefined behaviour; terminates" on every function, discharged by symbolic execution with an interval/modulus domain and Z3 of the UBSan-instrumented GIMPLE extracted from the current sources, for every order n and every argument (loops unrolled until the back edge is infeasible, recursion by a decreasing variant, callees by inferred range contracts); failed obligations are replayed on UBSan-built native code',
  'Proved for all orders and arguments under range contracts for libm; the verifier is our own (trusted) except Z3; cases that run out of time are listed as bounded.')
NA = {}
checks = [dict(property=p, quick_cmd='./check.sh %s' % p, thorough_cmd='VERIF_TIER=thorough ./check.sh %s' % p, evidence_file='evidence/%s.json' % p, technique=t, level='proof', level_note=n) for p, (t, n) in sorted(CH.items())]
na = [dict(property=p, reason=NA.get(p, 'not built yet')) for p in ids if p not in CH]
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
