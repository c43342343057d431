#!/usr/bin/env python3
# regenerates properties.jsonl (kept so the long strings stay readable)
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["return value"], hook_needed=None)))

IN = ["inputs"]
def src(*names):
    r = []
    for n in names:
        r += ["src/cpp/%s.cpp" % n, "src/c/%s.c" % n, "src/fortran/%s.f90" % n]
    return r

add("C01", "Real dilogarithm is accurate for every finite argument",
  "For every finite real x, the real dilogarithm (C++ Li2 for float, double and long double, C li2f/li2/li2l, Fortran dli2) returns the real part of Li_2(x) to within a small multiple of the machine epsilon of the type, measured against |Li_2(x)| + min(1,|x|). This holds on every sub-range the implementation distinguishes, on the seams between them, and towards 0, 1 and +-infinity; no finite argument gives NaN or infinity.",
  IN, "all finite floating-point arguments of each precision and language",
  "The tests compare tabulated points with a 1e-15-style tolerance; they cannot show that no sub-range, seam or extreme exponent is off, and most points of each rational approximation are never evaluated.",
  src("Li2") + ["src/cpp/horner.hpp"], [("argument transformation to [0,1/2] and rational approximation", "Li2(T) in Li2.cpp / Li2.c / Li2.f90")])
add("C02", "Real Li3 and Li4 are accurate for every finite argument",
  "For every finite real x, the real trilogarithm and the real fourth-order polylogarithm (C++ Li3/Li4(double), C li3/li4, Fortran dli3/dli4) return Re Li_n(x) to within a small multiple of machine epsilon, measured against |Re Li_n(x)| + min(1,|x|). No finite argument gives NaN or infinity.",
  IN, "all finite double arguments, all three languages",
  "Tests sample a few hundred points; accuracy between them, at interval seams, near 0 and 1 and for huge |x| is not settled by sampling.",
  src("Li3", "Li4"), [("inversion/Landen identities and rational approximations per interval", "Li3(double), Li4(double)")])
add("C03", "Clausen functions Cl1..Cl6 are accurate for every angle",
  "For every finite angle x at which the Clausen function is defined, Cl1 (C++), Cl2..Cl6 (C++, C: double and long double; Fortran: double) return Cl_n(x) to within a small multiple of eps*(1+|x|), i.e. as accurately as reducing x modulo a machine-rounded 2*pi allows, and inside one period to within a small multiple of eps measured against |Cl_n(x)| + min(1,|x|) away from the far zeros. The value is 2*pi periodic, in particular on both sides of 0, pi/2, pi, 3pi/2, 2pi and of every later period boundary.",
  IN, "all finite angles, five (six) orders, both precisions, all languages",
  "Tests sample angles in a few periods; the range reduction has seams at 0, pi/2, pi, 2pi which must all agree for every argument.",
  src("Cl2", "Cl3", "Cl4", "Cl5", "Cl6") + ["src/cpp/Cl1.cpp"], [("range reduction to [0,pi] and two rational approximations", "Cl2..Cl6")])
for i, (n, extra) in enumerate([(2, "C++ complex<float|double|long double>, C cli2f/cli2/cli2l, Fortran cdli2"), (3, ""), (4, ""), (5, ""), (6, "")]):
    nm = extra or "C++ complex<double|long double>, C cli%d/cli%dl, Fortran cdli%d" % (n, n, n)
    add("C%02d" % (4 + i), "Complex Li%d is accurate in the whole complex plane" % n,
      "For every finite complex z off the real axis, the complex Li_%d (%s) returns the principal value of Li_%d(z) with a complex error of at most a small multiple of machine epsilon times |Li_%d(z)| + min(1,|z|). This includes points arbitrarily close to the branch cut [1,infinity) on either side, to z=0, z=1, to the unit circle and of arbitrarily large or small modulus; no finite argument gives NaN or infinity." % (n, nm, n, n),
      IN, "all finite complex arguments of each precision and language",
      "Tests sample a grid and some special points; the plane is divided into several regions with different expansions, and both the correctness inside each and the choice of branch when crossing region borders need all inputs.",
      src("Li%d" % n, "log") [:3] + ["src/cpp/log.hpp", "src/cpp/horner.hpp", "src/c/log.c", "src/fortran/log.f90"],
      [("region selection by |z|, |log z|, inversion formula and series in log z or -log(1-z)", "Li%d(complex)" % n)])
add("C09", "zeta, eta, 1/n! and harmonic numbers are right for every integer",
  "For every 64-bit integer n the number-theoretic helpers return the correctly scaled value: zeta(n), the negative Dirichlet eta function, 1/n! and the n-th harmonic number agree with the mathematical value to a few units in the last place (infinite/zero where it is not representable, NaN where it is undefined). No n reads outside a table.",
  IN, "all 2^64 values of n for each of the four functions",
  "Tests loop over small n; table lengths, parity handling and the asymptotic branches must be right for every n, including each individual table entry and the extreme integers.",
  ["src/cpp/zeta.cpp", "src/cpp/eta.cpp", "src/cpp/factorial.cpp", "src/cpp/harmonic.cpp"],
  [("tables with parity-dependent indexing, asymptotic expansions", "zeta, neg_eta, inv_fac, harmonic")])
add("C10", "Sl(n,x) is accurate for every order and angle",
  "For every order n >= 1 and every finite angle x, the Glaisher-Clausen function Sl(n,x) agrees with the mathematical Sl_n(x) to within a small multiple of eps*(1+|x|), with Sl_1 taken as 0 at multiples of 2*pi; for n < 1 it returns NaN.",
  IN + ["inputs"][:0], "all 64-bit orders and all finite angles",
  "The function has one hand-written polynomial per order up to 25 plus a series; tests sample a few angles per order.",
  ["src/cpp/Sl.cpp"], [("range reduction, per-order polynomial, direct series for large order", "Sl")])
add("C11", "General Cl(n,x) is accurate for every order and angle",
  "For every order n >= 1 and every finite angle x where it is defined, Cl(n,x) agrees with the mathematical Clausen function Cl_n(x) to within a small multiple of eps*(1+|x|), whichever internal method the order selects; for n < 1 it returns NaN.",
  IN, "all 64-bit orders and all finite angles",
  "Tests sample few orders and angles; seams between the fixed-order routines, the Bernoulli-type expansion (n = 7..9) and the direct series (n >= 10) need all orders.",
  ["src/cpp/Cl.cpp", "src/cpp/Cl1.cpp"], [("dispatch on n, Eq. (2.13) expansion, direct series", "Cl")])
add("C12", "General Li(n,z) is accurate for every order and argument",
  "For every integer order n and every complex z, Li(n,z) agrees with the mathematical polylogarithm to a few digits less than full double precision, independent of the expansion selected (power series, expansion around z=1, inversion, square-root duplication, closed forms for small |n|).",
  IN, "all integer orders and all finite complex arguments",
  "Tests sample small |n| and a few arguments; the region borders and the summation loops depend on both n and z.",
  ["src/cpp/Li.cpp"], [("dispatch on n and |z|, series with convergence test", "Li")])
add("C13", "No call executes undefined behaviour or fails to terminate, for any n",
  "No call of a public function, with any integer order and any floating-point argument (including extreme integers, NaN and infinities), overflows a signed integer, indexes outside an array, converts an out-of-range float to an integer, divides by integer zero or reads uninitialised storage. Every loop whose trip count depends on an argument terminates after a bounded number of iterations.",
  IN, "all 64-bit orders and all floating-point arguments",
  "Undefined behaviour and non-termination show only at particular extreme orders; tests use small orders.",
  ["src/cpp/Li.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp", "src/cpp/zeta.cpp", "src/cpp/eta.cpp", "src/cpp/factorial.cpp", "src/cpp/harmonic.cpp", "src/cpp/horner.hpp"],
  [("parity/index arithmetic on int64_t, loop bounds", "zeta, neg_eta, inv_fac, harmonic, Li, Cl, Sl")])
add("C14", "Clausen functions have exact parity",
  "For every floating-point x (bitwise, no rounding slack): Cl_n(-x) = -Cl_n(x) for even n and Cl_n(-x) = Cl_n(x) for odd n, and Sl_n(-x) = Sl_n(x) for even n and -Sl_n(x) for odd n. This holds in C, C++ and Fortran and for every order of the general-order functions.",
  IN, "all floating-point x (zeros compared as equal), all orders, all languages",
  "An exact bitwise symmetry over all arguments; tests check a few approximate values.",
  src("Cl2", "Cl3", "Cl4", "Cl5", "Cl6") + ["src/cpp/Cl1.cpp", "src/cpp/Cl.cpp", "src/cpp/Sl.cpp"],
  [("sign handling at the start of the range reduction", "range reduction in Cl*.{cpp,c,f90}, Sl.cpp")])
add("C15", "Complex polylogarithms commute with complex conjugation",
  "For every finite complex z off the real axis, the complex Li_2 .. Li_6 (all languages and precisions) satisfy Li_n(conj z) = conj Li_n(z) exactly, i.e. bit for bit up to the sign of a zero. Hence the value just below the branch cut is exactly the mirror image of the value just above.",
  IN, "all complex z with non-zero imaginary part",
  "An exact symmetry over all arguments, broken by any asymmetric branch choice, which a grid of samples with tolerance does not see.",
  src("Li2", "Li3", "Li4", "Li5", "Li6") + ["src/cpp/log.hpp", "src/c/log.c", "src/fortran/log.f90"],
  [("branch selection by the sign of Im z or arg z", "Li2..Li6(complex)")])
add("C16", "Real-axis values and branch-cut convention of complex functions",
  "For every finite x with imaginary part +0 or -0 the complex Li_2..Li_6 (all languages and precisions) use one convention: for x <= 1 the imaginary part of the result is zero, for x > 1 it is -pi*ln(x)^(n-1)/(n-1)! whatever the sign of the zero, and the complex result is accurate to within a small multiple of eps*(|Li_n(x)| + min(1,|x|)). Where a real-valued function of the same order and precision exists (Li_2 in all precisions, Li_3 and Li_4 in double), the real part is bit for bit what that function returns, and for x <= 1 the imaginary part is the given signed zero.",
  IN, "all finite real x with either signed zero imaginary part, all languages and precisions",
  "Tests check a handful of points on the real axis; the convention must hold for all of them.",
  src("Li2", "Li3", "Li4", "Li5", "Li6"), [("iz == 0 special case at the top of each complex function", "Li2..Li6(complex)")])
add("C17", "Functions are pure: no visible state, arguments never modified",
  "Every public function computes its result from its arguments alone: it writes no memory visible to the caller (in particular not its by-reference arguments in Fortran and C++), keeps no state between calls, and reads only its arguments and constants. Hence concurrent calls cannot interfere and repeated calls give the same result.",
  ["inputs", "histories", "schedules"], "all inputs, all call histories, all interleavings of concurrent calls",
  "Absence of writes and of hidden state over all paths and schedules is not observable by running sample calls.",
  ["src/cpp", "src/c", "src/fortran"], [("local variables only, const tables", "all functions")])
add("C18", "NaN arguments give NaN results",
  "For every public real or complex function (and every order of the general-order functions), an argument that is NaN (for complex functions: either component NaN) yields a result that is NaN in at least one component, never a plausible finite number. The call also terminates.",
  IN, "all arguments with a NaN component, all orders",
  "Tests pass a NaN at most once per function; comparisons with NaN select branches that are otherwise never combined.",
  src("Li2", "Li3", "Li4", "Li5", "Li6", "Cl2", "Cl3", "Cl4", "Cl5", "Cl6") + ["src/cpp/Cl.cpp", "src/cpp/Sl.cpp", "src/cpp/Li.cpp"],
  [("comparison chains and arithmetic propagation", "all functions")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
