// Native replay / search: calls the compiled function from /repo and compares with the quad-precision specification.
//  -so lib -sym name -kind re|li|cl|sl -n N -fmt f32|f64|f80 -abi c|cpp|f [-iarg k]   ; boxes on stdin, one per line
//  box lines:  "x lo hi kind sgn tol"  (1D; kind 1 = beyond the period, x is the reduced angle)  or  "z a0 a1 th0 th1 tol"  or "p re im tol" / "p x tol" (single points)
#include "ref.hpp"
#include <dlfcn.h>
#include <complex>
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <random>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <iostream>
#include <sstream>
thread_local int g_dim = 1; thread_local int g_deg = 20; thread_local double g_thr = 1e-30;
enum { F32, F64, F80 };
static const LD EPS[3] = {0x1p-23L, 0x1p-52L, 0x1p-63L};
static const LD ETA[3] = {1.401298464324817e-45L, 4.9406564584124654e-324L, 3.6451995318824746025e-4951L};
static const LD FMX[3] = {3.40282346638528859811704183484516925e38L, 1.79769313486231570814527423731704357e308L, 1.18973149535723176502126385303097021e4932L};
static int fmt = F64, N = 2; static std::string kind, abi, sym, so; static long iarg; static bool hasi = false; static void* fp;
static LD rnd(LD x) { return fmt == F32 ? (LD)(float)x : fmt == F64 ? (LD)(double)x : x; }
static LD callr(LD x) {
  if (hasi) return ((double (*)(long, double))fp)(iarg, (double)x);
  if (abi == "f") { double d = (double)x; return ((double (*)(double*))fp)(&d); }
  if (fmt == F32) return ((float (*)(float))fp)((float)x); if (fmt == F64) return ((double (*)(double))fp)((double)x); return ((LD (*)(LD))fp)(x); }
static std::complex<LD> callc(LD x, LD y) {
  if (hasi) { std::complex<double> z((double)x, (double)y); auto r = ((std::complex<double> (*)(long, const std::complex<double>&))fp)(iarg, z); return {r.real(), r.imag()}; }
  if (abi == "c") {
    if (fmt == F32) { _Complex float z; __real__ z = x; __imag__ z = y; z = ((_Complex float (*)(_Complex float))fp)(z); return {__real__ z, __imag__ z}; }
    if (fmt == F64) { _Complex double z; __real__ z = x; __imag__ z = y; z = ((_Complex double (*)(_Complex double))fp)(z); return {__real__ z, __imag__ z}; }
    _Complex long double z; __real__ z = x; __imag__ z = y; z = ((_Complex long double (*)(_Complex long double))fp)(z); return {__real__ z, __imag__ z}; }
  if (fmt == F32) { std::complex<float> z(x, y); auto r = ((std::complex<float> (*)(const std::complex<float>&))fp)(z); return {r.real(), r.imag()}; }
  if (fmt == F64) { std::complex<double> z(x, y); auto r = ((std::complex<double> (*)(const std::complex<double>&))fp)(z); return {r.real(), r.imag()}; }
  std::complex<LD> z(x, y); return ((std::complex<LD> (*)(const std::complex<LD>&))fp)(z); }
// L = log z for z != 0
static CQ clogq_(LD x, LD y) { Q X = x, Y = y; Q m = fmaxq(fabsq(X), fabsq(Y)); int e; frexpq(m, &e); Q re; if (e >= -2 && e <= 2) re = log1pq((X - 1)*(X + 1) + Y*Y)/2; else { Q a = ldexpq(X, -e), b = ldexpq(Y, -e); re = logq(a*a + b*b)/2 + e*LN2Q; } return {re, atan2q(Y, X)}; }
static CQ refz(int n, LD x, LD y) { // principal value; on the cut: convention Im = -pi ln^{n-1} x/(n-1)! (lower side of the cut for the limit from below)
  if (x == 0 && y == 0) return {0, 0}; CQ o[64]; int sc; CQ L = clogq_(x, y); if (y == 0) L.im = x < 0 ? PIQ : (Q)0; int hp = y > 0 || (y == 0 && !std::signbit(y) && false) ? 1 : -1; if (x == 1 && y == 0) return {zetai(n), 0}; liq(n, L, hp, o, sc); return {ldexpq(o[n].re, sc), ldexpq(o[n].im, sc)}; }
struct R { double ratio; LD x, y, vr, vi; Q rr, ri; };
static double evalre(LD x, R& r) { // real function
  r.x = x; r.y = 0; LD v = callr(x); r.vr = v; r.vi = 0; CQ F = refz(N, x, 0); r.rr = F.re; r.ri = 0; if (!std::isfinite(v)) return INFINITY;
  LD base = (LD)absq_(F) + std::min((LD)1, std::fabs(x)); LD e = (LD)fabsq((Q)v - F.re) - 8*ETA[fmt]; if (e < 0) e = 0; if (e == 0) return 0; return (double)(e/(EPS[fmt]*base)); }
static double evalz(LD x, LD y, R& r) {
  r.x = x; r.y = y; auto v = callc(x, y); r.vr = v.real(); r.vi = v.imag(); CQ F = refz(N, x, y); r.rr = F.re; r.ri = F.im; if (!std::isfinite(r.vr) || !std::isfinite(r.vi)) return INFINITY;
  LD base = (LD)absq_(F) + std::min((LD)1, std::hypot(x, y)); LD e = (LD)hypotq((Q)r.vr - F.re, (Q)r.vi - F.im) - 128*ETA[fmt]; if (e <= 0) return 0; return (double)(e/(EPS[fmt]*base)); }
static int zs = 1;
static double evalax(LD x, R& r) { LD y = zs < 0 ? -0.0L : 0.0L; double q = evalz(x, y, r); if (x <= 1 && r.vi != 0) return INFINITY; return q; }
static bool useim() { return kind == "sl" ? N%2 == 1 : N%2 == 0; }
static Q clq(LD y) { // y in [0, 2pi rounded)
  if (y == 0) return useim() || N == 1 ? (Q)0 : zetai(N);
  Q c = (Q)y; if (c > PIQ) c -= 2*PIQ; CQ o[64]; int sc; liq(N, {0, c}, c > 0 ? 1 : -1, o, sc); return ldexpq(useim() ? o[N].im : o[N].re, sc); }
static double evalcl(LD x, R& r) {
  r.x = x; r.y = 0; LD v = callr(x); r.vr = v; r.vi = 0; LD P = rnd(6.283185307179586476925286766559L); LD ax = std::fabs(x), y = std::fmod(ax, P); bool out = ax >= P; Q F = clq(y); if (x < 0 && useim()) F = -F; r.rr = F; r.ri = 0;
  LD cond = 0; if (N == 1 && kind == "cl") { if (y == 0) return v == INFINITY ? 0 : INFINITY; if (y > 3.2L) cond = 0.01L/(LD)(2*PIQ - (Q)y); }
  if (!std::isfinite(v)) return INFINITY; LD base = (LD)fabsq(F) + (out ? 1 : std::min((LD)1, y)) + cond;
  LD e = (LD)fabsq((Q)v - F) - 8*ETA[fmt]; if (e <= 0) return 0; double ra = (double)(e/(EPS[fmt]*base));
  if (out && ra > 1 && !(N == 1 && kind == "cl")) { // a more accurate reduction is also fine
    Q t = fmodq((Q)ax, 2*PIQ); Q c = t > PIQ ? t - 2*PIQ : t; CQ o[64]; int sc; if (c != 0) { liq(N, {0, c}, c > 0 ? 1 : -1, o, sc); Q G = ldexpq(useim() ? o[N].im : o[N].re, sc); if (x < 0 && useim()) G = -G; LD e2 = (LD)fabsq((Q)v - G); double rb = (double)(e2/(EPS[fmt]*((LD)fabsq(G) + 1))); if (rb < ra && ax < 1e12L) ra = rb; } }
  return ra; }
struct B { char k; LD lo, hi; int kind, sgn; LD a0, a1, t0, t1; double tol; };
static std::mutex mu; static R best{-1, 0, 0, 0, 0, 0, 0}; static double bestx = -1; static std::atomic<long> evals{0};
static void note(double ratio, double tol, R r) { evals++; double x = ratio/tol; std::lock_guard<std::mutex> g(mu); if (x > bestx) { bestx = x; r.ratio = ratio; best = r; } }
int main(int argc, char** argv) {
  double tl = 10; long per = 2000; unsigned seed = 1; double stop = 1; 
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-so") so = nx(); else if (a == "-zs") zs = atoi(nx().c_str()); else if (a == "-sym") sym = nx(); else if (a == "-kind") kind = nx(); else if (a == "-n") N = atoi(nx().c_str()); else if (a == "-fmt") { auto f = nx(); fmt = f == "f32" ? F32 : f == "f64" ? F64 : F80; } else if (a == "-abi") abi = nx(); else if (a == "-iarg") { iarg = atol(nx().c_str()); hasi = true; } else if (a == "-t") tl = atof(nx().c_str()); else if (a == "-per") per = atol(nx().c_str()); else if (a == "-seed") seed = atoi(nx().c_str()); else if (a == "-stop") stop = atof(nx().c_str()); else return 2; }
  void* h = dlopen(so.c_str(), RTLD_NOW); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; } fp = dlsym(h, sym.c_str()); if (!fp) { fprintf(stderr, "no symbol %s\n", sym.c_str()); return 3; }
  std::vector<B> bs; std::string line;
  while (std::getline(std::cin, line)) { std::istringstream is(line); std::string k; is >> k; auto ld = [&] { std::string s; is >> s; return strtold(s.c_str(), nullptr); }; B b{}; b.k = k[0];
    if (k == "x") { b.lo = ld(); b.hi = ld(); is >> b.kind >> b.sgn; b.tol = (double)ld(); } else if (k == "z") { b.a0 = ld(); b.a1 = ld(); b.t0 = ld(); b.t1 = ld(); b.tol = (double)ld(); } else if (k == "p") { b.lo = ld(); if (kind == "li") b.hi = ld(); b.tol = (double)ld(); } else continue; bs.push_back(b); }
  auto t0 = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  std::atomic<long> next{0}; const int T = 8; long rounds = (per + 49)/50; long total = (long)bs.size()*rounds; std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) th.emplace_back([&] {
    for (;;) { long j = next++; if (j >= total || el() > tl || bestx > stop*1e6) return; if (bestx > stop && el() > tl/4) return; const B& b = bs[j % bs.size()]; std::mt19937_64 g(seed*1000003ull + j); auto U = [&] { return (LD)(g() >> 11)*0x1p-53L; };
      for (int k = 0; k < 50; ++k) { R r; LD u = U(), v = U(); int c = j < (long)bs.size() ? k : 99; if (k % 10 == 9) { u = U()*1e-3L; } if (k % 10 == 8) u = 1 - U()*1e-3L; if (k % 7 == 6) v = U()*1e-3L; if (k % 7 == 5) v = 1 - U()*1e-3L;
        if (b.k == 'p') { if (k) break; double q = kind == "li" ? evalz(rnd(b.lo), rnd(b.hi), r) : kind == "re" ? evalre(rnd(b.lo), r) : kind == "ax" ? evalax(rnd(b.lo), r) : evalcl(rnd(b.lo), r); note(q, b.tol, r); }
        else if (b.k == 'x') { if (c == 0) u = 0; if (c == 1) u = 1; LD x; LD A = std::fabs(b.lo), Z = std::fabs(b.hi); if (A > Z) std::swap(A, Z); if (A > 0 && Z/A > 4) x = A*std::exp(u*std::log(Z/A)); else x = A + (Z - A)*u; if (b.lo < 0 || (b.kind == 1 && b.sgn < 0)) x = -x; if (c == 0) x = b.lo; if (c == 1) x = b.hi; if (c == 0 && b.kind == 1) x = A*b.sgn; 
          x = rnd(x);
          if (kind == "re") note(evalre(x, r), b.tol, r); else if (kind == "ax") note(evalax(x, r), b.tol, r); else { if (b.kind == 1) { LD P = rnd(6.283185307179586476925286766559L); LD kk = std::floor(std::exp(U()*8)); x = rnd(x + (x < 0 ? -kk : kk)*P); if (std::fabs(x) < P) continue; } note(evalcl(x, r), b.tol, r); } }
        else { if (c < 4) { u = c & 1; v = c >> 1; } LD a = b.a0 + (b.a1 - b.a0)*u, th_ = b.t0 + (b.t1 - b.t0)*v; LD m = std::exp(a); LD x = rnd(m*std::cos(th_)), y = rnd(m*std::sin(th_)); if (!std::isfinite(x) || !std::isfinite(y)) { LD s = FMX[fmt]*(0.5L + 0.5L*u); x = rnd(s*std::cos(th_)); y = rnd(s*std::sin(th_)); } if (y == 0) y = b.t1 > 0 ? ETA[fmt] : -ETA[fmt]; note(evalz(x, y, r), b.tol, r); } } } });
  for (auto& t : th) t.join();
  char q1[80], q2[80]; quadmath_snprintf(q1, sizeof q1, "%.25Qg", best.rr); quadmath_snprintf(q2, sizeof q2, "%.25Qg", best.ri);
  printf("{\"evals\":%ld,\"rel\":%g,\"ratio\":%g,\"x\":\"%La\",\"y\":\"%La\",\"xd\":\"%.21Lg\",\"yd\":\"%.21Lg\",\"got\":[\"%.21Lg\",\"%.21Lg\"],\"expected\":[\"%s\",\"%s\"],\"seconds\":%g}\n", (long)evals, std::isfinite(bestx) ? bestx : 1e99, std::isfinite(best.ratio) ? best.ratio : 1e99, best.x, best.y, best.x, best.y, best.vr, best.vi, q1, q2, el()); return 0; }
