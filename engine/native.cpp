// Native replay of relational/finite properties on the compiled functions.
//  -so lib -sym s -shape r|z|i|ir|iz -fmt f32|f64|f80 -abi c|cpp|f -mode history|odd|even|conj|nan|axis|run  [-t sec] [-seed k] [-ns n,n,...] [-sym2 s2 (axis)] [-order n]
//  extra interesting constants on stdin, one per line.  Prints one JSON line.
#include <dlfcn.h>
#include <complex>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <random>
#include <chrono>
#include <iostream>
#include <algorithm>
#include <unistd.h>
typedef long double LD; typedef std::complex<LD> C;
enum { F32, F64, F80 }; static int fmt = F64; static std::string abi, shape, mode; static void *fp, *fp2; static int order;
static LD rnd(LD x) { return fmt == F32 ? (LD)(float)x : fmt == F64 ? (LD)(double)x : x; }
static bool argchg = false;
static bool same(LD a, LD b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
static bool eqn(LD a, LD b) { return (a != a && b != b) || a == b; }
static LD cr(void* f, LD x) { if (abi == "f") { volatile double d = (double)x; double e = d; LD v = ((double (*)(double*))f)(&e); if (!same(d, e)) argchg = true; return v; }
  if (fmt == F32) return ((float (*)(float))f)((float)x); if (fmt == F64) return ((double (*)(double))f)((double)x); return ((LD (*)(LD))f)(x); }
template<class T> static C cpp(long n, bool hasn, LD x, LD y) { std::complex<T> z((T)x, (T)y), w = z, r; if (hasn) r = ((std::complex<T> (*)(long, const std::complex<T>&))fp)(n, z); else r = ((std::complex<T> (*)(const std::complex<T>&))fp)(z); if (!same(z.real(), w.real()) || !same(z.imag(), w.imag())) argchg = true; return C(r.real(), r.imag()); }
static C cz(LD x, LD y) {
  if (abi == "cpp") return fmt == F32 ? cpp<float>(0, false, x, y) : fmt == F64 ? cpp<double>(0, false, x, y) : cpp<LD>(0, false, x, y);
  if (abi == "f") { _Complex double z; __real__ z = x; __imag__ z = y; _Complex double w = z, r = ((_Complex double (*)(_Complex double*))fp)(&z); if (!same(__real__ z, __real__ w) || !same(__imag__ z, __imag__ w)) argchg = true; return C(__real__ r, __imag__ r); }
  if (fmt == F32) { _Complex float z; __real__ z = x; __imag__ z = y; z = ((_Complex float (*)(_Complex float))fp)(z); return C(__real__ z, __imag__ z); }
  if (fmt == F64) { _Complex double z; __real__ z = x; __imag__ z = y; z = ((_Complex double (*)(_Complex double))fp)(z); return C(__real__ z, __imag__ z); }
  _Complex long double z; __real__ z = x; __imag__ z = y; z = ((_Complex long double (*)(_Complex long double))fp)(z); return C(__real__ z, __imag__ z); }
struct A { long n; LD x, y; };
static C call(const A& a) {
  if (shape == "r") return C(cr(fp, a.x), 0); if (shape == "z") return cz(a.x, a.y); if (shape == "i") return C(((double (*)(long))fp)(a.n), 0);
  if (shape == "ir") return C(((double (*)(long, double))fp)(a.n, (double)a.x), 0); return cpp<double>(a.n, true, a.x, a.y); }
static std::vector<LD> consts; static std::vector<long> ns; static std::mt19937_64 g;
static LD U() { return (LD)(g() >> 11)*0x1p-53L; }
static LD MAXV() { return fmt == F32 ? (LD)__FLT_MAX__ : fmt == F64 ? (LD)__DBL_MAX__ : __LDBL_MAX__; }
static LD MINV() { return fmt == F32 ? (LD)__FLT_DENORM_MIN__ : fmt == F64 ? (LD)__DBL_DENORM_MIN__ : __LDBL_DENORM_MIN__; }
static LD nx(LD x, int k) { for (; k > 0; --k) x = fmt == F32 ? (LD)std::nextafter((float)x, INFINITY) : fmt == F64 ? (LD)std::nextafter((double)x, (double)INFINITY) : std::nextafter(x, (LD)INFINITY); for (; k < 0; ++k) x = fmt == F32 ? (LD)std::nextafter((float)x, -INFINITY) : fmt == F64 ? (LD)std::nextafter((double)x, -(double)INFINITY) : std::nextafter(x, -(LD)INFINITY); return x; }
static LD val(bool fin) {
  int k = g() % 100; LD s = g() & 1 ? 1 : -1;
  if (k < 25 && !consts.empty()) { LD c = rnd(consts[g() % consts.size()]); return s*nx(c, (int)(g() % 7) - 3); }
  if (k < 30) { static const LD sp[] = {0, 1, -1, 0.5L, 2, -2, -0.0L, 3.14159265358979323846L, 6.28318530717958647692L, 1.57079632679489661923L}; return s*rnd(sp[g() % 10]); }
  if (k < 33) return s*(g() & 1 ? MAXV() : MINV()*(1 + g() % 5));
  if (k < 35 && !fin) return s*INFINITY;
  if (k < 50) { LD e = (fmt == F32 ? 80 : fmt == F64 ? 690 : 11000)*(2*U() - 1); return s*rnd(std::exp(e)); }
  if (k < 60) return s*rnd(std::exp(20*(2*U() - 1)));
  if (k < 65 && !consts.empty()) { LD c = consts[g() % consts.size()]; return s*rnd(c*(1 + (2*U() - 1)*std::exp(-30*U()))); }
  if (k < 80) return s*rnd(12*U()); if (k < 90) return s*rnd(2*U()); return s*rnd(60*U()); }
static std::string fmtA(const A& a) { char b[300]; snprintf(b, sizeof b, "\"n\":%ld,\"x\":\"%La\",\"y\":\"%La\",\"xd\":\"%.21Lg\",\"yd\":\"%.21Lg\"", a.n, a.x, a.y, a.x, a.y); return b; }
static A cur; static void alrm(int) { std::string s = "{\"hang\":true," + fmtA(cur) + "}\n"; if (write(1, s.data(), s.size())) {} _exit(0); }
#include <signal.h>
static void crash(int s) { std::string t = "{\"crash\":" + std::to_string(s) + "," + fmtA(cur) + "}\n"; if (write(1, t.data(), t.size())) {} _exit(0); }
int main(int argc, char** argv) {
  double tl = 5; std::string so, sym, sym2; unsigned seed = 1; unsigned lim = 5; long maxn = 1L << 60;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto n = [&] { return std::string(argv[++i]); };
    if (a == "-so") so = n(); else if (a == "-sym") sym = n(); else if (a == "-sym2") sym2 = n(); else if (a == "-shape") shape = n(); else if (a == "-fmt") { auto f = n(); fmt = f == "f32" ? F32 : f == "f64" ? F64 : F80; } else if (a == "-abi") abi = n(); else if (a == "-mode") mode = n(); else if (a == "-t") tl = atof(n().c_str()); else if (a == "-seed") seed = atoi(n().c_str()); else if (a == "-lim") lim = atoi(n().c_str()); else if (a == "-max") maxn = atol(n().c_str()); else if (a == "-order") order = atoi(n().c_str());
    else if (a == "-ns") { std::string s = n(); size_t p = 0; while (p < s.size()) { size_t q = s.find(',', p); if (q == std::string::npos) q = s.size(); ns.push_back(strtol(s.substr(p, q - p).c_str(), 0, 10)); p = q + 1; } } else return 2; }
  void* h = dlopen(so.c_str(), RTLD_NOW); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; } fp = dlsym(h, sym.c_str()); if (!fp) { fprintf(stderr, "no symbol %s\n", sym.c_str()); return 3; } if (!sym2.empty()) fp2 = dlsym(h, sym2.c_str());
  std::string line; if (!isatty(0)) while (std::getline(std::cin, line)) { LD v = strtold(line.c_str(), 0); if (std::isfinite(v)) consts.push_back(std::fabs(v)); }
  if (ns.empty()) ns = {0}; g.seed(seed*7919u + 17); signal(SIGALRM, alrm); signal(SIGSEGV, crash); signal(SIGFPE, crash); signal(SIGILL, crash); signal(SIGABRT, crash); signal(SIGBUS, crash);
  auto t0 = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }; long ev = 0; std::string found; char b[600];
  auto gcall = [&](const A& a) { cur = a; alarm(lim); ev++; C r = call(a); return r; };
  auto rep = [&](const A& a, C r1, C r2, const char* m) { snprintf(b, sizeof b, ",\"got\":[\"%.21Lg\",\"%.21Lg\"],\"other\":[\"%.21Lg\",\"%.21Lg\"],\"what\":\"%s\"", r1.real(), r1.imag(), r2.real(), r2.imag(), m); found = fmtA(a) + b; };
  const LD q = NAN;
  std::vector<A> hist; std::vector<C> hres;
  for (long k = 0; k < maxn && el() < tl && found.empty(); ++k) {
    A a; a.n = ns[k % ns.size()]; if (shape == "i" && k >= (long)ns.size()) a.n = (long)(g() >> (g() % 64))*(g() & 1 ? 1 : -1); a.x = val(mode != "run" && mode != "history"); a.y = shape == "z" || shape == "iz" ? val(mode != "run" && mode != "history") : 0;
    if ((shape == "z" || shape == "iz") && g() % 4 == 0) { LD r = std::fabs(val(true)), th = 6.2831853071795864769L*U(); if (std::isfinite(r) && r < MAXV()/2) { a.x = rnd(r*std::cos(th)); a.y = rnd(r*std::sin(th)); } }
    argchg = false;
    if (mode == "run") { if (g() % 20 == 0) a.x = q; if ((shape == "z" || shape == "iz") && g() % 20 == 0) a.y = q; gcall(a); }
    else if (mode == "odd" || mode == "even" || mode == "clp" || mode == "slp") { bool odd = mode == "odd" || (mode == "clp" && a.n % 2 == 0) || (mode == "slp" && a.n % 2 != 0); A c = a; c.x = -a.x; C r = gcall(a), s = gcall(c); if (!eqn(r.real(), odd ? -s.real() : s.real())) rep(a, r, s, odd ? "f(x) and f(-x): not odd" : "f(x) and f(-x): not even"); }
    else if (mode == "conj") { if (a.y == 0) a.y = MINV()*(1 + g() % 3); A c = a; c.y = -a.y; C r = gcall(a), s = gcall(c); if (!eqn(r.real(), s.real()) || !eqn(r.imag(), -s.imag())) rep(a, r, s, "f(z) and f(conj z)"); }
    else if (mode == "nan") { if (shape == "z" || shape == "iz") { int m = g() % 3; if (m != 1) a.x = q; if (m != 0) a.y = q; } else a.x = q; if (k < 40 && shape != "r" && shape != "ir") { static const LD sp[] = {0, -0.0L, 1, -1, INFINITY, -INFINITY}; (k & 1 ? a.x : a.y) = sp[(k/2) % 6]; (k & 1 ? a.y : a.x) = q; } C r = gcall(a); if (!(r.real() != r.real() || ((shape == "z" || shape == "iz") && r.imag() != r.imag()))) rep(a, r, C(0, 0), "no component is NaN"); }
    else if (mode == "axis") { if (!std::isfinite(a.x)) continue; a.y = g() & 1 ? 0.0L : -0.0L; C r = gcall(a); LD v = fp2 ? cr(fp2, a.x) : 0; if (fp2 && !eqn(r.real(), v)) rep(a, r, C(v, 0), "real part and real-valued function"); else if (a.x <= 1 && !(r.imag() == 0)) rep(a, r, C(v, a.y), "imaginary part is not zero"); else if (a.x <= 1 && order && order <= 4 && fp2 && std::signbit(r.imag()) != std::signbit(a.y)) rep(a, r, C(v, a.y), "sign of the zero imaginary part");
      else if (a.x > 1 && std::isfinite(a.x)) { LD l = std::log(a.x), f = 1, p = l; for (int i = 2; i < order; ++i) { f *= i; p *= l; } LD e = -3.14159265358979323846264338327950288L*p/f; LD eps = fmt == F32 ? 0x1p-23L : fmt == F64 ? 0x1p-52L : 0x1p-63L; if (!(std::fabs(r.imag() - e) <= 60*eps*(std::fabs(e) + std::abs(r)) + 1e3L*MINV())) rep(a, r, C(v, e), "imaginary part on the cut"); } }
    else if (mode == "history") { // two passes over the same arguments, interleaved with other calls, compare bit for bit
      C r = gcall(a); if (argchg) { rep(a, r, r, "the by-reference argument was modified"); break; } hist.push_back(a); hres.push_back(r);
      auto chk = [&](size_t j) { C s = gcall(hist[j]); if (!same(s.real(), hres[j].real()) || !same(s.imag(), hres[j].imag())) rep(hist[j], hres[j], s, "result depends on earlier calls"); };
      A n2 = a; n2.x = nx(a.x, (int)(g() % 5) - 2); if (g() & 1) n2.x = -n2.x; if (g() % 3 == 0) n2.x = rnd(a.x*(1 + 1e-6L*(2*U() - 1))); hist.push_back(n2); hres.push_back(gcall(n2)); chk(hist.size() - 2); if (found.empty()) chk(hist.size() - 1); if (found.empty()) chk(g() % hist.size()); if (argchg && found.empty()) rep(a, r, r, "the by-reference argument was modified"); if (hist.size() > 200000) { hist.clear(); hres.clear(); } }
  }
  alarm(0);
  if (found.empty()) printf("{\"evals\":%ld}\n", ev); else printf("{\"evals\":%ld,\"found\":true,%s}\n", ev, found.c_str()); return 0; }
