// Taylor models (1 or 2 real variables in [-1,1]) with double-double
// coefficients, a block exponent, an exact constant offset and a rigorous
// remainder.  value(p) = off + 2^e * ( sum c_k p^k  + [-rem,rem] )
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <vector>
#include <memory>
#include <stdexcept>
#include <algorithm>
#include <quadmath.h>

typedef __float128 Q;
typedef long double LD;

struct TMFail : std::runtime_error { TMFail(const char* s) : std::runtime_error(s) {} };

struct DD { double h, l; };
static inline DD two_sum(double a, double b) { double s = a + b, bb = s - a; return {s, (a - (s - bb)) + (b - bb)}; }
static inline DD quick(double a, double b) { double s = a + b; return {s, b - (s - a)}; }
static inline DD dadd(DD a, DD b) { DD s = two_sum(a.h, b.h), t = two_sum(a.l, b.l); s.l += t.h; s = quick(s.h, s.l); s.l += t.l; return quick(s.h, s.l); }
static inline DD dmul(DD a, DD b) { double p = a.h*b.h, e = std::fma(a.h, b.h, -p); e += a.h*b.l + a.l*b.h; return quick(p, e); }
static inline DD dneg(DD a) { return {-a.h, -a.l}; }
static inline DD q2dd(Q x) { double h = (double)x; if (!std::isfinite(h)) throw TMFail("q2dd"); double l = (double)(x - (Q)h); return {h, l}; }
static inline Q dd2q(DD a) { return (Q)a.h + (Q)a.l; }
static inline DD ddiv(DD a, DD b) { return q2dd(dd2q(a)/dd2q(b)); }

static const int MAXDEG = 48;
extern thread_local int g_dim;      // 1 or 2
extern thread_local int g_deg;      // truncation degree
extern thread_local double g_thr;   // relative threshold for dropping trailing blocks
static inline int nb(int k) { return g_dim == 1 ? 1 : k + 1; }
static inline int st(int k) { return g_dim == 1 ? k : k*(k + 1)/2; }
static inline int nc(int deg) { return st(deg + 1); }

static inline double up(double x) { return x*(1 + 4e-16) + 5e-324; }

struct TM {
  int e = 0; int deg = 0; double off = 0; double rem = 0;
  std::vector<double> h, l;
  TM() : h(1, 0.0), l(1, 0.0) {}
  static TM constant(Q x) {
    TM t; if (x == 0) return t;
    int ex; Q m = frexpq(x, &ex); DD d = q2dd(m); t.e = ex; t.h[0] = d.h; t.l[0] = d.l;
    Q r = m - dd2q(d); if (r != 0) t.rem = std::fabs((double)r)*1.01 + 1e-300;
    return t;
  }
  bool isconst() const { return deg == 0 && rem == 0; }
  double bn(int k) const { double s = 0; int a = st(k), b = a + nb(k); for (int i = a; i < b; ++i) s += std::fabs(h[i]); return s*(1 + 1e-14); }
  void norms(double* n) const { for (int k = 0; k <= deg; ++k) n[k] = bn(k); }
  double varsum() const { double s = 0; for (int k = 1; k <= deg; ++k) s += bn(k); return s*(1 + 1e-14) + rem; } // variation + remainder
  double norm() const { return bn(0) + varsum(); }
  Q c0() const { return (Q)h[0] + (Q)l[0]; }
  Q cen() const { return (Q)off + ldexpq(c0(), e); }
  // rescale so that the largest block norm is about 1; drop negligible tail
  void clean() {
    double n[MAXDEG + 2]; norms(n); double m = 0; for (int k = 0; k <= deg; ++k) m = std::max(m, n[k]);
    if (!std::isfinite(m) || !std::isfinite(rem)) throw TMFail("nonfinite");
    double ref = std::max(m, rem);
    while (deg > 0 && n[deg] <= ref*g_thr) { rem = up(rem + n[deg]); --deg; }
    h.resize(nc(deg)); l.resize(nc(deg));
    double mm = std::max(m, rem);
    if (mm == 0) { e = 0; return; }
    int ex; std::frexp(mm, &ex);
    if (ex > 20 || ex < -20) { scale2(-ex); e += ex; }
  }
  void scale2(int k) { // multiply the stored numbers by 2^k (value changes unless e adjusted)
    if (k == 0) return;
    if (k < -1000) { // everything flushes
      double s = norm(); (void)s; deg = 0; h.assign(1, 0.0); l.assign(1, 0.0); rem = 1e-290; return; }
    if (k > 1000) { double f0 = std::ldexp(1.0, 1000); for (auto& x : h) x *= f0; for (auto& x : l) x *= f0; rem = rem > 0 ? up(rem*f0) : 0; scale2(k - 1000); return; }
    double f = std::ldexp(1.0, k);
    for (auto& x : h) x *= f; for (auto& x : l) x *= f; rem = rem*f;
    if (k < -400) rem = up(rem + 1e-290); // possible loss to denormals (with any sane scale this is negligible)
    if (!std::isfinite(rem)) throw TMFail("scale");
  }
  TM fold() const {
    if (off == 0) return *this;
    TM t = *this; t.off = 0;
    int eo; std::frexp(off, &eo);
    int E = std::max(eo, e);
    t.scale2(e - E); t.e = E;
    DD c = dadd(DD{t.h[0], t.l[0]}, DD{std::ldexp(off, -E), 0});
    t.h[0] = c.h; t.l[0] = c.l; t.rem = up(t.rem + std::fabs(c.h)*1e-31);
    return t;
  }
  bool zero() const { return off == 0 && deg == 0 && rem == 0 && h[0] == 0 && l[0] == 0; }
  // bounds as long double, outward
  void bounds(LD& lo, LD& hi) const {
    Q c = cen(); Q v = ldexpq((Q)varsum(), e);
    Q a = c - v, b = c + v; Q s = (fabsq(c) + v)*(Q)1e-31;
    lo = (LD)(a - s); hi = (LD)(b + s);
    lo = std::nextafterl(lo, -INFINITY); hi = std::nextafterl(hi, INFINITY);
    if (a - s >= 0 && lo < 0) lo = 0; if (b + s <= 0 && hi > 0) hi = 0;
  }
  LD sup() const { LD a, b; bounds(a, b); return std::max(std::fabs(a), std::fabs(b)); }
  LD inf() const { LD a, b; bounds(a, b); if (a <= 0 && b >= 0) return 0; return std::min(std::fabs(a), std::fabs(b)); }
  void addrem(LD r) { // absolute remainder
    if (r == 0) return; if (!(r < INFINITY)) throw TMFail("addrem");
    int ex; LD m = std::frexp(r, &ex); int d = ex - e;
    if (d > 900) { // raise exponent
      scale2(e - ex); e = ex; d = 0; }
    double x = d < -1000 ? 1e-300 : std::ldexp((double)m*(1 + 1e-15), d);
    rem = up(rem + x);
  }
};

static inline TM tneg(const TM& a) { TM t = a; t.off = -t.off; for (auto& x : t.h) x = -x; for (auto& x : t.l) x = -x; return t; }

static inline TM taddraw(const TM& a, const TM& b, double sg) {
  // ignoring off
  if (b.deg == 0 && b.rem == 0 && b.h[0] == 0 && b.l[0] == 0) return a;
  if (a.deg == 0 && a.rem == 0 && a.h[0] == 0 && a.l[0] == 0) { TM t = b; if (sg < 0) { double o = t.off; t = tneg(t); t.off = o; } return t; }
  TM x = a, y = b; int E = std::max(a.e, b.e); x.scale2(a.e - E); y.scale2(b.e - E);
  TM r; r.e = E; r.deg = std::max(x.deg, y.deg); int n = nc(r.deg); r.h.assign(n, 0.0); r.l.assign(n, 0.0);
  x.h.resize(n, 0.0); x.l.resize(n, 0.0); y.h.resize(n, 0.0); y.l.resize(n, 0.0);
  double s = 0;
  for (int i = 0; i < n; ++i) { DD v = dadd(DD{x.h[i], x.l[i]}, DD{sg*y.h[i], sg*y.l[i]}); r.h[i] = v.h; r.l[i] = v.l; s += std::fabs(v.h); }
  r.rem = up(up(x.rem + y.rem) + s*4e-32);
  r.clean(); return r;
}
static inline TM tadd(const TM& a, const TM& b, double sg = 1) {
  double so = a.off + sg*b.off; DD ex = two_sum(a.off, sg*b.off);
  if (ex.l == 0 ) { TM r = taddraw(a, b, sg); r.off = so; return r; }
  TM r = taddraw(a.fold(), b.fold(), sg); r.off = 0; return r;
}
static inline TM tsub(const TM& a, const TM& b) { return tadd(a, b, -1); }

// out (accumulators oh/ol over nc(N) entries) += a*b ; returns error bound contribution; tail[] collects degree>N norms
struct Acc {
  int N; std::vector<double> oh, ol; double err = 0; double tail[2*MAXDEG + 4];
  Acc(int N_) : N(N_), oh(nc(N_), 0.0), ol(nc(N_), 0.0) { std::memset(tail, 0, sizeof tail); }
};
static inline void blk_dd(const double* ah, const double* al, int na, const double* bh, const double* bl, int nbk, double* oh, double* ol) {
  for (int i = 0; i < na; ++i) {
    const double x = ah[i], xl = al[i]; if (x == 0) continue; double* ph = oh + i; double* pl = ol + i;
    for (int j = 0; j < nbk; ++j) {
      double p = x*bh[j]; double e = std::fma(x, bh[j], -p); e += x*bl[j] + xl*bh[j];
      double o = ph[j], s = o + p, bb = s - o; double e2 = (o - (s - bb)) + (p - bb);
      ph[j] = s; pl[j] += e + e2;
    }
  }
}
static inline void blk_d(const double* ah, int na, const double* bh, int nbk, double* oh, double* ol) {
  for (int i = 0; i < na; ++i) {
    const double x = ah[i]; if (x == 0) continue; double* pl = ol + i; (void)oh;
    for (int j = 0; j < nbk; ++j) pl[j] += x*bh[j];
  }
}
// accumulate the product of blocks [k][l]; scale = reference magnitude
static inline void acc_block(Acc& A, const double* ah, const double* al, int k, double na, const double* bh, const double* bl, int l, double nbv, double scale) {
  double p = na*nbv; if (p == 0) return;
  if (k + l > A.N) { A.tail[k + l] += p; return; }
  if (p < scale*1e-33) { A.err += p; return; }
  double* oh = &A.oh[st(k + l)]; double* ol = &A.ol[st(k + l)];
  if (p < scale*1e-15) { blk_d(ah + st(k), nb(k), bh + st(l), nb(l), oh, ol); A.err += p*3e-16; }
  else blk_dd(ah + st(k), al + st(k), nb(k), bh + st(l), bl + st(l), nb(l), oh, ol);
}
static inline void acc_mul(Acc& A, const TM& a, const TM& b) {
  double na[MAXDEG + 2], nbb[MAXDEG + 2]; a.norms(na); b.norms(nbb);
  double NA = 0, NB = 0; for (int k = 0; k <= a.deg; ++k) NA += na[k]; for (int k = 0; k <= b.deg; ++k) NB += nbb[k];
  double sc = NA*NB;
  for (int k = 0; k <= a.deg; ++k) for (int l = 0; l <= b.deg; ++l) acc_block(A, a.h.data(), a.l.data(), k, na[k], b.h.data(), b.l.data(), l, nbb[l], sc);
  A.err += sc*1e-29;
}
static inline double acc_tail(const Acc& A) { double s = 0; for (int k = A.N + 1; k <= 2*MAXDEG; ++k) s += A.tail[k]; return s*(1 + 1e-12); }
static inline TM acc_fin(Acc& A, int e, double rem) {
  TM r; r.e = e; r.deg = A.N; int n = nc(A.N); r.h.resize(n); r.l.resize(n);
  for (int i = 0; i < n; ++i) { DD d = two_sum(A.oh[i], A.ol[i]); r.h[i] = d.h; r.l[i] = d.l; }
  r.rem = up(rem + A.err + acc_tail(A)); r.clean(); return r;
}
static inline TM tscale(const TM& a0, Q c) { // multiply by exact real
  if (c == 0) return TM();
  TM a = a0; 
  int ex; Q m = frexpq(c, &ex);
  if (m == (Q)0.5 || m == (Q)-0.5) { // power of two: exact
    if (m < 0) a = tneg(a);
    if (a.off != 0) { double o = std::ldexp(a.off, ex - 1); if (!std::isfinite(o) || std::fabs(o) < 1e-200) a = a.fold(); else a.off = o; }
    a.e += ex - 1; return a;
  }
  a = a0.fold(); DD d = q2dd(m); double s = 0; int n = nc(a.deg);
  for (int i = 0; i < n; ++i) { DD v = dmul(DD{a.h[i], a.l[i]}, d); a.h[i] = v.h; a.l[i] = v.l; s += std::fabs(v.h); }
  a.e += ex; a.rem = up(up(a.rem*std::fabs(d.h)*(1 + 1e-15)) + s*2e-31); a.clean(); return a;
}
static inline TM tmul(const TM& a0, const TM& b0) {
  if (a0.isconst()) return tscale(b0, a0.cen());
  if (b0.isconst()) return tscale(a0, b0.cen());
  TM a = a0.fold(), b = b0.fold();
  Acc A(std::min(g_deg, a.deg + b.deg)); acc_mul(A, a, b);
  double NA = a.norm(), NB = b.norm();
  return acc_fin(A, a.e + b.e, up(a.rem*NB + b.rem*NA));
}
static inline TM tsqr(const TM& a) { return tmul(a, a); }

// 1/f
static inline TM tinv(const TM& f0) {
  TM f = f0.fold();
  if (f.isconst()) { if (f.c0() == 0) throw TMFail("inv0"); TM r = TM::constant(1/f.c0()); r.e -= f.e; r.rem = up(r.rem + 1e-33); return r; }
  double n[MAXDEG + 2]; f.norms(n);
  double v = f.varsum(); double c = std::fabs(f.h[0]); if (!(v < 0.97*c)) throw TMFail("inv range");
  DD ic = ddiv(DD{1, 0}, DD{f.h[0], f.l[0]});
  int N = g_deg; TM g; g.deg = N; g.h.assign(nc(N), 0.0); g.l.assign(nc(N), 0.0); g.h[0] = ic.h; g.l[0] = ic.l;
  double gn[MAXDEG + 2]; gn[0] = std::fabs(ic.h); double G = gn[0];
  for (int k = 1; k <= N; ++k) {
    Acc A(k); 
    for (int j = 1; j <= std::min(k, f.deg); ++j) acc_block(A, f.h.data(), f.l.data(), j, n[j], g.h.data(), g.l.data(), k - j, gn[k - j], c*G);
    double s = 0;
    for (int i = st(k); i < st(k) + nb(k); ++i) { DD d = two_sum(A.oh[i], A.ol[i]); d = dmul(dneg(d), ic); g.h[i] = d.h; g.l[i] = d.l; s += std::fabs(d.h); }
    gn[k] = s*(1 + 1e-14); if (gn[k] < G*g_thr*1e-3 && k >= f.deg) { g.deg = k; g.h.resize(nc(k)); g.l.resize(nc(k)); break; }
  }
  // residual 1 - f g
  Acc A(std::min(MAXDEG, f.deg + g.deg)); acc_mul(A, f, g);
  double r = 0; for (size_t i = 0; i < A.oh.size(); ++i) { DD d = two_sum(A.oh[i], A.ol[i]); if (i == 0) d = dadd(d, DD{-1, 0}); r += std::fabs(d.h); }
  double GN = 0; for (int k = 0; k <= g.deg; ++k) GN += gn[k];
  r = up(r*(1 + 1e-12) + A.err + acc_tail(A) + f.rem*GN); if (!(r < 0.5)) throw TMFail("inv residual");
  g.rem = up(r*GN*(1 + 1e-12)/(1 - r)); g.e = -f.e; g.clean(); return g;
}
static inline TM tdiv(const TM& a, const TM& b) {
  if (b.isconst()) { Q c = b.cen(); if (c == 0) throw TMFail("div0"); int ex; Q m = frexpq(c, &ex); if (m == (Q)0.5 || m == (Q)-0.5) return tscale(a, 1/c);
    TM t = tscale(a, 1/c); t.rem = up(t.rem + t.norm()*1e-32); return t; }
  return tmul(a, tinv(b)); }

// sqrt, f > 0
static inline TM tsqrt(const TM& f0) {
  TM f = f0.fold();
  if (f.e & 1) { f.e += 1; f.scale2(-1); }
  if (f.isconst()) { if (f.c0() < 0) throw TMFail("sqrt<0"); TM r = TM::constant(sqrtq(f.c0())); r.e += f.e/2; r.rem = up(r.rem + 1e-33); return r; }
  double v = f.varsum(), c = f.h[0]; if (!(v < 0.97*c)) throw TMFail("sqrt range");
  DD g0 = q2dd(sqrtq(f.c0())); DD ic = ddiv(DD{0.5, 0}, g0);
  int N = g_deg; TM g; g.deg = N; g.h.assign(nc(N), 0.0); g.l.assign(nc(N), 0.0); g.h[0] = g0.h; g.l[0] = g0.l;
  double gn[MAXDEG + 2]; gn[0] = g0.h;
  for (int k = 1; k <= N; ++k) {
    Acc A(k);
    for (int j = 1; j < k; ++j) acc_block(A, g.h.data(), g.l.data(), j, gn[j], g.h.data(), g.l.data(), k - j, gn[k - j], c);
    double s = 0;
    for (int i = st(k); i < st(k) + nb(k); ++i) {
      DD d = two_sum(A.oh[i], A.ol[i]); DD fk = k <= f.deg ? DD{f.h[i], f.l[i]} : DD{0, 0};
      d = dmul(dadd(fk, dneg(d)), ic); g.h[i] = d.h; g.l[i] = d.l; s += std::fabs(d.h); }
    gn[k] = s*(1 + 1e-14); if (gn[k] < gn[0]*g_thr*1e-3 && k >= f.deg) { g.deg = k; g.h.resize(nc(k)); g.l.resize(nc(k)); break; }
  }
  Acc A(std::min(MAXDEG, 2*g.deg)); acc_mul(A, g, g);
  double r = 0; for (size_t i = 0; i < A.oh.size(); ++i) { DD d = two_sum(A.oh[i], A.ol[i]); if ((int)i < nc(f.deg)) d = dadd(d, DD{-f.h[i], -f.l[i]}); r += std::fabs(d.h); }
  for (size_t i = A.oh.size(); (int)i < nc(f.deg); ++i) r += std::fabs(f.h[i]);
  r = up(r*(1 + 1e-12) + A.err + acc_tail(A) + f.rem);
  double m = std::sqrt(c - v); // inf sqrt(f)
  double gv = 0; for (int k = 1; k <= g.deg; ++k) gv += gn[k];
  if (!(gv < 0.999*gn[0])) throw TMFail("sqrt positivity");
  // |sqrt f - g| = |f - g^2|/(sqrt f + g) <= r/sqrt f since g > 0
  g.rem = up(r/m*(1 + 1e-12)); g.e = f.e/2; g.clean(); return g;
}

struct CTM { TM re, im; };
static inline CTM cadd(const CTM& a, const CTM& b) { return {tadd(a.re, b.re), tadd(a.im, b.im)}; }
static inline CTM csub(const CTM& a, const CTM& b) { return {tsub(a.re, b.re), tsub(a.im, b.im)}; }
static inline CTM cmul(const CTM& a, const CTM& b) { return {tsub(tmul(a.re, b.re), tmul(a.im, b.im)), tadd(tmul(a.re, b.im), tmul(a.im, b.re))}; }
static inline CTM cinv(const CTM& a) { TM n = tinv(tadd(tsqr(a.re), tsqr(a.im))); return {tmul(a.re, n), tneg(tmul(a.im, n))}; }

// complex recurrences used by log and exp.  phi: complex (no constant term used for log)
struct CB { std::vector<double> rh, rl, ih, il; double n[MAXDEG + 2]; int deg; };
static inline void cb_init(CB& b, int N) { b.rh.assign(nc(N), 0.0); b.rl = b.ih = b.il = b.rh; b.deg = N; std::memset(b.n, 0, sizeof b.n); }

// log of complex V (not crossing the ray opposite to V's centre): returns log V, with imaginary part
// continued from th0 = principal arg of the centre (+ any multiple of 2 pi chosen by the caller)
// logc = log of centre given by caller as quad complex (so that the branch and the accuracy near 1 are its business)
static inline CTM clog_series(const CTM& V, Q lr, Q li) {
  // total values with common scale
  TM x = V.re, y = V.im;
  Q cx = x.cen(), cy = y.cen(); Q n2 = cx*cx + cy*cy; 
  int sc = 0; { Q m = std::max(fabsq(cx), fabsq(cy)); if (m == 0) throw TMFail("log0"); frexpq(m, &sc); Q X = ldexpq(cx, -sc), Y = ldexpq(cy, -sc); n2 = X*X + Y*Y; cx = X; cy = Y; }
  // phi = (V - V0)/V0 ; exponents relative
  int E = -2000000000; if (x.varsum() > 0) E = std::max(E, x.e); if (y.varsum() > 0) E = std::max(E, y.e);
  CTM out; 
  TM gr = TM::constant(lr), gi = TM::constant(li);
  gr.rem = up(gr.rem + gr.norm()*1e-33); gi.rem = up(gi.rem + gi.norm()*1e-33);
  if (E == -2000000000) { out.re = gr; out.im = gi; return out; }
  x.off = y.off = 0; x.scale2(x.e - E); y.scale2(y.e - E); x.e = y.e = 0;
  x.h[0] = x.l[0] = y.h[0] = y.l[0] = 0;
  double sE; { int d = E - sc; if (d > 60) throw TMFail("log spread"); sE = d < -1000 ? 0.0 : std::ldexp(1.0, d); }
  DD ur = q2dd(cx/n2), ui = q2dd(-cy/n2); // 1/V0 scaled
  int dg = std::max(x.deg, y.deg); x.h.resize(nc(dg), 0.0); x.l.resize(nc(dg), 0.0); y.h.resize(nc(dg), 0.0); y.l.resize(nc(dg), 0.0);
  CB p; cb_init(p, dg); // phi coefficients in units of 2^(E-sc)
  double remphi = up((x.rem + y.rem)*(std::fabs(ur.h) + std::fabs(ui.h))*1.0001);
  double var = 0;
  for (int k = 1; k <= dg; ++k) { double s1 = 0, s2 = 0;
    for (int i = st(k); i < st(k) + nb(k); ++i) {
      DD X{x.h[i], x.l[i]}, Y{y.h[i], y.l[i]};
      DD a = dadd(dmul(X, ur), dneg(dmul(Y, ui))), b = dadd(dmul(X, ui), dmul(Y, ur));
      p.rh[i] = a.h; p.rl[i] = a.l; p.ih[i] = b.h; p.il[i] = b.l; s1 += std::fabs(a.h); s2 += std::fabs(b.h); }
    p.n[k] = std::hypot(s1, s2)*(1 + 1e-14); var += p.n[k]; }
  remphi = up(remphi + var*1e-30);
  double tv = (var + remphi)*sE; if (!(tv < 0.97)) throw TMFail("log range");
  int N = g_deg; CB g; cb_init(g, N); int gd = N;
  double S = var; long ndbl = 0;
  for (int k = 1; k <= N; ++k) {
    // k g_k = k phi_k - sE * sum_{j=1}^{k-1} j g_j phi_{k-j}
    double s1 = 0, s2 = 0; 
    static thread_local std::vector<double> arh, arl, aih, ail; arh.assign(nb(k), 0.0); arl = arh; aih = arh; ail = arh;
    if (sE > 0) for (int j = 1; j < k; ++j) { int m = k - j; if (m > dg) continue;
      double pr = g.n[j]*p.n[m]*sE; if (pr == 0 || pr < S*1e-34) continue;
      // temp block product
      static thread_local std::vector<double> th, tl; 
      auto run = [&](const std::vector<double>& ah, const std::vector<double>& al, const std::vector<double>& bh, const std::vector<double>& bl, std::vector<double>& oh, std::vector<double>& ol, double sg) {
        th.assign(nb(k), 0.0); tl.assign(nb(k), 0.0);
        if (pr < S*1e-15) { ++ndbl; blk_d(&ah[st(j)], nb(j), &bh[st(m)], nb(m), th.data(), tl.data()); }
        else blk_dd(&ah[st(j)], &al[st(j)], nb(j), &bh[st(m)], &bl[st(m)], nb(m), th.data(), tl.data());
        for (int i = 0; i < nb(k); ++i) { DD d = two_sum(th[i], tl[i]); double w = sg*j; DD z = dmul(d, DD{w, 0}); DD o = dadd(DD{oh[i], ol[i]}, z); oh[i] = o.h; ol[i] = o.l; } };
      run(g.rh, g.rl, p.rh, p.rl, arh, arl, 1); run(g.ih, g.il, p.ih, p.il, arh, arl, -1);
      run(g.rh, g.rl, p.ih, p.il, aih, ail, 1); run(g.ih, g.il, p.rh, p.rl, aih, ail, 1);
    }
    DD fk = ddiv(DD{-sE, 0}, DD{(double)k, 0});
    for (int i = 0; i < nb(k); ++i) { int t = st(k) + i;
      DD a = dmul(DD{arh[i], arl[i]}, fk), b = dmul(DD{aih[i], ail[i]}, fk);
      if (k <= dg) { a = dadd(a, DD{p.rh[t], p.rl[t]}); b = dadd(b, DD{p.ih[t], p.il[t]}); }
      g.rh[t] = a.h; g.rl[t] = a.l; g.ih[t] = b.h; g.il[t] = b.l; s1 += std::fabs(a.h); s2 += std::fabs(b.h); }
    g.n[k] = std::hypot(s1, s2)*(1 + 1e-14);
    if (k >= dg && g.n[k] < S*g_thr*1e-3) { gd = k; break; }
  }
  // residual: D phi - (1 + sE phi) D g, degree by degree; degrees <= gd vanish up to rounding
  double res = 0; 
  for (int k = 1; k <= gd; ++k) res += (g.n[k] + (k <= dg ? p.n[k] : 0))*2e-29;  // rounding of the recurrence
  for (int j = 1; j <= gd; ++j) for (int m = 1; m <= dg; ++m) if (j + m > gd) res += sE*g.n[j]*p.n[m]*j/(double)(j + m);
  for (int k = gd + 1; k <= dg; ++k) res += p.n[k];
  res += S*1e-31*gd + S*4e-31*ndbl;
  double den = 1 - tv; res = up(res/den*(1 + 1e-12));
  // remainder of phi
  res = up(res + remphi/den*(1 + 1e-12));
  TM a, b; a.deg = b.deg = gd; a.h.assign(g.rh.begin(), g.rh.begin() + nc(gd)); a.l.assign(g.rl.begin(), g.rl.begin() + nc(gd));
  b.h.assign(g.ih.begin(), g.ih.begin() + nc(gd)); b.l.assign(g.il.begin(), g.il.begin() + nc(gd));
  a.e = b.e = E - sc; a.rem = b.rem = res; a.clean(); b.clean();
  out.re = tadd(gr, a); out.im = tadd(gi, b); return out;
}

// exp of complex f (analytic; centre value supplied)
static inline CTM cexp_series(const CTM& F, Q er, Q ei) {
  TM x = F.re.fold(), y = F.im.fold(); 
  // unit exponents
  auto unit = [](TM& t) { t.scale2(t.e); t.e = 0; };
  if (x.e > 60 || y.e > 60) throw TMFail("exp range"); unit(x); unit(y);
  double rem = x.rem + y.rem; int dg = std::max(x.deg, y.deg);
  x.h.resize(nc(dg), 0.0); x.l.resize(nc(dg), 0.0); y.h.resize(nc(dg), 0.0); y.l.resize(nc(dg), 0.0);
  CB p; cb_init(p, dg); double var = 0;
  for (int k = 1; k <= dg; ++k) { double s1 = 0, s2 = 0; for (int i = st(k); i < st(k) + nb(k); ++i) { p.rh[i] = x.h[i]; p.rl[i] = x.l[i]; p.ih[i] = y.h[i]; p.il[i] = y.l[i]; s1 += std::fabs(x.h[i]); s2 += std::fabs(y.h[i]); }
    p.n[k] = std::hypot(s1, s2)*(1 + 1e-14); var += p.n[k]; }
  if (!(var + rem < 20)) throw TMFail("exp var");
  int N = g_deg; CB g; cb_init(g, N); g.rh[0] = 1; g.n[0] = 1; int gd = N; double S = 1;
  for (int k = 1; k <= N; ++k) {
    double s1 = 0, s2 = 0; static thread_local std::vector<double> arh, arl, aih, ail, th, tl; arh.assign(nb(k), 0.0); arl = arh; aih = arh; ail = arh;
    for (int j = 1; j <= std::min(k, dg); ++j) { int m = k - j; double pr = p.n[j]*g.n[m]; if (pr < S*1e-34) continue;
      auto run = [&](const std::vector<double>& ah, const std::vector<double>& al, const std::vector<double>& bh, const std::vector<double>& bl, std::vector<double>& oh, std::vector<double>& ol, double sg) {
        th.assign(nb(k), 0.0); tl.assign(nb(k), 0.0);
        blk_dd(&ah[st(j)], &al[st(j)], nb(j), &bh[st(m)], &bl[st(m)], nb(m), th.data(), tl.data());
        for (int i = 0; i < nb(k); ++i) { DD d = two_sum(th[i], tl[i]); DD z = dmul(d, DD{sg*j, 0}); DD o = dadd(DD{oh[i], ol[i]}, z); oh[i] = o.h; ol[i] = o.l; } };
      run(p.rh, p.rl, g.rh, g.rl, arh, arl, 1); run(p.ih, p.il, g.ih, g.il, arh, arl, -1);
      run(p.rh, p.rl, g.ih, g.il, aih, ail, 1); run(p.ih, p.il, g.rh, g.rl, aih, ail, 1); }
    DD fk = ddiv(DD{1, 0}, DD{(double)k, 0});
    for (int i = 0; i < nb(k); ++i) { int t = st(k) + i; DD a = dmul(DD{arh[i], arl[i]}, fk), b = dmul(DD{aih[i], ail[i]}, fk);
      g.rh[t] = a.h; g.rl[t] = a.l; g.ih[t] = b.h; g.il[t] = b.l; s1 += std::fabs(a.h); s2 += std::fabs(b.h); }
    g.n[k] = std::hypot(s1, s2)*(1 + 1e-14); S = std::max(S, g.n[k]);
    if (k >= dg && g.n[k] < S*g_thr*1e-3) { gd = k; break; }
  }
  // D g - g D f = r ; |g - e^f| <= e^{var} * sum |r_k|/k * e^{var}
  double res = 0; for (int k = 0; k <= gd; ++k) res += g.n[k]*2e-29;
  res += S*1e-29;
  for (int j = 1; j <= dg; ++j) for (int m = 0; m <= gd; ++m) if (j + m > gd) res += g.n[m]*p.n[j]*j/(double)(j + m);
  double ev = std::exp(var)*(1 + 1e-12); res = up(res*ev*ev*(1 + 1e-12));
  res = up(res + ev*std::expm1(rem*1.0000001)*(1 + 1e-9) + ev*1e-31);
  TM a, b; a.deg = b.deg = gd; a.h.assign(g.rh.begin(), g.rh.begin() + nc(gd)); a.l.assign(g.rl.begin(), g.rl.begin() + nc(gd));
  b.h.assign(g.ih.begin(), g.ih.begin() + nc(gd)); b.l.assign(g.il.begin(), g.il.begin() + nc(gd)); a.rem = b.rem = res; a.clean(); b.clean();
  CTM c0{TM::constant(er), TM::constant(ei)}; c0.re.rem = up(c0.re.rem + 1e-32); c0.im.rem = up(c0.im.rem + 1e-32);
  if (ei == 0) { c0.im = TM(); }
  return cmul(CTM{a, b}, c0);
}
