// Reference polylogarithms (the mathematical specification): quad constants and Taylor models
#pragma once
#include "tm.hpp"
#include "zetatab.inc"
struct CQ { Q re, im; };
static inline CQ operator+(CQ a, CQ b) { return {a.re + b.re, a.im + b.im}; }
static inline CQ operator-(CQ a, CQ b) { return {a.re - b.re, a.im - b.im}; }
static inline CQ operator*(CQ a, CQ b) { return {a.re*b.re - a.im*b.im, a.re*b.im + a.im*b.re}; }
static inline CQ operator*(CQ a, Q b) { return {a.re*b, a.im*b}; }
static inline Q absq_(CQ a) { return hypotq(a.re, a.im); }
static inline CQ operator/(CQ a, CQ b) { // scaled
  Q m = fmaxq(fabsq(b.re), fabsq(b.im)); int e; frexpq(m, &e); b.re = ldexpq(b.re, -e); b.im = ldexpq(b.im, -e);
  Q n = b.re*b.re + b.im*b.im; CQ r = a*CQ{b.re/n, -b.im/n}; return {ldexpq(r.re, -e), ldexpq(r.im, -e)}; }
static inline CQ neg(CQ a) { return {-a.re, -a.im}; }
static const Q PIQ = 3.14159265358979323846264338327950288419716939937510Q;
static const Q LN2Q = 0.69314718055994530941723212145817656807550013436026Q;
static inline Q zetai(int m) { if (m > ZETAM) return 1; if (m < -ZETAM) throw TMFail("zeta range"); return ZETATAB[m + ZETAM]; }
static inline CQ cexpm1(CQ L) { Q em = expm1q(L.re); Q s = sinq(L.im/2); Q cm = -2*s*s; Q er = em + 1;
  return {em*(1 + cm) + cm, er*sinq(L.im)}; }
static inline CQ cexpq_(CQ L) { Q e = expq(L.re); return {e*cosq(L.im), e*sinq(L.im)}; }

// Li_k(e^L) for k=1..n (index k); hp=+1: upper side of the cut, -1: lower side, used when Im L==0
// returned values are scaled: true = 2^sc * value
static inline void liq(int n, CQ L, int hp, CQ* out, int& sc) {
  sc = 0;
  if (L.re < (Q)-0.7) { // power series
    Q kk = roundq(L.re/LN2Q); sc = (int)kk; CQ z1 = cexpq_({L.re - kk*LN2Q, L.im}); CQ z = {ldexpq(z1.re, sc), ldexpq(z1.im, sc)};
    for (int k = 1; k <= n; ++k) out[k] = {0, 0};
    CQ p = z1; Q az = absq_(z); 
    Q mag = 1;
    for (int j = 1; j < 400; ++j) { Q w = 1; for (int k = 1; k <= n; ++k) { w /= j; out[k] = out[k] + p*w; } p = p*z; mag *= az; if (mag < (Q)1e-37) break; }
    return;
  }
  if (L.re > (Q)0.7) { // inversion
    CQ inv[64]; int s2; liq(n, neg(L), -hp, inv, s2);
    int sg = L.im > 0 || (L.im == 0 && hp > 0) ? 1 : -1;
    CQ l = {L.re, L.im - sg*PIQ};
    for (int k = 1; k <= n; ++k) {
      // P_k(l) = sum_j 2 eta(2j) l^{k-2j}/(k-2j)!   (eta(0)=1/2)
      CQ P = {0, 0};
      for (int j = 0; 2*j <= k; ++j) { Q et = j == 0 ? (Q)0.5 : (1 - ldexpq(1, 1 - 2*j))*zetai(2*j); CQ t = {1, 0}; for (int i = 1; i <= k - 2*j; ++i) t = t*l*(1/(Q)i); P = P + t*(2*et); }
      CQ v = {ldexpq(inv[k].re, s2), ldexpq(inv[k].im, s2)};
      if (k % 2 == 0) v = neg(v);
      out[k] = v - P; }
    return;
  }
  // expansion about z=1
  CQ mL = neg(L); Q lr = logq(absq_(L)); Q th = atan2q(mL.im, mL.re); if (L.im == 0 && L.re > 0) th = hp > 0 ? -PIQ : PIQ;
  CQ lg = {lr, th};
  static const int M = 170; 
  CQ pw[M + 1]; pw[0] = {1, 0}; for (int i = 1; i <= M; ++i) pw[i] = pw[i - 1]*L*(1/(Q)i); // L^i/i!
  for (int k = 1; k <= n; ++k) {
    Q H = 0; for (int i = 1; i < k; ++i) H += 1/(Q)i;
    CQ s = pw[k - 1]*(CQ{H, 0} - lg);
    for (int j = 0; j <= M; ++j) { if (j == k - 1) continue; int m = k - j; if (m < 0 && (m % 2 == 0)) continue; s = s + pw[j]*zetai(m); }
    out[k] = s; }
}

// direction of the chart L = Lc + ha*s + i*hth*t (dim 2)  or  Lc + (ha + i*hth)*t (dim 1)
struct Chart { CQ Lc; Q ha, hth; int hp; };

struct Ref { int n; std::vector<CTM> F; };   // F[k] = Li_k, k=1..n

// convert univariate coefficients b_k of tau (|tau|<=rho), tau = (ha s + i hth t)/H, scaled by 2^sc, remainder rem (scaled units)
static inline CTM conv1(const Chart& ch, Q H, const CQ* b, int N, int sc, Q rem, Q remre, Q remim) {
  CTM r; CQ w = {ch.ha/H, ch.hth/H}; CQ v[MAXDEG + 2], p = {1, 0}; for (int k = 0; k <= N; ++k) { v[k] = b[k]*p; p = p*w; }
  for (int c = 0; c < 2; ++c) {
    TM& t = c ? r.im : r.re; Q R = rem + (c ? remim : remre); int E = -100000;
    for (int k = 0; k <= N; ++k) { Q m = fabsq(c ? v[k].im : v[k].re); if (m > 0) { int ex; frexpq(m, &ex); E = std::max(E, ex); } }
    if (R > 0) { int ex; frexpq(R, &ex); E = std::max(E, ex); }
    if (E == -100000) continue;
    t.e = E + sc; t.deg = N; t.h.assign(N + 1, 0.0); t.l.assign(N + 1, 0.0); double s = 0;
    for (int k = 0; k <= N; ++k) { DD d = q2dd(ldexpq(c ? v[k].im : v[k].re, -E)); t.h[k] = d.h; t.l[k] = d.l; s += std::fabs(d.h); }
    t.rem = up((double)ldexpq(R, -E)*(1 + 1e-9) + s*1e-31); t.clean(); }
  return r; }
static inline CTM conv(const Chart& ch, Q H, const CQ* b, int N, int sc, Q rem, Q remre = 0, Q remim = 0) {
  if (g_dim == 1) return conv1(ch, H, b, N, sc, rem, remre, remim);
  int E = -100000; for (int k = 0; k <= N; ++k) { Q m = fmaxq(fabsq(b[k].re), fabsq(b[k].im)); if (m > 0) { int ex; frexpq(m, &ex); E = std::max(E, ex); } }
  if (rem + remre + remim > 0) { int ex; frexpq(rem + remre + remim, &ex); E = std::max(E, ex); }
  CTM r; if (E == -100000) return r;
  int n = nc(N); 
  for (TM* t : {&r.re, &r.im}) { t->e = E + sc; t->deg = N; t->h.assign(n, 0.0); t->l.assign(n, 0.0); }
  double s = 0, sr = 0, si = 0;
  if (g_dim == 1) {
    CQ w = {ch.ha/H, ch.hth/H}; CQ p = {1, 0};
    for (int k = 0; k <= N; ++k) { CQ v = b[k]*p; DD d = q2dd(ldexpq(v.re, -E)); r.re.h[k] = d.h; r.re.l[k] = d.l; double x = std::fabs(d.h); d = q2dd(ldexpq(v.im, -E)); r.im.h[k] = d.h; r.im.l[k] = d.l; double y = std::fabs(d.h); if (k) s += x + y; else { sr = x; si = y; } p = p*w; }
  } else {
    Q wa = ch.ha/H, wt = ch.hth/H; Q pa[MAXDEG + 2], pt[MAXDEG + 2]; pa[0] = pt[0] = 1; for (int k = 1; k <= N; ++k) { pa[k] = pa[k - 1]*wa; pt[k] = pt[k - 1]*wt; }
    double pad[MAXDEG + 2], ptd[MAXDEG + 2]; for (int k = 0; k <= N; ++k) { pad[k] = (double)pa[k]; ptd[k] = (double)pt[k]; }
    for (int k = 0; k <= N; ++k) {
      Q br = ldexpq(b[k].re, -E), bi = ldexpq(b[k].im, -E); double mag = std::max(std::fabs((double)br), std::fabs((double)bi));
      bool hp = mag > 1e-16; Q C = 1; double Cd = 1;
      for (int j = 0; j <= k; ++j) {
        // i^j * b
        int o = st(k) + j; 
        if (hp) { Q c = C*pa[k - j]*pt[j]; Q vr, vi; switch (j & 3) { case 0: vr = br; vi = bi; break; case 1: vr = -bi; vi = br; break; case 2: vr = -br; vi = -bi; break; default: vr = bi; vi = -br; }
          DD d = q2dd(vr*c); r.re.h[o] = d.h; r.re.l[o] = d.l; s += std::fabs(d.h); d = q2dd(vi*c); r.im.h[o] = d.h; r.im.l[o] = d.l; s += std::fabs(d.h); C = C*(k - j)/(j + 1);
        } else { double c = Cd*pad[k - j]*ptd[j]; double x = (double)br, y = (double)bi, vr, vi; switch (j & 3) { case 0: vr = x; vi = y; break; case 1: vr = -y; vi = x; break; case 2: vr = -x; vi = -y; break; default: vr = y; vi = -x; }
          r.re.h[o] = vr*c; r.im.h[o] = vi*c; double q = (std::fabs(vr) + std::fabs(vi))*std::fabs(c); s += q*1e-14 > 0 ? 0 : 0; s += q; rem += ldexpq((Q)(q*4e-15), E) ; Cd = Cd*(k - j)/(j + 1); }
      } } }
  double rr = (double)ldexpq(rem, -E)*(1 + 1e-9) + s*1e-31;
  r.re.rem = up(rr + sr*1e-31 + (double)ldexpq(remre, -E)*(1 + 1e-9)); r.im.rem = up(rr + si*1e-31 + (double)ldexpq(remim, -E)*(1 + 1e-9)); r.re.clean(); r.im.clean();
  return r;
}

static inline Q chartH(const Chart& ch, Q& rho) {
  Q a = fabsq(ch.ha), b = fabsq(ch.hth); Q H = fmaxq(a, b); if (H == 0) { rho = 0; return 1; }
  rho = hypotq(ch.ha/H, ch.hth/H)*(1 + (Q)1e-30);
  if (g_dim == 1) { H = hypotq(a, b); rho = 1; }
  return H;
}
// z - (near1 ? 1 : 0) as TM
static inline CTM chartZ(const Chart& ch, bool near1) {
  Q rho, H = chartH(ch, rho); int N = g_deg; CQ b[MAXDEG + 2];
  Q kk = near1 ? 0 : roundq(ch.Lc.re/LN2Q); int sc = (int)kk; CQ zc = cexpq_({ch.Lc.re - kk*LN2Q, ch.Lc.im});
  Q f = 1; Q HH = H; bool flat = (fabsq(ch.ha) + fabsq(ch.hth) == 0);
  if (flat) HH = 0;
  for (int k = 0; k <= N; ++k) { b[k] = zc*f; f = f*HH/(k + 1); }
  if (near1) b[0] = cexpm1(ch.Lc);
  Q x = HH*rho; Q t = 1; for (int k = 1; k <= N + 1; ++k) t = t*x/k; Q rem = 0; if (x > 0) { if (!(x < (N + 2)*(Q)0.5)) throw TMFail("chartZ"); rem = 2*t*absq_(zc); }
  CTM r = conv(ch, H, b, N, sc, rem);
  if (near1) r.re.off = 1;
  return r;
}
static inline CTM chartL(const Chart& ch) {
  CTM r; r.re = TM::constant(ch.Lc.re); r.im = TM::constant(ch.Lc.im);
  auto lin = [&](int idx, Q h) { TM t; if (h == 0) return t; t.deg = 1; t.h.assign(nc(1), 0.0); t.l.assign(nc(1), 0.0); int ex; Q m = frexpq(h, &ex); DD d = q2dd(m); t.e = ex; t.h[idx] = d.h; t.l[idx] = d.l; t.rem = 1e-31; return t; };
  if (g_dim == 1) { r.re = tadd(r.re, lin(1, ch.ha)); r.im = tadd(r.im, lin(1, ch.hth)); }
  else { r.re = tadd(r.re, lin(1, ch.ha)); r.im = tadd(r.im, lin(2, ch.hth)); }
  return r;
}

static inline Ref refLi(int n, const Chart& ch) {
  Q rho, H = chartH(ch, rho); int N = g_deg; bool flat = (fabsq(ch.ha) + fabsq(ch.hth) == 0); if (flat) H = 0;
  CQ cs[64]; int sc; liq(n, ch.Lc, ch.hp, cs, sc);
  CQ G[MAXDEG + 2]; Q rem;
  bool inv = ch.Lc.re > (Q)0.7;
  bool wide = H*rho > 2;
  if (wide) {
    // far region: Li_0 = -1 - u/(1-u), u = 1/z
    Q amin = ch.Lc.re - H*rho; if (!(amin > 30)) throw TMFail("wide ref");
    for (int k = 0; k <= N; ++k) G[k] = {0, 0}; G[0] = {-H, 0}; rem = expq(-amin)*(Q)1.01*H;
  } else {
    CQ L0 = inv ? neg(ch.Lc) : ch.Lc; Q hs = inv ? -H : H; 
    // scaled z : z = 2^sz * zz
    Q kk = L0.re < (Q)-0.7 ? roundq(L0.re/LN2Q) : 0; int sz = (int)kk; CQ zc = cexpq_({L0.re - kk*LN2Q, L0.im});
    CQ z[MAXDEG + 2], w[MAXDEG + 2]; Q f = 1;
    for (int k = 0; k <= N; ++k) { z[k] = zc*f; f = f*hs/(k + 1); w[k] = {-ldexpq(z[k].re, sz), -ldexpq(z[k].im, sz)}; }
    w[0] = neg(cexpm1(L0)); 
    // Li_0 * H  (H > 0) or Li_0 (flat): divide the denominator by H so that tiny |L| neither overflows nor loses the scale
    Q iH = flat ? (Q)1 : H; int eH; iH = frexpq(iH, &eH); for (int k = 0; k <= N; ++k) w[k] = {ldexpq(w[k].re, -eH)/iH, ldexpq(w[k].im, -eH)/iH};
    if (flat) { for (int k = 0; k <= N; ++k) G[k] = {0, 0}; rem = 0; } else {
    Q x = H*rho; Q t = 1; for (int k = 1; k <= N + 1; ++k) t = t*x/k; if (!(x < (N + 2)*(Q)0.5)) throw TMFail("ref exp"); Q zt = 2*t*absq_(zc); Q wt = ldexpq(ldexpq(zt, sz), -eH)/iH;
    for (int k = 0; k <= N; ++k) { CQ s = z[k]; for (int j = 1; j <= k; ++j) s = s - w[j]*G[k - j]; G[k] = s/w[0]; }
    Q wa[MAXDEG + 2], ga[MAXDEG + 2], p = 1; Q wv = 0, gs = 0; for (int k = 0; k <= N; ++k) { wa[k] = absq_(w[k])*p; ga[k] = absq_(G[k])*p; p *= rho; if (k) wv += wa[k]; gs += ga[k]; }
    Q res = 0; for (int j = 1; j <= N; ++j) for (int k = N + 1 - j; k <= N; ++k) res += wa[j]*ga[k];
    res += zt + wt*gs + (Q)1e-31*(wa[0]*gs + wv*gs);
    Q den = wa[0] - wv - wt; if (!(den > (Q)0.05*wa[0])) throw TMFail("ref range");
    rem = res/den; }
    if (inv) { // Li_0(z) = -1 - Li_0(u); not scaled
      for (int k = 0; k <= N; ++k) G[k] = {-ldexpq(G[k].re, sz), -ldexpq(G[k].im, sz)}; rem = ldexpq(rem, sz); G[0].re -= flat ? (Q)0 : H; }
    else if (sz != sc) throw TMFail("ref scale");
  }
  Ref R; R.n = n; R.F.resize(n + 1);
  CQ cur[MAXDEG + 2]; for (int k = 0; k <= N; ++k) cur[k] = G[k];
  for (int k = 1; k <= n; ++k) {
    Q h = k == 1 ? (Q)1 : H; Q lost = absq_(cur[N])*powq(rho, N + 1)*h/(N + 1);
    for (int i = N; i >= 1; --i) cur[i] = cur[i - 1]*(h/i);
    cur[0] = cs[k];
    rem = rem*h*rho + lost; Q s = 0, p = rho; for (int i = 1; i <= N; ++i) { s += absq_(cur[i])*p; p *= rho; }
    rem += s*(Q)1e-31;
    // error of the centre value: on the unit circle near z=1 real and imaginary part are computed without mixing
    bool sep = g_dim == 1 && ch.Lc.re == 0 && ch.ha == 0 && fabsq(ch.Lc.im) < (Q)0.5; Q cr = (Q)1e-31*absq_(cs[k]);
    R.F[k] = conv(ch, H == 0 ? 1 : H, cur, N, sc, rem, sep ? fabsq(cs[k].re)*(Q)4e-31 : cr, sep ? fabsq(cs[k].im)*(Q)4e-31 : cr);
    rem += cr;
  }
  return R;
}
