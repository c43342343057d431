// Abstract values: every computed floating-point number is described by
//   ideal Taylor model f(t)   +  bound err on |computed - f(t)|  +  float interval  +  sign-bit knowledge
#pragma once
#include "tm.hpp"
#include "ref.hpp"
#include "ir.hpp"
#include <deque>
#include <limits>
#include <functional>

enum { F32, F64, F80 };
static const LD UU[3] = {0x1p-24L, 0x1p-53L, 0x1p-64L};
static const LD ETA[3] = {1.401298464324817e-45L, 4.9406564584124654e-324L, 3.6451995318824746025e-4951L};
static const LD FMAX_[3] = {3.40282346638528859811704183484516925e38L, 1.79769313486231570814527423731704357e308L, 1.18973149535723176502126385303097021e4932L};
static inline LD nxt(LD x, int f) { if (f == F32) return std::nextafterf((float)x, INFINITY); if (f == F64) return std::nextafter((double)x, (double)INFINITY); return std::nextafterl(x, INFINITY); }
static inline LD prv(LD x, int f) { if (f == F32) return std::nextafterf((float)x, -INFINITY); if (f == F64) return std::nextafter((double)x, (double)-INFINITY); return std::nextafterl(x, -INFINITY); }
static inline LD upl(LD x) { return x*(1 + 1e-17L); }
static inline LD rnd(LD x, int f) { return f == F32 ? (LD)(float)x : f == F64 ? (LD)(double)x : x; }

struct Infeasible {};
struct Fail { std::string s; };
struct Split { LD c; };
struct Top : std::runtime_error { Top(const char* s) : std::runtime_error(s) {} };

struct CV;
typedef std::shared_ptr<TM> TMP;
struct RV {
  int fmt = F64; TMP tm; LD err = 0, lo = -INFINITY, hi = INFINITY; int sgn = 0; bool nan = false; bool top = false;
  CV* owner = nullptr; int part = 0; int sub = 0; int ng = 0;   // this == (neg?) component 'part' of owner minus sub (exactly)
  CV* hyp = nullptr;                                             // |hyp| (hypot of the components)
  int in = 0;                                                   // +1/-1: exactly +-input (1D)
  bool pt0 = false;
  bool pt() const { return lo == hi && !nan; }
  LD sup() const { return std::max(std::fabs(lo), std::fabs(hi)); }
  LD inf() const { return lo <= 0 && hi >= 0 ? 0 : std::min(std::fabs(lo), std::fabs(hi)); }
  bool finite() const { return !nan && std::isfinite(lo) && std::isfinite(hi); }
};
struct QA { CV* u = nullptr; int p = 0, q = 0; CTM coef; LD cerr = 0, csup = 0; };
struct CV {
  int fmt = F64; RV* re = nullptr; RV* im = nullptr; LD nerr = 0; 
  int logst = 0; CTM lg; // logst 1 ok, 2 failed
  QA qa; RV* ore = nullptr; RV* oim = nullptr; // the values the components were built from
  LD sup() const { return upl(std::hypot(re->sup(), im->sup())); }
  LD inf() const { return std::hypot(re->inf(), im->inf())*(1 - 1e-17L); }
};

struct Ctx {
  std::deque<RV> rvs; std::deque<CV> cvs; 
  std::vector<int> dec; size_t dp = 0; int forks = 0;
  bool allow_split = false; bool allow_fork = true;
  long ops = 0; long nrb = 0; std::set<std::string> libm;
  // Clausen havoc
  RV* havoc = nullptr; LD havocP = 0; bool havoc_used = false;
  RV* R() { rvs.emplace_back(); return &rvs.back(); }
  CV* C() { cvs.emplace_back(); return &cvs.back(); }
  Q tlo = -1, thi = 1;   // 1D: part of the parameter interval on which the current path can be taken
  void reset() { rvs.clear(); cvs.clear(); dp = 0; tlo = -1; thi = 1; }
  void restrict_(RV* r) {
    if (g_dim != 1 || !r->tm || r->pt0 || r->tm->deg < 1 || !std::isfinite(r->err)) return;
    const TM& t = *r->tm; double c1 = t.h[1] + t.l[1]; if (c1 == 0) return; double rest = t.rem; for (int k = 2; k <= t.deg; ++k) rest += std::fabs(t.h[k]); rest *= 1 + 1e-13;
    Q c0 = t.cen(); Q sl = (Q)upl(r->err) + ldexpq((Q)rest, t.e) + (fabsq(c0) + ldexpq(1, t.e))*(Q)1e-29; Q s1 = ldexpq((Q)t.h[1] + (Q)t.l[1], t.e); if (s1 == 0) return;
    Q a = ((Q)r->lo - sl - c0)/s1, b = ((Q)r->hi + sl - c0)/s1; if (a > b) std::swap(a, b); a -= fabsq(a)*(Q)1e-25; b += fabsq(b)*(Q)1e-25;
    if (a > tlo) tlo = a; if (b < thi) thi = b; if (tlo > thi) throw Infeasible(); }

  bool choose() { // nondeterministic choice
    if (dp < dec.size()) return dec[dp++];
    if (!allow_fork) throw Fail{"fork not allowed"};
    if (dec.size() > 60) throw Fail{"too many undecided branches"};
    dec.push_back(0); ++dp; ++forks; return 0; }

  RV* constant(int fmt, LD v) {
    RV* r = R(); r->fmt = fmt; r->lo = r->hi = v; r->sgn = std::signbit(v) ? -1 : 1;
    if (std::isnan(v)) { r->nan = true; r->top = true; return r; }
    if (std::isinf(v)) { r->top = true; return r; }
    TM t; if ((LD)(double)v == v && std::fabs(v) > 1e-250L && std::fabs(v) < 1e250L) { t.off = (double)v; } else t = TM::constant((Q)v);
    r->tm = std::make_shared<TM>(t); return r; }

  void needtm(RV* r) {
    if (r->tm) return;
    if (r->top && !r->finite()) throw Top("no model");
    if (r->hyp && r->finite()) {
      try { needtm(r->hyp->re); needtm(r->hyp->im); TM t = tsqrt(tadd(tsqr(*r->hyp->re->tm), tsqr(*r->hyp->im->tm))); r->tm = std::make_shared<TM>(t); return; } catch (TMFail&) {} }
    if (!r->finite()) throw Top("unbounded");
    rebase(r); }
  void rebase(RV* r) {
    ++nrb;
    Q a = r->lo, b = r->hi; Q m = (a + b)/2; LD h = upl((LD)((b - a)/2)); if (a != b && h == 0) h = ETA[F80];
    r->tm = std::make_shared<TM>(TM::constant(m)); r->err = upl(h + (LD)(fabsq(m)*(Q)1e-33)); if (r->lo == r->hi) r->err = 0; }
  // intersect interval with model, adopt the better description
  void fin(RV* r) {
    if (r->nan) { r->top = true; r->tm.reset(); return; }
    if (r->tm && r->finite() && std::isfinite(r->err)) {
      LD a, b; r->tm->bounds(a, b); a -= upl(r->err); b += upl(r->err); a -= std::fabs(a)*2e-19L; b += std::fabs(b)*2e-19L;
      if (a > r->lo) r->lo = a; if (b < r->hi) r->hi = b;
    } else if (r->tm && std::isfinite(r->err) && !r->finite()) { r->tm.reset(); }
    if (r->lo > r->hi) { if (r->lo - r->hi <= 1e-15L*std::fabs(r->lo)) std::swap(r->lo, r->hi); else throw Infeasible(); }
    if (r->lo > 0) { r->sgn = 1; } else if (r->hi < 0) { r->sgn = -1; }
    if (r->sgn > 0 && r->lo < 0) r->lo = 0; if (r->sgn < 0 && r->hi > 0) r->hi = 0;
    if (!r->finite()) { r->top = true; r->tm.reset(); return; }
    if (r->tm && !r->hyp) { LD hw = (LD)(((Q)r->hi - (Q)r->lo)/2); if (hw < r->err) rebase(r); }
    else if (!r->tm && !r->hyp) rebase(r);
  }
  static LD fop(int fmt, char op, LD a, LD b) {
    if (fmt == F32) { volatile float x = (float)a, y = (float)b; switch (op) { case '+': return x + y; case '-': return x - y; case '*': return x*y; default: return x/y; } }
    if (fmt == F64) { volatile double x = (double)a, y = (double)b; switch (op) { case '+': return x + y; case '-': return x - y; case '*': return x*y; default: return x/y; } }
    switch (op) { case '+': return a + b; case '-': return a - b; case '*': return a*b; default: return a/b; } }
  // interval ends are not necessarily floats of the format: round outward first
  static LD dn(LD x, int f) { if (std::isinf(x)) return x; LD r = rnd(x, f); return r <= x ? r : prv(r, f); }
  static LD uq(LD x, int f) { if (std::isinf(x)) return x; LD r = rnd(x, f); return r >= x ? r : nxt(r, f); }

  RV* neg(RV* a) {
    RV* r = R(); *r = *a; r->lo = -a->hi; r->hi = -a->lo; r->sgn = -a->sgn; r->in = -a->in; r->hyp = nullptr; r->ng = a->owner ? !a->ng : 0; if (a->sub) { r->owner = nullptr; r->sub = 0; }
    if (a->hyp) needtm(a);
    if (a->tm) r->tm = std::make_shared<TM>(tneg(*a->tm)); return r; }
  RV* fabs_(RV* a) { if (a->sgn > 0) return a; if (a->sgn < 0) return neg(a);
    if (a->nan) return a;
    if (a->in && allow_split) throw Split{0};
    if (choose()) { setsgn(a, 1); return a; } else { setsgn(a, -1); return neg(a); } }
  void setsgn(RV* a, int s) { a->sgn = s; if (s > 0) { if (a->hi < 0) throw Infeasible(); if (a->lo < 0) a->lo = 0; } else { if (a->lo > 0) throw Infeasible(); if (a->hi > 0) a->hi = 0; } }

  RV* arith(int fmt, char op, RV* a, RV* b) {
    ++ops; RV* r = R(); r->fmt = fmt;
    if (a->nan || b->nan) { r->nan = true; r->top = true; return r; }
    if (a->pt() && b->pt()) { LD v = fop(fmt, op, a->lo == 0 ? (a->sgn < 0 ? -0.0L : 0.0L) : a->lo, b->lo == 0 ? (b->sgn < 0 ? -0.0L : 0.0L) : b->lo);
      RV* c; if (a->sgn == 0 && a->lo == 0) { c = constant(fmt, v); if (v == 0) c->sgn = 0; } else if (b->sgn == 0 && b->lo == 0) { c = constant(fmt, v); if (v == 0) c->sgn = 0; } else c = constant(fmt, v);
      if (((op == '-' && b->lo == 1) || (op == '+' && b->lo == -1)) && v == a->lo - 1 && a->fmt == fmt && a->owner && !a->ng && a->part == 0 && a->sub == 0 && a->lo > 0.5L && a->lo <= 2) { c->owner = a->owner; c->part = 0; c->sub = 1; if (a->tm) { c->err = a->err; c->tm = std::make_shared<TM>(tadd(*a->tm, TM::constant(-1))); } }
      return c; }
    LD al = dn(a->lo, fmt), ah = uq(a->hi, fmt), bl = dn(b->lo, fmt), bh = uq(b->hi, fmt);
    int bs = op == '-' ? -b->sgn : b->sgn;
    const LD u = UU[fmt], eta = ETA[fmt];
    bool nanp = false;
    switch (op) {
      case '+': r->lo = fop(fmt, '+', al, bl); r->hi = fop(fmt, '+', ah, bh); break;
      case '-': r->lo = fop(fmt, '-', al, bh); r->hi = fop(fmt, '-', ah, bl); break;
      case '*': case '/': {
        if (op == '/' && bl <= 0 && bh >= 0) {
          if (b->lo == 0 && b->hi == 0) nanp = al <= 0 && ah >= 0;
          if (al <= 0 && ah >= 0) nanp = true; // 0/0 possible
          r->lo = -INFINITY; r->hi = INFINITY; if (a->sgn && b->sgn) { if (a->sgn*b->sgn > 0) r->lo = 0; else r->hi = 0; }
        } else {
          LD c[4] = {fop(fmt, op, al, bl), fop(fmt, op, al, bh), fop(fmt, op, ah, bl), fop(fmt, op, ah, bh)};
          r->lo = INFINITY; r->hi = -INFINITY; for (LD x : c) { if (std::isnan(x)) { nanp = true; continue; } if (x < r->lo) r->lo = x; if (x > r->hi) r->hi = x; }
          if (op == '*' && ((std::isinf(al) || std::isinf(ah)) && bl <= 0 && bh >= 0)) nanp = true;
          if (op == '*' && ((std::isinf(bl) || std::isinf(bh)) && al <= 0 && ah >= 0)) nanp = true;
          if (op == '/' && (std::isinf(al) || std::isinf(ah)) && (std::isinf(bl) || std::isinf(bh))) nanp = true;
        } break; } }
    if (std::isnan(r->lo) || std::isnan(r->hi)) nanp = true;
    { const LD I = INFINITY; LD cl = op == '-' ? -bh : bl, ch = op == '-' ? -bl : bh;
      if ((op == '+' || op == '-') && ((ah == I && cl == -I) || (al == -I && ch == I))) nanp = true;
      else if (op == '+' || op == '-') { if (std::isnan(r->lo)) r->lo = -I; if (std::isnan(r->hi)) r->hi = I; nanp = false; } }
    if (nanp) { r->nan = true; r->top = true; r->lo = -INFINITY; r->hi = INFINITY; return r; }
    if (op == '*' || op == '/') r->sgn = a->sgn*b->sgn; else if (a->sgn == bs) r->sgn = a->sgn;
    // exact zero operand
    if ((op == '+' || op == '-') && b->pt() && b->lo == 0 ) { RV* c = R(); *c = *a; c->hyp = a->hyp; c->fmt = fmt; if (c->sgn == 0 || true) { if (a->lo <= 0 && a->hi >= 0 && a->sgn != bs) c->sgn = a->lo == 0 && op == '+' && false ? a->sgn : 0; if (a->lo > 0) c->sgn = 1; if (a->hi < 0) c->sgn = -1; } return c; }
    if ((op == '+' ) && a->pt() && a->lo == 0) { RV* c = R(); *c = *b; c->fmt = fmt; if (b->lo <= 0 && b->hi >= 0 && b->sgn != a->sgn) c->sgn = 0; return c; }
    if ((op == '-' ) && a->pt() && a->lo == 0) { RV* c = neg(b); c->fmt = fmt; if (b->lo <= 0 && b->hi >= 0 && -b->sgn != a->sgn) c->sgn = 0; return c; }
    if (op == '*' && ((b->pt() && b->lo == 0) || (a->pt() && a->lo == 0)) && a->finite() && b->finite()) { RV* c = constant(fmt, 0.0L); c->sgn = r->sgn; return c; }
    if (op == '/' && a->pt() && a->lo == 0 && !(bl <= 0 && bh >= 0)) { RV* c = constant(fmt, 0.0L); c->sgn = r->sgn; return c; }
    if (b->pt() && (op == '*' || op == '/') && b->lo == 1) { RV* c = R(); *c = *a; c->fmt = fmt; return c; }
    if (a->pt() && op == '*' && a->lo == 1) { RV* c = R(); *c = *b; c->fmt = fmt; return c; }
    if (b->pt() && (op == '*' || op == '/') && b->lo == -1) { RV* c = neg(a); c->fmt = fmt; return c; }
    if (a->pt() && op == '*' && a->lo == -1) { RV* c = neg(b); c->fmt = fmt; return c; }
    if (std::isinf(r->lo) || std::isinf(r->hi) ) { r->top = true; return r; }
    try {
      needtm(a); needtm(b);
      TM t; LD e = 0; bool exact = false;
      if (op == '+' || op == '-') {
        t = tadd(*a->tm, *b->tm, op == '+' ? 1 : -1); e = a->err + b->err;
        // Sterbenz
        LD cl = op == '-' ? bl : -bh, chh = op == '-' ? bh : -bl; // b' with a - b'
        if (al > 0 && cl > 0) exact = al >= chh/2 && ah <= 2*cl;
        else if (ah < 0 && chh < 0) exact = -ah >= -cl/2 && -al <= -2*chh;
        if (a->fmt != fmt || b->fmt != fmt) exact = false;
        if (!exact) e += u*std::max(std::fabs(r->lo), std::fabs(r->hi));
        if (exact && b->pt() && b->lo == 1 && op == '-' && a->owner && !a->ng && a->part == 0 && a->sub == 0) { r->owner = a->owner; r->part = 0; r->sub = 1; }
        if (exact && b->pt() && b->lo == -1 && op == '+' && a->owner && !a->ng && a->part == 0 && a->sub == 0) { r->owner = a->owner; r->part = 0; r->sub = 1; }
      } else if (op == '*') {
        t = tmul(*a->tm, *b->tm); LD sa = a->sup(), sb = b->sup() + b->err; e = sa*b->err + sb*a->err;
        if (a == b) e = (2*sa + a->err)*a->err;
        RV* k = a->pt() ? a : b->pt() ? b : nullptr; int ex; 
        if (k && std::fabs(std::frexp(k->lo, &ex)) == 0.5L) e += (r->inf() < 1e5L*eta/u || std::fabs(k->lo) < 1) ? (std::fabs(k->lo) >= 1 ? 0 : eta) : 0;
        else e += u*std::max(std::fabs(r->lo), std::fabs(r->hi)) + eta;
      } else {
        t = tdiv(*a->tm, *b->tm); LD bi = b->inf(); LD q = std::max(std::fabs(r->lo), std::fabs(r->hi));
        LD bideal = bi - b->err; if (bideal <= 0) throw TMFail("div err");
        e = (a->err + q*b->err)/bideal;
        int ex; if (b->pt() && std::fabs(std::frexp(b->lo, &ex)) == 0.5L) e += std::fabs(b->lo) <= 1 ? 0 : eta;
        else e += u*q + eta;
      }
      r->tm = std::make_shared<TM>(std::move(t)); r->err = upl(e)*(1 + 1e-16L);
    } catch (TMFail&) { r->tm.reset(); } catch (Top&) { r->tm.reset(); }
    fin(r); return r; }

  RV* cvt(int fmt, RV* a) {
    if (a->fmt == fmt) return a; RV* r = R(); *r = *a; r->fmt = fmt; if (fmt >= a->fmt) return r;
    r->owner = nullptr; r->hyp = nullptr; r->in = 0; if (a->nan) return r;
    if (a->pt()) return constant(fmt, rnd(a->lo, fmt));
    r->lo = rnd(dn(a->lo, fmt), fmt); r->hi = rnd(uq(a->hi, fmt), fmt); if (a->hyp) needtm(a); r->tm = a->tm; r->err = a->err + UU[fmt]*r->sup() + ETA[fmt]; if (!std::isfinite(r->lo) || !std::isfinite(r->hi)) { r->tm.reset(); r->top = true; return r; }
    fin(r); return r; }

  // ---------------- complex
  CV* mk(RV* re, RV* im, int fmt) {
    CV* c = C(); c->fmt = fmt; 
    // -V and V-1 recognition
    CV* o = re->owner && re->owner == im->owner && re->part == 0 && im->part == 1 ? re->owner : nullptr;
    if (!o && re->owner && re->part == 0 && re->owner->oim == im && !re->ng) o = re->owner;
    bool imz = false; if (!o && re->owner && re->part == 0 && re->sub == 1 && !re->ng && rezero(im) && rezero(re->owner->im)) { o = re->owner; imz = true; }
    bool im0 = o && (imz || o->oim == im);
    int s = re->sub; 
    if (o && s == 0 && !re->ng && (im0 || !im->ng) && o->re->fmt == fmt) return o;
    RV* a = R(); *a = *re; RV* b = R(); *b = *im; a->owner = b->owner = c; a->part = 0; b->part = 1; a->sub = b->sub = 0; a->ng = b->ng = 0;
    if (!re->owner) { re->owner = c; re->part = 0; re->sub = re->ng = 0; } if (!im->owner) { im->owner = c; im->part = 1; im->sub = im->ng = 0; } // the operands themselves denote the components, too
    c->ore = re; c->oim = im; c->re = a; c->im = b; c->nerr = upl(std::hypot(re->err, im->err));
    if (o && s == 0 && re->ng && im->ng && !im0) {
      c->nerr = std::min(c->nerr, o->nerr);
      if (o->logst == 1 && o->im->sgn != 0) { c->logst = 1; c->lg = o->lg; TM p = TM::constant(PIQ); p.rem += 1e-33; c->lg.im = tadd(c->lg.im, p, o->im->sgn > 0 ? -1 : 1); } }
    if (o && s == 1 && !re->ng && (im0 || (!im->ng && im->sub == 0))) { c->qa.u = o; c->qa.p = 0; c->qa.q = 1; c->qa.coef.re = TM::constant(1); c->qa.cerr = 0; c->qa.csup = 1; }
    return c; }
  CV* mkc(int fmt, LD re, LD im) { return mk(constant(fmt, re), constant(fmt, im), fmt); }

  CTM tmof(CV* c) { needtm(c->re); needtm(c->im); return {*c->re->tm, *c->im->tm}; }
  void setnerr(CV* c, LD e) { e = upl(e); if (e < c->nerr) c->nerr = e; if (!c->re->top && c->re->tm && c->nerr < c->re->err) c->re->err = c->nerr; if (!c->im->top && c->im->tm && c->nerr < c->im->err) c->im->err = c->nerr; }
  static bool rezero(RV* x) { return x->pt() && x->lo == 0; }

  CV* cadd_(int fmt, CV* a, CV* b, char op) {
    CV* r = mk(arith(fmt, op, a->re, b->re), arith(fmt, op, a->im, b->im), fmt);
    return r; }

  void needq(CV* a) { try { if (!a->re->top) needtm(a->re); if (!a->im->top) needtm(a->im); } catch (Top&) {} }
  bool qacombine(CV* r, CV* a, CV* b, bool div) {
    if (!a->qa.u && !b->qa.u) return false;
    CV* u = a->qa.u ? a->qa.u : b->qa.u; if (a->qa.u && b->qa.u && a->qa.u != b->qa.u) return false;
    try {
      QA q; q.u = u; q.p = (a->qa.u ? a->qa.p : 0) + (div ? -1 : 1)*(b->qa.u ? b->qa.p : 0); q.q = (a->qa.u ? a->qa.q : 0) + (div ? -1 : 1)*(b->qa.u ? b->qa.q : 0);
      CTM ca, cb; LD ea, eb, sa, sb;
      if (a->qa.u) { ca = a->qa.coef; ea = a->qa.cerr; sa = a->qa.csup; } else { ca = tmof(a); ea = a->nerr; sa = a->sup() + a->nerr; }
      if (b->qa.u) { cb = b->qa.coef; eb = b->qa.cerr; sb = b->qa.csup; } else { cb = tmof(b); eb = b->nerr; sb = b->sup() + b->nerr; }
      LD rr = (div ? 8 : std::sqrt(5.0L))*UU[r->fmt];
      if (!div) { q.coef = cmul(ca, cb); q.cerr = sa*eb + sb*ea + ea*eb + rr*sa*sb + ETA[r->fmt]; q.csup = sa*sb*(1 + 2*rr); }
      else { if (b->qa.u && !(cb.re.isconst() && cb.im.zero())) return false; if (!b->qa.u) return false;
        q.coef = ca; q.cerr = ea + rr*sa + ETA[r->fmt]; q.csup = sa*(1 + 2*rr); if (!(cb.re.cen() == 1)) return false; }
      r->qa = q;
      if (q.p == 1 && q.q == -1) return resolve(r);
    } catch (TMFail&) {} catch (Top&) {}
    return false; }
  // coef * log(u)/(u-1)
  bool resolve(CV* r) {
    CV* u = r->qa.u; QA& q = r->qa;
    if (!(u->re->lo > 0)) return false;
    LD m = std::min((LD)1, u->inf() - u->nerr)*0.7071L; if (!(m > 0.02L)) return false;
    LD hs = 1/m, hd = 1/(2*m*m);
    CTM V = tmof(u);
    CTM z = V; z.re = tadd(z.re, [] { TM t; t.off = 1; return t; }(), -1);
    CTM t; LD zs = upl(std::hypot(z.re.sup(), z.im.sup())), herr = 0;
    if (zs < 0.02L) { // h(1+z) = sum (-z)^k/(k+1)
      int K = 1; LD p = zs; while (p > 1e-33L && K < 24) { p *= zs; ++K; }
      CTM h; h.re = TM::constant(1/(Q)(K + 1)); 
      for (int k = K - 1; k >= 0; --k) { h = cmul(h, z); h.re = tadd(tneg(h.re), TM::constant(1/(Q)(k + 1))); h.im = tneg(h.im); }
      herr = p*1.05L; t = cmul(q.coef, h);
    } else { if (!getlog(u)) return false; t = cmul(u->lg, cmul(q.coef, cinv(z))); }
    LD e = q.csup*(hd*1.01L*u->nerr + herr) + q.cerr*hs + q.csup*hs*(20*UU[r->fmt]) + 4*ETA[r->fmt];
    // |h| bound may be sharpened by the model but 1/m is enough
    RV* x = R(); RV* y = R(); x->fmt = y->fmt = r->fmt; x->tm = std::make_shared<TM>(t.re); y->tm = std::make_shared<TM>(t.im); x->err = y->err = upl(e);
    x->lo = y->lo = -(LD)FMAX_[r->fmt]; x->hi = y->hi = FMAX_[r->fmt];
    // sign of the imaginary part is not tracked
    if (rezero(r->im)) { int g = r->im->sgn; y = constant(r->fmt, 0.0L); y->sgn = g; }
    long rb0 = nrb; fin(x); fin(y); x->owner = y->owner = r; x->part = 0; y->part = 1; r->re = x; r->im = y; r->nerr = nrb == rb0 ? upl(e) : upl(std::hypot(x->err, y->err)); r->qa = QA(); return true; }

  CV* cmul_(int fmt, CV* a, CV* b) {
    RV *re, *im; long rb0 = nrb; needq(a); needq(b); rb0 = nrb;
    if (rezero(b->im) ) { // real factor (the other products are exact zeros)
      re = arith(fmt, '*', a->re, b->re); im = arith(fmt, '*', a->im, b->re); if (!a->im->finite()) re->nan = re->top = true; if (!a->re->finite()) im->nan = im->top = true; if (im->lo <= 0 && im->hi >= 0) im->sgn = 0; if (re->lo <= 0 && re->hi >= 0) re->sgn = 0; }
    else if (rezero(a->im)) { return cmul_(fmt, b, a); }
    else {
      RV* p1 = arith(fmt, '*', a->re, b->re); RV* p2 = arith(fmt, '*', a->im, b->im); RV* p3 = arith(fmt, '*', a->re, b->im); RV* p4 = a == b ? p3 : arith(fmt, '*', a->im, b->re);
      re = arith(fmt, '-', p1, p2); im = arith(fmt, '+', p3, p4); }
    CV* r = mk(re, im, fmt);
    if (!re->top && !im->top && rb0 == nrb) {
      LD sa = std::min(a->sup(), (LD)INFINITY), sb = b->sup() + b->nerr; LD e = a == b ? (2*sa + a->nerr)*a->nerr : sa*b->nerr + sb*a->nerr;
      LD f = rezero(b->im) || rezero(a->im) ? 1 : std::sqrt(5.0L);
      int ex; bool p2 = (rezero(b->im) && b->re->pt() && std::fabs(std::frexp(b->re->lo, &ex)) == 0.5L) || (rezero(a->im) && a->re->pt() && std::fabs(std::frexp(a->re->lo, &ex)) == 0.5L);
      if (p2) f = 0;
      e += f*UU[fmt]*r->sup() + (f > 0 || p2) * 4*ETA[fmt]; 
      // sup() of the result bounds |ab| from above only approximately: use product of moduli too
      if (f > 1) { LD e2 = e - f*UU[fmt]*r->sup() + f*UU[fmt]*sa*sb; e = e2; }
      setnerr(r, e); }
    if ((a->qa.u || b->qa.u) && !re->nan && !im->nan && !re->top && !im->top) qacombine(r, a, b, false);
    return r; }
  CV* cdiv_(int fmt, CV* a, CV* b) {
    if (rezero(b->im) && rezero(a->im) && (!b->re->pt() || b->qa.u) && a->re->finite() && b->re->finite() && !(b->re->lo <= 0 && b->re->hi >= 0)) { // both on the real axis: the imaginary part is an exact zero
      RV* x = arith(fmt, '/', a->re, b->re); if (x->finite() && x->tm && !x->pt()) { LD w = 8*UU[fmt]*x->sup() + 4*ETA[fmt]; x->lo = dn(x->lo - w, fmt); x->hi = uq(x->hi + w, fmt); x->err = upl(x->err + w); if (x->sgn > 0 && x->lo < 0) x->lo = 0; if (x->sgn < 0 && x->hi > 0) x->hi = 0; x->owner = nullptr; x->in = 0; }
      else if (x->pt() && x->tm) { LD v = x->lo, w = 8*UU[fmt]*x->sup() + 4*ETA[fmt]; RV* z = R(); z->fmt = fmt; z->tm = std::make_shared<TM>(TM::constant((Q)v)); z->err = w; z->lo = v - w; z->hi = v + w; z->sgn = x->sgn; fin(z); x = z; }
      RV* y = constant(fmt, 0.0L); y->sgn = 0; CV* r = mk(x, y, fmt); if ((a->qa.u || b->qa.u) && !x->top && !x->nan) qacombine(r, a, b, true); return r; }
    if (rezero(b->im) && b->re->pt()) { needq(a); long rb0 = nrb; CV* r = mk(arith(fmt, '/', a->re, b->re), arith(fmt, '/', a->im, b->re), fmt); int ex; LD f = std::fabs(std::frexp(b->re->lo, &ex)) == 0.5L ? 0 : 1; if (rb0 == nrb) setnerr(r, a->nerr/std::fabs(b->re->lo) + f*UU[fmt]*r->sup() + 2*ETA[fmt]); if (a->qa.u) qacombine_scale(r, a); return r; }
    CV* r = C(); r->fmt = fmt; RV* x = R(); RV* y = R(); x->fmt = y->fmt = fmt; r->re = x; r->im = y;
    bool bad = a->re->nan || a->im->nan || b->re->nan || b->im->nan || !a->re->finite() || !a->im->finite() || !b->re->finite() || !b->im->finite();
    LD bi = b->inf(); 
    LD q = bi > 0 ? a->sup()/bi*(1 + 9*UU[fmt]) + 4*ETA[fmt] : INFINITY;
    if (bad) { x->nan = y->nan = x->top = y->top = true; }
    else {
      x->lo = y->lo = -q; x->hi = y->hi = q;
      if (std::isinf(q) || q > FMAX_[fmt]) { x->top = y->top = true; }
      if (rezero(a->im)) { int s1 = a->re->sgn*b->re->sgn, s2 = -a->re->sgn*b->im->sgn; // signs up to a possible underflow to zero
        if (s1 > 0) x->lo = 0; if (s1 < 0) x->hi = 0; if (s2 > 0) y->lo = 0; if (s2 < 0) y->hi = 0; }
      if (!x->top) try {
        LD bid = bi - b->nerr; if (bid <= 0) throw TMFail("cdiv");
        CTM t; if (b->qa.u || true) t = cmul(tmof(a), cinv(tmof(b)));
        LD e = (a->nerr + q*b->nerr)/bid + 8*UU[fmt]*q + 4*ETA[fmt];
        x->tm = std::make_shared<TM>(t.re); y->tm = std::make_shared<TM>(t.im); x->err = y->err = upl(e); r->nerr = upl(e);
      } catch (TMFail&) { x->tm.reset(); y->tm.reset(); } catch (Top&) { x->tm.reset(); y->tm.reset(); }
      if (!x->top) { long rb0 = nrb; fin(x); fin(y); LD ne = upl(std::hypot(x->err, y->err)); if (r->nerr == 0 || ne < r->nerr || nrb != rb0) r->nerr = ne; }
    }
    x->owner = y->owner = r; x->part = 0; y->part = 1;
    if (x->top) r->nerr = INFINITY;
    if ((a->qa.u || b->qa.u) && !x->top && !x->nan) qacombine(r, a, b, true);
    return r; }
  void qacombine_scale(CV*, CV*) {}

  // log of the ideal value of c (continued consistently with the sign of the computed imaginary part)
  bool getlog(CV* c) {
    if (c->logst) return c->logst == 1;
    c->logst = 2;
    try {
      CTM V = tmof(c);
      Q cx = V.re.cen(), cy = V.im.cen();
      Q lr, li = atan2q(cy, cx);
      if (V.re.off == 1) { Q a = ldexpq(V.re.c0(), V.re.e); lr = log1pq(2*a + a*a + cy*cy)/2; if (V.im.off != 0) throw TMFail("off"); }
      else { Q m = fmaxq(fabsq(cx), fabsq(cy)); if (m == 0) throw TMFail("log0"); int e; frexpq(m, &e); Q X = ldexpq(cx, -e), Y = ldexpq(cy, -e); lr = logq(X*X + Y*Y)/2 + e*LN2Q; if (e == 0 || e == 1) { lr = log1pq((cx - 1)*(cx + 1) + cy*cy)/2; } }
      if (!(c->re->lo > 0)) {
        if (c->im->sgn == 0) { if (c->re->hi > 0 || c->im->lo <= 0) { bool s = choose(); setsgn(c->im, s ? -1 : 1); } }
        if (c->im->sgn > 0 && li < -PIQ/2) li += 2*PIQ;
        if (c->im->sgn < 0 && li > PIQ/2) li -= 2*PIQ;
      }
      c->lg = clog_series(V, lr, li); c->logst = 1;
    } catch (TMFail&) {} catch (Top&) {}
    return c->logst == 1; }

  // relative error of the computed complex number c w.r.t. its ideal value
  LD relerr(CV* c) { LD m = c->inf(); LD m2; { // lower bound of |ideal|
      m2 = m - c->nerr; if (m2 < 0) m2 = 0; }
    LD d = std::max(m, m2); if (!(d > 0) || !std::isfinite(c->nerr)) return INFINITY; 
    // |log v^ - log v| <= delta/min|segment|
    LD s = m - c->nerr; if (s <= 0) return INFINITY; return c->nerr/s; }

  RV* fromtm(int fmt, const TM& t, LD err, LD lo, LD hi, int sgn = 0) {
    RV* r = R(); r->fmt = fmt; r->tm = std::make_shared<TM>(t); r->err = upl(err); r->lo = lo; r->hi = hi; r->sgn = sgn; fin(r); return r; }
  RV* fromiv(int fmt, LD lo, LD hi, int sgn = 0) { RV* r = R(); r->fmt = fmt; r->lo = lo; r->hi = hi; r->sgn = sgn; fin(r); return r; }
  RV* nanrv(int fmt) { RV* r = R(); r->fmt = fmt; r->nan = r->top = true; return r; }
  static LD PIU(int fmt) { return 3.1415926535897932384626433832795L*(1 + 2*UU[fmt]); }

  RV* hypot_(int fmt, CV* c) {
    if (c->re->nan || c->im->nan) return nanrv(fmt);
    LD lo = c->inf()*(1 - 2*UU[fmt]), hi = c->sup()*(1 + 3*UU[fmt]) + ETA[fmt];
    if (rezero(c->im)) return fabs_(c->re); if (rezero(c->re)) return fabs_(c->im);
    RV* r = R(); r->fmt = fmt; r->lo = lo; r->hi = hi; r->sgn = 1;
    bool ovf = hi > FMAX_[fmt]; if (ovf) { r->hi = INFINITY; r->top = true; if (lo > FMAX_[fmt]*(1 + 4*UU[fmt])) { r->lo = INFINITY; return r; } if (!c->re->finite() || !c->im->finite()) return r; hi = FMAX_[fmt]*1.5L; }
    r->hyp = c; r->err = upl(c->nerr + 2*UU[fmt]*hi + ETA[fmt]); 
    // tighten with the logarithm if known (cheap)
    if (c->logst == 1) { LD a, b; c->lg.re.bounds(a, b); LD x = std::exp(a)*(1 - 1e-15L*(1 + std::fabs(a)/100)) , y = std::exp(b)*(1 + 1e-15L*(1 + std::fabs(b)/100));
      LD re = relerr(c) + 2*UU[fmt]; if (std::isfinite(re)) { x = x*(1 - re) - ETA[fmt]; y = y*(1 + re) + ETA[fmt]; if (x > r->lo) r->lo = x; if (y < r->hi && !(ovf && y > FMAX_[fmt])) r->hi = y; if (r->lo > FMAX_[fmt]*(1 + 4*UU[fmt])) { r->lo = r->hi = INFINITY; r->hyp = nullptr; return r; } if (r->hi <= FMAX_[fmt]) r->top = false; } }
    else if (!ovf) { needtm(r); LD a, b; r->tm->bounds(a, b); a -= r->err; b += r->err; if (a > r->lo) r->lo = a; if (b < r->hi) r->hi = b; }
    return r; }
  RV* arg_(int fmt, CV* c) {
    RV *x = c->re, *y = c->im; if (x->nan || y->nan) return nanrv(fmt);
    LD P = PIU(fmt); LD lo = -P, hi = P;
    if (rezero(y)) { if (x->lo > 0) { RV* z = constant(fmt, 0); z->sgn = y->sgn; return z; }
      if (x->hi < 0) { if (y->sgn == 0) { bool s = choose(); setsgn(y, s ? -1 : 1); } return constant(fmt, y->sgn < 0 ? -rnd(3.1415926535897932384626433832795L, fmt) : rnd(3.1415926535897932384626433832795L, fmt)); } }
    if (y->sgn > 0) lo = 0; if (y->sgn < 0) hi = 0;
    if (x->lo > 0) { lo = std::max(lo, -P/2); hi = std::min(hi, P/2); }
    if (x->hi < 0) { if (y->sgn > 0) lo = P/2*(1 - 4*UU[fmt]); if (y->sgn < 0) hi = -P/2*(1 - 4*UU[fmt]); }
    if (!x->finite() || !y->finite()) { return fromiv(fmt, lo, hi, y->sgn); }
    if (x->inf() == 0 && y->inf() == 0 && x->lo <= 0 && y->lo <= 0 && y->hi >= 0) { return fromiv(fmt, lo, hi, y->sgn); }
    if (getlog(c)) { LD e = relerr(c); LD a, b; c->lg.im.bounds(a, b); LD s = std::min(std::max(std::fabs(a), std::fabs(b)), P); 
      if (y->sgn > 0) lo = 0; if (y->sgn < 0) hi = 0;
      if (x->lo > 0 && y->sgn) { LD m = std::atan2(y->inf(), x->hi)*(1 - 4*UU[fmt]) - ETA[fmt]; if (m > 0) { if (y->sgn > 0) lo = std::max(lo, m); else hi = std::min(hi, -m); } }
      if (std::isfinite(e)) return fromtm(fmt, c->lg.im, e + 2*UU[fmt]*(s + e) + ETA[fmt], lo, hi, y->sgn); }
    // interval
    if (y->sgn == 0 && !(x->lo > 0)) return fromiv(fmt, lo, hi, 0);
    LD c4[4] = {std::atan2(y->lo, x->lo), std::atan2(y->lo, x->hi), std::atan2(y->hi, x->lo), std::atan2(y->hi, x->hi)}; 
    LD a = INFINITY, b = -INFINITY; for (LD v : c4) { if (y->sgn < 0 && v > 0) v = -v; if (y->sgn > 0 && v < 0) v = -v; a = std::min(a, v); b = std::max(b, v); }
    if (x->lo <= 0 && x->hi >= 0) { if (y->sgn > 0) b = std::max(b, std::atan2(std::max(y->lo, (LD)0), x->lo)); }
    LD sl = 3*UU[fmt]; lo = std::max(lo, a - std::fabs(a)*sl - ETA[fmt]); hi = std::min(hi, b + std::fabs(b)*sl + ETA[fmt]);
    return fromiv(fmt, lo, hi, y->sgn); }
  // real logarithm of a positive value
  RV* log_(int fmt, RV* x, LD ul = 2) {
    if (x->nan) return nanrv(fmt); if (x->lo < 0 && x->sgn <= 0) return nanrv(fmt);
    const LD u = UU[fmt]; LD ll = x->lo <= 0 ? -INFINITY : std::log(x->lo), lh = std::log(x->hi);
    LD lo = std::isinf(ll) ? ll : ll - std::fabs(ll)*(ul + 1)*u, hi = std::isinf(lh) ? lh : lh + std::fabs(lh)*(ul + 1)*u; if (x->lo <= 0) lo = -INFINITY;
    if (x->pt() && x->lo == 1) return constant(fmt, 0);
    if (std::isinf(lo) || std::isinf(hi)) { RV* r = R(); r->fmt = fmt; r->lo = lo; r->hi = hi; r->top = true; return r; }
    if (x->hyp && getlog(x->hyp)) { LD e = relerr(x->hyp); LD e2 = x->err/std::max(x->lo - x->err, ETA[F80]); 
      // x->err covers hypot rounding + input error
      if (std::isfinite(e) && x->lo > x->err) { LD rl = e + 2*u; rl = std::min(rl*(1 + 4*rl), e2); LD a, b; x->hyp->lg.re.bounds(a, b); LD s = std::max(std::fabs(a), std::fabs(b)); return fromtm(fmt, x->hyp->lg.re, rl + ul*u*(s + rl), lo, hi); } }
    try {
      needtm(x); CTM V; V.re = *x->tm; Q c = V.re.cen(); if (c <= 0) throw TMFail("log<=0");
      Q lr = V.re.off == 1 ? log1pq(ldexpq(V.re.c0(), V.re.e)) : logq(c);
      CTM g = clog_series(V, lr, 0); LD d = x->lo - x->err; if (d <= 0) throw TMFail("logerr");
      LD e = x->err/d; LD a, b; g.re.bounds(a, b); LD s = std::min(std::max(std::fabs(a), std::fabs(b)), std::max(std::fabs(lo), std::fabs(hi)));
      return fromtm(fmt, g.re, e + ul*u*(s + e), lo, hi);
    } catch (TMFail&) {} catch (Top&) {}
    return fromiv(fmt, lo, hi); }
  RV* log1p_(int fmt, RV* x) {
    if (x->nan || x->lo < -1) return nanrv(fmt); const LD u = UU[fmt];
    LD ll = x->lo <= -1 ? -INFINITY : std::log1p(x->lo), lh = std::log1p(x->hi); LD lo = ll - std::fabs(ll)*5*u - ETA[fmt], hi = lh + std::fabs(lh)*5*u + ETA[fmt];
    if (std::isinf(lo) || std::isinf(hi)) { RV* r = R(); r->fmt = fmt; r->lo = lo; r->hi = hi; r->top = true; return r; }
    try {
      needtm(x); TM one; one.off = 1; CTM V; V.re = tadd(*x->tm, one); Q lr = V.re.off == 1 ? log1pq(ldexpq(V.re.c0(), V.re.e)) : logq(V.re.cen()); if (V.re.cen() <= 0) throw TMFail("log1p");
      CTM g = clog_series(V, lr, 0); LD d = 1 + x->lo - x->err; if (d <= 0) throw TMFail("log1perr");
      LD e = x->err/d; LD s = std::max(std::fabs(lo), std::fabs(hi));
      return fromtm(fmt, g.re, e + 4*u*s + ETA[fmt], lo, hi, x->sgn);
    } catch (TMFail&) {} catch (Top&) {}
    return fromiv(fmt, lo, hi, x->sgn); }
  RV* sqrt_(int fmt, RV* x) {
    if (x->nan || x->lo < 0) return nanrv(fmt); LD lo = std::sqrt(x->lo)*(1 - 2*UU[fmt]), hi = std::sqrt(x->hi)*(1 + 2*UU[fmt]);
    if (!x->finite()) { RV* r = R(); r->fmt = fmt; r->lo = lo; r->hi = hi; r->top = true; return r; }
    try { needtm(x); TM t = tsqrt(*x->tm); LD m = std::sqrt(std::max(x->lo - x->err, (LD)0)); if (!(m > 0)) throw TMFail("sqrt"); return fromtm(fmt, t, x->err/m + UU[fmt]*hi, lo, hi, 1); } catch (TMFail&) {} catch (Top&) {}
    return fromiv(fmt, lo, hi, 1); }
  RV* exp_(int fmt, RV* x) {
    if (x->nan) return nanrv(fmt); LD lo = std::exp(x->lo)*(1 - 4*UU[fmt] - 1e-18L), hi = std::exp(x->hi)*(1 + 4*UU[fmt] + 1e-18L) + ETA[fmt];
    if (hi > FMAX_[fmt] || !x->finite()) { RV* r = R(); r->fmt = fmt; r->lo = lo; r->hi = hi; r->top = true; return r; }
    try { needtm(x); CTM F; F.re = *x->tm; CTM g = cexp_series(F, expq(F.re.cen()), 0); return fromtm(fmt, g.re, std::expm1(x->err)*hi*(1 + 1e-10L) + 2*UU[fmt]*hi + ETA[fmt], lo, hi, 1); } catch (TMFail&) {} catch (Top&) {}
    return fromiv(fmt, lo, hi, 1); }
  RV* sincos_(int fmt, RV* x, bool cs) {
    if (x->nan || !x->finite()) return nanrv(fmt);
    if (x->pt()) { Q v = cs ? cosq((Q)x->lo) : sinq((Q)x->lo); LD w = (LD)v; if (x->lo == 0) return constant(fmt, cs ? 1 : x->lo); LD e = std::fabs(w)*3*UU[fmt] + ETA[fmt]; RV* r = fromtm(fmt, TM::constant(v), e, w - e, w + e); return r; }
    if (x->sup() < 0.5L) { try { needtm(x); TM x2 = tsqr(*x->tm); LD s2 = upl(x2.sup()); TM h; LD p = 1; int K = 1; while (p > 1e-34L && K < 30) { p *= s2/((2*K)*(2*K + (cs ? -1 : 1))); ++K; } 
        h = TM::constant(1); for (int k = K; k >= 1; --k) { Q d = (Q)(2*k)*(2*k + (cs ? -1 : 1)); TM y = tscale(tmul(x2, h), -1/d); y.rem = up(y.rem + y.norm()*1e-32); h = tadd(TM::constant(1), y); }
        h.addrem(p*1.1L); TM t = cs ? h : tmul(*x->tm, h); LD xs = x->sup(); LD lo, hi; if (cs) { lo = 0.8L; hi = 1; } else { lo = x->lo >= 0 ? x->lo*(1 - xs*xs/6)*(1 - 4*UU[fmt]) - ETA[fmt] : x->lo*(1 + 4*UU[fmt]) - ETA[fmt]; hi = x->hi <= 0 ? x->hi*(1 - xs*xs/6)*(1 - 4*UU[fmt]) + ETA[fmt] : x->hi*(1 + 4*UU[fmt]) + ETA[fmt]; if (x->lo > 0 && lo < 0) lo = 0; if (x->hi < 0 && hi > 0) hi = 0; }
        return fromtm(fmt, t, x->err + 2*UU[fmt]*(cs ? 1 : xs) + ETA[fmt], lo, hi, cs ? 1 : x->sgn); } catch (TMFail&) {} catch (Top&) {} }
    try { needtm(x); CTM F; F.im = *x->tm; Q c = F.im.cen(); CTM g = cexp_series(F, cosq(c), sinq(c)); TM& t = cs ? g.re : g.im; LD a, b; t.bounds(a, b); LD s = std::min((LD)1, std::max(std::fabs(a), std::fabs(b)) + x->err); return fromtm(fmt, t, x->err + 2*UU[fmt]*s + ETA[fmt], -1, 1); } catch (TMFail&) {} catch (Top&) {}
    return fromiv(fmt, -1, 1); }
  RV* powi_(int fmt, RV* x, long n) { // repeated multiplication (contract: 2 ulp relative per n? handled as n roundings)
    if (n == 0) return constant(fmt, 1); bool inv = n < 0; long m = inv ? -n : n; RV* r = nullptr; RV* b = x;
    while (m) { if (m & 1) r = r ? arith(fmt, '*', r, b) : b; m >>= 1; if (m) b = arith(fmt, '*', b, b); }
    return inv ? arith(fmt, '/', constant(fmt, 1), r) : r; }

  CV* clog_(int fmt, CV* c) {
    const LD u = UU[fmt]; CV* r = C(); r->fmt = fmt;
    RV *x, *y; 
    if (rezero(c->im) && !c->re->nan && c->re->finite() && (c->re->lo > 0 || c->re->hi < 0)) { // on the real axis
      RV* ax = c->re->lo > 0 ? c->re : neg(c->re); y = arg_(fmt, c); x = log_(fmt, ax, 4); 
      RV* X = R(); *X = *x; RV* Y = R(); *Y = *y; X->owner = Y->owner = r; X->part = 0; Y->part = 1; X->sub = Y->sub = X->ng = Y->ng = 0; r->re = X; r->im = Y; r->nerr = upl(X->err + (rezero(Y) ? 0 : 4*UU[fmt]));
      r->qa.u = c; r->qa.p = 1; r->qa.q = 0; r->qa.coef.re = TM::constant(1); r->qa.cerr = 0; r->qa.csup = 1; return r; }
    RV* a = arg_iv(fmt, c); 
    if (c->re->nan || c->im->nan) { x = nanrv(fmt); y = nanrv(fmt); }
    else {
      RV* h = R(); h->fmt = fmt; h->lo = c->inf(); h->hi = c->sup(); LD ll = h->lo <= 0 ? -INFINITY : std::log(h->lo), lh = h->hi <= 0 ? -INFINITY : std::log(h->hi);
      LD mx = std::max(std::max(std::fabs(ll), std::fabs(lh)), (LD)4); LD sl = 10*u; LD lo = ll - sl*mx, hi = lh + sl*mx;
      if (std::isinf(lo) || std::isinf(hi) || !c->re->finite() || !c->im->finite()) { x = R(); x->fmt = fmt; x->lo = lo; x->hi = hi; x->top = true; y = a; r->nerr = INFINITY; }
      else {
        LD e = INFINITY; if (getlog(c)) e = relerr(c);
        if (std::isfinite(e)) {
          LD s; { LD p, q; c->lg.re.bounds(p, q); s = std::max(std::fabs(p), std::fabs(q)); c->lg.im.bounds(p, q); s = std::hypot(s, std::max(std::fabs(p), std::fabs(q))); }
          LD t = e + 8*u*(s + e) + 2*ETA[fmt];
          // clog is also accurate per component: the imaginary part is an arctangent
          LD pi_, qi_; c->lg.im.bounds(pi_, qi_); LD si = std::max(std::fabs(pi_), std::fabs(qi_));
          long rb0 = nrb; x = fromtm(fmt, c->lg.re, t, lo, hi); y = fromtm(fmt, c->lg.im, e + 4*u*(si + e) + 2*ETA[fmt], a->lo, a->hi, a->sgn); r->nerr = upl(std::hypot(x->err, y->err)); if (rb0 == nrb) r->nerr = std::min(r->nerr, upl(t));
        } else { x = fromiv(fmt, lo, hi); y = a; r->nerr = upl(std::hypot(x->err, y->err)); }
      } }
    RV* X = R(); *X = *x; RV* Y = R(); *Y = *y; X->owner = Y->owner = r; X->part = 0; Y->part = 1; X->sub = Y->sub = X->ng = Y->ng = 0; r->re = X; r->im = Y;
    r->qa.u = c; r->qa.p = 1; r->qa.q = 0; r->qa.coef.re = TM::constant(1); r->qa.cerr = 0; r->qa.csup = 1;
    return r; }
  RV* arg_iv(int fmt, CV* c) { // interval of arg
    RV *x = c->re, *y = c->im; LD P = PIU(fmt)*(1 + 4*UU[fmt]); LD lo = -P, hi = P; if (x->nan || y->nan) return nanrv(fmt);
    if (!(x->lo > 0) && y->sgn == 0) { bool s = choose(); setsgn(y, s ? -1 : 1); }
    if (y->sgn > 0) lo = 0; if (y->sgn < 0) hi = 0; if (x->lo > 0) { lo = std::max(lo, -P/2); hi = std::min(hi, P/2); }
    return fromiv(fmt, lo, hi, y->sgn); }

  // ---------------- conditions
  bool decide(const std::string& op, RV* a, RV* b) {
    if (a->nan || b->nan) throw Fail{"branch on possible NaN"};
    int fmt = std::max(a->fmt, b->fmt);
    auto tri = [&](const std::string& o) -> int { // 1 true 0 false -1 unknown
      if (o == "lt") { if (a->hi < b->lo) return 1; if (a->lo >= b->hi) return 0; return -1; }
      if (o == "le") { if (a->hi <= b->lo) return 1; if (a->lo > b->hi) return 0; return -1; }
      if (o == "gt") { if (a->lo > b->hi) return 1; if (a->hi <= b->lo) return 0; return -1; }
      if (o == "ge") { if (a->lo >= b->hi) return 1; if (a->hi < b->lo) return 0; return -1; }
      if (o == "eq") { if (a->lo > b->hi || a->hi < b->lo) return 0; if (a->pt() && b->pt() && a->lo == b->lo) return 1; return -1; }
      if (o == "ne") { if (a->lo > b->hi || a->hi < b->lo) return 1; if (a->pt() && b->pt() && a->lo == b->lo) return 0; return -1; }
      return -2; };
    std::string o = op; bool negd = false;
    if (o == "ord") return true; if (o == "unord") return false;
    if (o == "uneq") o = "eq"; if (o == "ltgt") o = "ne";
    if (o == "unlt") o = "lt"; if (o == "unle") o = "le"; if (o == "ungt") o = "gt"; if (o == "unge") o = "ge";
    if (o == "ult") o = "lt"; if (o == "ule") o = "le"; if (o == "ugt") o = "gt"; if (o == "uge") o = "ge"; if (o == "ueq") o = "eq";
    (void)negd;
    int t = tri(o); if (t == -2) throw Fail{"comparison " + op}; if (t >= 0) return t;
    if (allow_split) {
      if (a->in && b->pt()) throw Split{a->in > 0 ? b->lo : -b->lo};
      if (b->in && a->pt()) throw Split{b->in > 0 ? a->lo : -a->lo}; }
    bool v = choose();
    // refine
    auto setmax = [&](RV* x, LD m) { if (m < x->hi) x->hi = m; if (x->lo > x->hi) throw Infeasible(); };
    auto setmin = [&](RV* x, LD m) { if (m > x->lo) x->lo = m; if (x->lo > x->hi) throw Infeasible(); };
    std::string e = o; if (!v) { e = o == "lt" ? "ge" : o == "le" ? "gt" : o == "gt" ? "le" : o == "ge" ? "lt" : o == "eq" ? "ne" : "eq"; }
    if (e == "lt") { setmax(a, prv(uq(b->hi, fmt), fmt)); setmin(b, nxt(dn(a->lo, fmt), fmt)); }
    else if (e == "le") { setmax(a, b->hi); setmin(b, a->lo); }
    else if (e == "gt") { setmin(a, nxt(dn(b->lo, fmt), fmt)); setmax(b, prv(uq(a->hi, fmt), fmt)); }
    else if (e == "ge") { setmin(a, b->lo); setmax(b, a->hi); }
    else if (e == "eq") { setmax(a, b->hi); setmin(a, b->lo); setmax(b, a->hi); setmin(b, a->lo); restrict_(a); restrict_(b); if (a->lo == a->hi && a->tm && (g_dim == 1 || !std::isfinite(a->err))) { rebase(a); } if (b->lo == b->hi && b->tm && (g_dim == 1 || !std::isfinite(b->err))) rebase(b); }
    else if (e == "ne") { if (b->pt()) { if (a->lo == b->lo) setmin(a, nxt(b->lo, fmt)); if (a->hi == b->lo) setmax(a, prv(b->lo, fmt)); } else if (a->pt()) { if (b->lo == a->lo) setmin(b, nxt(a->lo, fmt)); if (b->hi == a->lo) setmax(b, prv(a->lo, fmt)); } }
    restrict_(a); restrict_(b);
    for (RV* r : {a, b}) if (r->top && r->finite()) { r->top = false; if (!r->tm && !r->hyp) rebase(r); }
    if (a->lo > 0) a->sgn = 1; if (a->hi < 0) a->sgn = -1; if (b->lo > 0) b->sgn = 1; if (b->hi < 0) b->sgn = -1;
    return v; }
};
