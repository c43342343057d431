// Deductive numeric verifier: executes the extracted IR of a real function on abstract inputs (whole boxes of arguments)
// and discharges the postcondition  |result - spec(argument)| <= tolerance  on every path.
#include "absdom.hpp"
#include <thread>
#include <mutex>
#include <atomic>
#include <chrono>
#include <condition_variable>
thread_local int g_dim = 1; thread_local int g_deg = 20; thread_local double g_thr = 1e-30;

struct Val { char k = 0; RV* r = nullptr; CV* c = nullptr; __int128 i = 0; int obj = -1; long long off = 0; TyI ty; };
struct Cell { Val v; int size; };
struct Obj { std::map<long long, Cell> cells; const std::vector<unsigned char>* raw = nullptr; bool param = false; };

static int fmtof(Ty t) { return t == T_F32 || t == T_C32 ? F32 : t == T_F80 || t == T_C80 ? F80 : F64; }
static int fsz(int f) { return f == F32 ? 4 : f == F64 ? 8 : 16; }

// supremum of |t| on [tlo,thi] (1D)
static LD supon(const TM& t0, Q tlo, Q thi) {
  if (g_dim != 1 || (tlo <= -1 && thi >= 1)) return t0.sup();
  TM t = t0.fold(); Q c[MAXDEG + 2]; for (int k = 0; k <= t.deg; ++k) c[k] = (Q)t.h[k] + (Q)t.l[k];
  Q m = (tlo + thi)/2, h = (thi - tlo)/2*(1 + (Q)1e-30) + (Q)1e-30; for (int i = 0; i < t.deg; ++i) for (int k = t.deg - 1; k >= i; --k) c[k] += m*c[k + 1];
  Q s = 0, p = 1; for (int k = 0; k <= t.deg; ++k) { s += fabsq(c[k])*p; p *= h; } s += (Q)t.rem + s*(Q)1e-30; s = ldexpq(s, t.e); LD r = (LD)s; return std::nextafterl(r*(1 + 1e-18L), INFINITY); }

struct KBin { LD lo, hi; double km, ke; mutable double mm = 0, me = 0; };
struct Machine {
  const Prog& P; Ctx& X; std::vector<Obj> objs; long steps = 0, maxsteps = 2000000; std::set<std::string>* called = nullptr; int depth = 0; bool trace = false;
  Machine(const Prog& p, Ctx& x) : P(p), X(x) {}
  Val VR(RV* r) { Val v; v.k = 'r'; v.r = r; return v; }
  Val VC(CV* c) { Val v; v.k = 'c'; v.c = c; return v; }
  static __int128 wrap(__int128 x, const TyI& t) { if (t.t == T_BOOL) return x & 1; if (t.bits == 0 || t.bits >= 128) return x; unsigned __int128 m = ((unsigned __int128)1 << t.bits) - 1; unsigned __int128 u = (unsigned __int128)x & m; if (t.sgn && (u >> (t.bits - 1))) return (__int128)(u | ~m); return (__int128)u; }
  Val VI(__int128 i, TyI t) { Val v; v.k = 'i'; v.i = wrap(i, t); v.ty = t; return v; }
  struct Frame { const Fn* f; std::vector<Val> reg; std::map<std::string, int> vo; };
  int var(Frame& F, const std::string& n) {
    auto it = F.vo.find(n); if (it != F.vo.end()) return it->second;
    Obj o; if (n[0] == 'g') { auto g = P.glob.find(n); if (g == P.glob.end()) throw Fail{"unknown global " + n}; o.raw = &g->second; }
    objs.push_back(o); return F.vo[n] = (int)objs.size() - 1; }
  Val op(Frame& F, const Opnd& o, Ty want = T_UNK) {
    switch (o.k) {
      case 'r': { const Val& v = F.reg[o.reg]; if (v.k == 0) throw Fail{"use of undefined value"}; return v; }
      case 'i': { Val v; v.k = 'i'; v.i = o.i; v.ty.t = T_INT; v.ty.bits = 64; v.ty.sgn = true; return v; }
      case 'f': { int f = isreal(want) || iscplx(want) ? fmtof(want) : F80; LD x = o.f; if (f == F64) x = std::isnan(o.f) || std::isinf(o.f) ? o.f : (LD)strtod(o.s.c_str(), nullptr); else if (f == F32) x = std::isnan(o.f) || std::isinf(o.f) ? o.f : (LD)strtof(o.s.c_str(), nullptr); return VR(X.constant(f, x)); }
      case 'c': { int f = fmtof(want); auto g = [&](const std::string& s, LD l) { return f == F64 ? (LD)strtod(s.c_str(), nullptr) : f == F32 ? (LD)strtof(s.c_str(), nullptr) : l; }; return VC(X.mkc(f, g(o.s, o.f), g(o.s2, o.f2))); }
      case 'a': { Val v; v.k = 'p'; v.obj = var(F, o.var); v.off = o.i; return v; }
    }
    throw Fail{"operand"}; }
  void addr(Frame& F, const LV& l, int& obj, long long& off) {
    if (l.base == 'p') { Val v = op(F, l.p); if (v.k != 'p') throw Fail{"deref of non-pointer"}; obj = v.obj; off = v.off + l.off; }
    else { obj = var(F, l.name); off = l.off; }
    for (auto& ix : l.idx) { Val v = op(F, ix.first); if (v.k != 'i') throw Fail{"symbolic index"}; off += (long long)v.i*ix.second; } }
  Val load(int obj, long long off, const TyI& t) {
    Obj& o = objs[obj]; int sz = tysize(t);
    if (o.raw) {
      auto& b = *o.raw; if (off < 0 || off + (t.t == T_F80 ? 10 : sz) > (long long)b.size()) throw Fail{"load out of bounds of a constant table"};
      const unsigned char* p = b.data() + off;
      if (isreal(t.t)) { LD v; if (t.t == T_F32) { float f; memcpy(&f, p, 4); v = f; } else if (t.t == T_F64) { double d; memcpy(&d, p, 8); v = d; } else { LD l = 0; memcpy(&l, p, 10); v = l; } return VR(X.constant(fmtof(t.t), v)); }
      if (iscplx(t.t)) { TyI h; h.t = t.t == T_C32 ? T_F32 : t.t == T_C64 ? T_F64 : T_F80; Val a = load(obj, off, h), c = load(obj, off + sz/2, h); return VC(X.mk(a.r, c.r, fmtof(t.t))); }
      if (t.t == T_INT || t.t == T_BOOL) { unsigned long long u = 0; memcpy(&u, p, sz); return VI((__int128)u, t); }
      throw Fail{"load type"}; }
    auto it = o.cells.find(off);
    if (iscplx(t.t)) {
      if (it != o.cells.end() && it->second.v.k == 'c') return it->second.v;
      TyI h; h.t = t.t == T_C32 ? T_F32 : t.t == T_C64 ? T_F64 : T_F80; Val a = load(obj, off, h), c = load(obj, off + sz/2, h); return VC(X.mk(a.r, c.r, fmtof(t.t))); }
    if (it != o.cells.end() && it->second.v.k != 'c') return it->second.v;
    if (isreal(t.t)) {
      if (it != o.cells.end()) return VR(it->second.v.c->re);
      auto jt = o.cells.find(off - sz); if (jt != o.cells.end() && jt->second.v.k == 'c') return VR(jt->second.v.c->im); }
    throw Fail{"load of uninitialised or out-of-bounds memory"}; }
  void store(int obj, long long off, const TyI& t, Val v) {
    Obj& o = objs[obj]; if (o.raw) throw Fail{"store to constant"};
    int sz = iscplx(t.t) ? tysize(t) : v.k == 'c' ? 2*fsz(v.c->fmt) : tysize(t);
    if (v.k == 'r' && iscplx(t.t)) throw Fail{"store type"};
    // split overlapping complex cells
    for (long long d : {off, off - sz}) { auto it = o.cells.find(d); if (it != o.cells.end() && it->second.v.k == 'c' && v.k == 'r') { CV* c = it->second.v.c; int h = fsz(c->fmt); o.cells[d] = {VR(c->re), h}; o.cells[d + h] = {VR(c->im), h}; } }
    if (v.k == 'c') { o.cells.erase(off + sz/2); }
    o.cells[off] = {v, sz}; }
  void copy(int so, long long sf, int d, long long df, long long size) {
    if (objs[so].raw) { // materialise as raw
      if (df == 0 && objs[d].cells.empty() && sf == 0) { // private copy-on-write: decode lazily is impossible, keep raw pointer in a shadow
        shadow[d] = objs[so].raw; return; }
      throw Fail{"aggregate copy"}; }
    std::map<long long, Cell> tmp = objs[so].cells; for (auto& c : tmp) if (c.first >= sf && c.first < sf + size) objs[d].cells[df + c.first - sf] = c.second;
    if (shadow.count(so)) { if (sf == 0 && df == 0) shadow[d] = shadow[so]; else throw Fail{"aggregate copy"}; } }
  std::map<int, const std::vector<unsigned char>*> shadow;
  Val loadx(int obj, long long off, const TyI& t) {
    auto s = shadow.find(obj);
    if (s != shadow.end()) { bool has = objs[obj].cells.count(off) || (iscplx(t.t) && objs[obj].cells.count(off + tysize(t)/2)); if (!has) { Obj o; o.raw = s->second; objs.push_back(o); int k = (int)objs.size() - 1; Val v = load(k, off, t); objs.pop_back(); return v; } }
    return load(obj, off, t); }

  Val call(const std::string& name, std::vector<Val> args) {
    auto it = P.fns.find(name); if (it == P.fns.end()) throw Fail{"unknown function " + name};
    if (++depth > 60) throw Fail{"recursion too deep"};
    if (called) called->insert(name);
    const Fn& f = it->second; Frame F; F.f = &f; F.reg.assign(f.nreg + 1, Val());
    for (size_t i = 0; i < f.params.size() && i < args.size(); ++i) if (f.params[i].reg >= 0) F.reg[f.params[i].reg] = args[i];
    for (auto& v : f.vars) if (v.second.second >= 0) { int o = var(F, v.first); Val a = args.at(v.second.second); int sz = a.k == 'r' ? fsz(a.r->fmt) : a.k == 'c' ? 2*fsz(a.c->fmt) : 8; objs[o].cells[0] = {a, sz}; }
    int cur = f.entry, prev = -1;
    while (true) {
      auto bit = f.blocks.find(cur); if (bit == f.blocks.end()) throw Fail{"bad block"}; const Block& b = bit->second;
      if (!b.phis.empty()) { std::vector<Val> nv; for (auto& p : b.phis) { auto q = p.in.find(prev); if (q == p.in.end()) throw Fail{"phi"}; 
          if (q->second.k == 'r' && F.reg[q->second.reg].k == 0) nv.push_back(Val()); else nv.push_back(op(F, q->second, p.ty.t)); if (nv.back().k == 'i') nv.back().ty = p.ty; }
        for (size_t i = 0; i < nv.size(); ++i) F.reg[b.phis[i].dst] = nv[i]; }
      for (auto& ins : b.ins) { if (++steps > maxsteps) throw Fail{"step limit"}; exec(F, ins); if (trace && ins.dst >= 0) { Val& v = F.reg[ins.dst]; if (v.k == 'r') fprintf(stderr, "  %s\n      -> [%Lg,%Lg] err %Lg c=%g sgn %d nan %d top %d e %d rem %g\n", ins.text.c_str(), v.r->lo, v.r->hi, v.r->err, v.r->tm ? (double)v.r->tm->cen() : NAN, v.r->sgn, v.r->nan, v.r->top, v.r->tm ? v.r->tm->e : 0, v.r->tm ? v.r->tm->rem : 0.0); else if (v.k == 'c') fprintf(stderr, "  %s\n      -> re[%Lg,%Lg] im[%Lg,%Lg] nerr %Lg c=(%g,%g)\n", ins.text.c_str(), v.c->re->lo, v.c->re->hi, v.c->im->lo, v.c->im->hi, v.c->nerr, v.c->re->tm ? (double)v.c->re->tm->cen() : NAN, v.c->im->tm ? (double)v.c->im->tm->cen() : NAN); } }
      if (++steps > maxsteps) throw Fail{"step limit"};
      const Term& t = b.term; prev = cur;
      if (t.k == 'g') cur = t.t;
      else if (t.k == 'i') cur = cond(F, t.op, t.a, t.b) ? t.t : t.f;
      else if (t.k == 's') { Val v = op(F, t.a); int to = t.f; for (auto& c : t.cs) if (v.i >= c[0] && v.i <= c[1]) { to = (int)c[2]; break; } cur = to; }
      else if (t.k == 'r') { --depth; if (!t.a.k) return Val(); Ty want = pty(f.ret).t; return op(F, t.a, want); }
      else throw Fail{"unreachable code reached"};
    } }
  Ty cty(Frame& F, const Opnd& a, const Opnd& b) {
    for (const Opnd* o : {&a, &b}) if (o->k == 'r') { const Val& v = F.reg[o->reg]; if (v.k == 'r') return v.r->fmt == F32 ? T_F32 : v.r->fmt == F64 ? T_F64 : T_F80; if (v.k == 'c') return v.c->fmt == F32 ? T_C32 : v.c->fmt == F64 ? T_C64 : T_C80; if (v.k == 'i') return T_INT; }
    return T_UNK; }
  bool cond(Frame& F, const std::string& o, const Opnd& a, const Opnd& b) {
    Ty w = cty(F, a, b); Val x = op(F, a, w), y = op(F, b, w);
    return cmp(o, x, y); }
  bool cmp(const std::string& o, Val x, Val y) {
    if (x.k == 'i' && y.k == 'i') {
      TyI t = x.ty.bits && !(x.ty.bits == 64 && y.ty.bits && y.ty.bits < 64) ? x.ty : y.ty; bool uns = !x.ty.sgn && x.ty.t == T_INT; (void)t; __int128 p = x.i, q = y.i; if (uns) q = wrap(q, x.ty);
      if (o == "eq") return p == q; if (o == "ne") return p != q; if (o == "lt") return p < q; if (o == "le") return p <= q; if (o == "gt") return p > q; if (o == "ge") return p >= q;
      throw Fail{"int compare"}; }
    if (x.k == 'r' && y.k == 'r') return X.decide(o, x.r, y.r);
    if (x.k == 'c' && y.k == 'c') { bool e = X.decide("eq", x.c->re, y.c->re) && X.decide("eq", x.c->im, y.c->im); if (o == "eq") return e; if (o == "ne") return !e; }
    if (x.k == 'p' || y.k == 'p') throw Fail{"pointer compare"};
    throw Fail{"compare"}; }
  void exec(Frame& F, const Ins& n) {
    switch (n.k) {
      case 'U': throw Fail{"unsupported construct: " + n.text};
      case 'L': { int o; long long f; addr(F, n.lv, o, f); F.reg[n.dst] = loadx(o, f, n.ty); return; }
      case 'S': { int o; long long f; addr(F, n.lv, o, f); Val v = op(F, n.a[0], n.ty.t); if (v.k == 'i') v.ty = n.ty; store(o, f, n.ty, v); return; }
      case 'A': { Val v; v.k = 'p'; addr(F, n.lv, v.obj, v.off); F.reg[n.dst] = v; return; }
      case 'Y': { int a, b; long long p, q; addr(F, n.lv, a, p); addr(F, n.lv2, b, q); copy(b, q, a, p, n.size); return; }
      case 'C': { Val v = callins(F, n); if (n.dst >= 0) F.reg[n.dst] = v; return; }
      case 'I': F.reg[n.dst] = arith(F, n); return; } }
  Val arith(Frame& F, const Ins& n) {
    const std::string& o = n.op; Ty t = n.ty.t;
    if (o == "mov") { Val v = op(F, n.a[0], t); if (v.k == 'i') { v.ty = n.ty; v.i = wrap(v.i, n.ty); } return v; }
    if (o == "re" || o == "im") { Val v = op(F, n.a[0]); if (v.k != 'c') throw Fail{"part of non-complex"}; return VR(o == "re" ? v.c->re : v.c->im); }
    if (o == "cplx") { Ty w = t == T_C32 ? T_F32 : t == T_C64 ? T_F64 : T_F80; Val a = op(F, n.a[0], w), b = op(F, n.a[1], w); return VC(X.mk(a.r, b.r, fmtof(t))); }
    if (o == "cvt") {
      Val v = op(F, n.a[0], isreal(t) ? t : T_UNK);
      if (isreal(t)) { if (v.k == 'r') return VR(X.cvt(fmtof(t), v.r)); if (v.k == 'i') return VR(X.constant(fmtof(t), rnd((LD)v.i, fmtof(t)))); }
      if (iscplx(t) && v.k == 'c') { int f = fmtof(t); return VC(X.mk(X.cvt(f, v.c->re), X.cvt(f, v.c->im), f)); }
      if (t == T_INT || t == T_BOOL) { if (v.k == 'i') return VI(v.i, n.ty); if (v.k == 'r' && v.r->pt()) { LD x = std::trunc(v.r->lo); return VI((__int128)x, n.ty); } throw Fail{"float to integer conversion of a symbolic value"}; }
      return v; }
    if (o == "sel") { Val c = op(F, n.a[0]); return op(F, n.a[c.i ? 1 : 2], t); }
    static const std::set<std::string> cmps = {"eq", "ne", "lt", "le", "gt", "ge", "ult", "ule", "ugt", "uge", "unlt", "unle", "ungt", "unge", "uneq", "ueq", "ltgt", "ord", "unord"};
    if (cmps.count(o) && n.lazy >= 0) { const Val& v = F.reg[n.lazy]; if (v.k == 'i' && (v.i != 0) == n.lazyv) return VI(n.lazyv, n.ty); }
    if (cmps.count(o)) { bool b = cond(F, o, n.a[0], n.a[1]); return VI(b, n.ty); }
    if (t == T_INT || t == T_BOOL || t == T_PTR || t == T_UNK) {
      Val a = op(F, n.a[0]); 
      if (a.k == 'p') { Val b = op(F, n.a[1]); if (o == "add" && b.k == 'i') { a.off += (long long)b.i; return a; } throw Fail{"pointer op"}; }
      if (a.k == 'i') {
        __int128 x = a.i, y = 0; if (n.a.size() > 1) { Val b = op(F, n.a[1]); if (b.k != 'i') throw Fail{"int op"}; y = b.i; }
        bool uns = t == T_INT && !n.ty.sgn; if (uns) { x = wrap(x, n.ty); if (o != "shl" && o != "shr") y = wrap(y, n.ty); }
        __int128 r;
        if (o == "add") r = x + y; else if (o == "sub") r = x - y; else if (o == "mul") r = x*y; else if (o == "div") { if (!y) throw Fail{"division by zero"}; r = x/y; } else if (o == "mod") { if (!y) throw Fail{"division by zero"}; r = x%y; }
        else if (o == "neg") r = -x; else if (o == "abs") r = x < 0 ? -x : x; else if (o == "and") r = x & y; else if (o == "or") r = x | y; else if (o == "xor") r = x ^ y; else if (o == "shl") r = x << (int)y; else if (o == "shr") r = x >> (int)y;
        else if (o == "bnot") r = ~x; else if (o == "lnot") r = !x; else if (o == "min") r = std::min(x, y); else if (o == "max") r = std::max(x, y); else throw Fail{"int op " + o};
        if (n.ty.sgn && n.ty.bits && wrap(r, n.ty) != r) throw Fail{"signed integer overflow"};
        return VI(r, n.ty); } }
    if (isreal(t)) {
      int f = fmtof(t); Val a = op(F, n.a[0], t); if (a.k != 'r') throw Fail{"real op"};
      if (o == "neg") return VR(X.neg(a.r)); if (o == "abs") return VR(X.fabs_(a.r));
      Val b = op(F, n.a[1], t); if (b.k != 'r') throw Fail{"real op"};
      if (o == "add" || o == "sub" || o == "mul" || o == "div") return VR(X.arith(f, o == "add" ? '+' : o == "sub" ? '-' : o == "mul" ? '*' : '/', a.r, b.r));
      if (o == "min" || o == "max") { bool l = X.decide("lt", a.r, b.r); return l == (o == "min") ? a : b; }
      throw Fail{"real op " + o}; }
    if (iscplx(t)) {
      int f = fmtof(t); Val a = op(F, n.a[0], t); if (a.k == 'r') a = VC(X.mk(a.r, X.constant(f, 0), f)); if (a.k != 'c') throw Fail{"complex op"};
      if (o == "neg") return VC(X.mk(X.neg(a.c->re), X.neg(a.c->im), f)); if (o == "conj") return VC(X.mk(a.c->re, X.neg(a.c->im), f));
      Val b = op(F, n.a[1], t); if (b.k == 'r') b = VC(X.mk(b.r, X.constant(f, 0), f)); if (b.k != 'c') throw Fail{"complex op"};
      if (o == "add") return VC(X.cadd_(f, a.c, b.c, '+')); if (o == "sub") return VC(X.cadd_(f, a.c, b.c, '-')); if (o == "mul") return VC(X.cmul_(f, a.c, b.c)); if (o == "div") return VC(X.cdiv_(f, a.c, b.c));
      throw Fail{"complex op " + o}; }
    throw Fail{"op " + n.text}; }
  Val callins(Frame& F, const Ins& n) {
    if (n.op[0] != '@') { std::vector<Val> as; const Fn& g = P.fns.at(n.op); for (size_t i = 0; i < n.a.size(); ++i) { Ty w = i < g.params.size() ? g.params[i].ty.t : T_UNK; Val v = op(F, n.a[i], w); if (v.k == 'i' && i < g.params.size()) v.ty = g.params[i].ty; as.push_back(v); } return call(n.op, as); }
    std::string s = n.op.substr(1); if (s.rfind("__builtin_", 0) == 0) s = s.substr(10);
    int f = F64; Ty want = T_F64;
    static const std::set<std::string> base = {"log", "log1p", "sqrt", "exp", "exp2", "sin", "cos", "fabs", "hypot", "atan2", "fmod", "pow", "cabs", "carg", "clog", "csqrt", "creal", "cimag", "copysign", "signbit", "tgamma", "conj", "fmin", "fmax", "isnan", "isinf", "floor", "trunc"};
    std::string b = s; if (!base.count(b)) { char c = b.empty() ? 0 : b.back(); std::string q = b.substr(0, b.size() - 1); if ((c == 'f' || c == 'l') && base.count(q)) { b = q; f = c == 'f' ? F32 : F80; want = c == 'f' ? T_F32 : T_F80; } }
    X.libm.insert(s);
    auto A = [&](int i) { Val v = op(F, n.a[i], want); if (v.k != 'r') throw Fail{"libm argument"}; return v.r; };
    auto Cc = [&](int i) { Val v = op(F, n.a[i], f == F32 ? T_C32 : f == F64 ? T_C64 : T_C80); if (v.k == 'r') v = VC(X.mk(v.r, X.constant(f, 0), f)); if (v.k != 'c') throw Fail{"libm argument"}; return v.c; };
    if (b == "log") return VR(X.log_(f, A(0))); if (b == "log1p") return VR(X.log1p_(f, A(0))); if (b == "sqrt") return VR(X.sqrt_(f, A(0))); if (b == "exp") return VR(X.exp_(f, A(0)));
    if (b == "sin") return VR(X.sincos_(f, A(0), false)); if (b == "cos") return VR(X.sincos_(f, A(0), true)); if (b == "fabs") return VR(X.fabs_(A(0)));
    if (b == "hypot" || b == "atan2") { RV* p = A(b == "hypot" ? 0 : 1); RV* q = A(b == "hypot" ? 1 : 0); CV* c = X.mk(p, q, f); return VR(b == "hypot" ? X.hypot_(f, c) : X.arg_(f, c)); }
    if (b == "cabs") return VR(X.hypot_(f, Cc(0))); if (b == "carg") return VR(X.arg_(f, Cc(0))); if (b == "clog") return VC(X.clog_(f, Cc(0)));
    if (b == "creal") return VR(Cc(0)->re); if (b == "cimag") return VR(Cc(0)->im); if (b == "conj") { CV* c = Cc(0); return VC(X.mk(c->re, X.neg(c->im), f)); }
    if (b == "isnan") { RV* a = A(0); if (a->nan) throw Fail{"isnan of possible NaN"}; return VI(0, n.ty); }
    if (b == "fmin" || b == "fmax") { RV *x = A(0), *y = A(1); bool l = X.decide("lt", x, y); return VR(l == (b == "fmin") ? x : y); }
    if (b == "signbit") { RV* a = A(0); if (a->nan) throw Fail{"signbit of NaN"}; if (a->sgn == 0) { if (a->in && X.allow_split) throw Split{0}; bool v = X.choose(); X.setsgn(a, v ? -1 : 1); } return VI(a->sgn < 0, n.ty); }
    if (b == "copysign") { RV *a = A(0), *c = A(1); if (c->sgn == 0) { if (c->in && X.allow_split) throw Split{0}; bool v = X.choose(); X.setsgn(c, v ? -1 : 1); } RV* m = X.fabs_(a); return VR(c->sgn < 0 ? X.neg(m) : m); }
    if (b == "fmod") { RV *x = A(0), *y = A(1);
      if (y->pt() && y->lo > 0 && x->finite()) {
        if (x->lo >= 0 && x->hi < y->lo) return VR(x); if (x->hi <= 0 && x->lo > -y->lo) return VR(x);
        if (X.havoc && x->lo >= y->lo) { if (y->lo != X.havocP) throw Fail{"fmod by a value that is not the rounded 2*pi"}; X.havoc_used = true; return VR(X.havoc); }
        if (x->in && X.allow_split) throw Split{x->in > 0 ? y->lo : -y->lo}; }
      throw Fail{"fmod"}; }
    if (b == "powi" || s == "powidf2") { RV* x = A(0); Val k = op(F, n.a[1]); if (k.k != 'i') throw Fail{"powi"}; return VR(X.powi_(F64, x, (long)k.i)); }
    if (b == "pow") { RV *x = A(0), *y = A(1); if (x->pt() && y->pt()) { Q v = powq(x->lo, y->lo); if (isinfq(v) || isnanq(v) || fabsq(v) > FMAX_[f]) throw Fail{"pow range"}; LD w = (LD)v, e = std::fabs(w)*4*UU[f] + ETA[f]; if (v == (Q)rnd(w, f)) e = 0; return VR(X.fromtm(f, TM::constant(v), e, w - e, w + e)); }
      if (y->pt() && y->lo == std::trunc(y->lo) && std::fabs(y->lo) <= 64) { RV* r = X.powi_(f, x, (long)y->lo); return VR(r); }
      throw Fail{"pow"}; }
    if (b == "exp2") { RV* x = A(0); if (x->pt()) { Q v = powq(2, x->lo); LD w = (LD)v, e = x->lo == std::trunc(x->lo) ? 0 : std::fabs(w)*4*UU[f]; return VR(X.fromtm(f, TM::constant(v), e, w - e, w + e)); } throw Fail{"exp2"}; }
    if (b == "tgamma") { RV* x = A(0); if (x->pt()) { Q v = tgammaq(x->lo); LD w = (LD)v, e = std::fabs(w)*20*UU[f]; return VR(X.fromtm(f, TM::constant(v), e, w - e, w + e)); } throw Fail{"tgamma"}; }
    if (s == "lceil" || s == "lceilf" || s == "lceill" || s == "iceil" || s == "lfloor") { Val v = op(F, n.a[0], T_F64); if (v.k == 'r' && v.r->pt()) return VI((__int128)(s[1] == 'c' ? std::ceil(v.r->lo) : std::floor(v.r->lo)), n.ty); throw Fail{"lceil of symbolic value"}; }
    if (b == "floor" || b == "trunc") { RV* x = A(0); if (x->pt()) return VR(X.constant(f, b == "floor" ? std::floor(x->lo) : std::trunc(x->lo))); LD l = b == "floor" ? std::floor(x->lo) : std::trunc(x->lo), h = b == "floor" ? std::floor(x->hi) : std::trunc(x->hi); if (l == h) return VR(X.constant(f, l)); throw Fail{"floor"}; }
    if (s == "unreachable" || s == "abort") throw Infeasible();
    throw Fail{"call to " + s}; }
};

// (a cmp b) & (c cmp d), both evaluated unconditionally: the second comparison is irrelevant if the first one decides
static void mark_lazy(Prog& P) {
  static const std::set<std::string> cmps = {"eq", "ne", "lt", "le", "gt", "ge", "ult", "ule", "ugt", "uge", "unlt", "unle", "ungt", "unge", "uneq", "ueq", "ltgt"};
  for (auto& pf : P.fns) { Fn& f = pf.second; std::map<int, int> uses; auto use = [&](const Opnd& o) { if (o.k == 'r') uses[o.reg]++; };
    for (auto& pb : f.blocks) { for (auto& p : pb.second.phis) for (auto& x : p.in) use(x.second); for (auto& i : pb.second.ins) { for (auto& o : i.a) use(o); for (const LV* l : {&i.lv, &i.lv2}) { use(l->p); for (auto& x : l->idx) use(x.first); } } use(pb.second.term.a); use(pb.second.term.b); }
    for (auto& pb : f.blocks) { auto& v = pb.second.ins; std::map<int, size_t> def; for (size_t k = 0; k < v.size(); ++k) { Ins& i = v[k];
        if (i.k == 'I' && (i.op == "and" || i.op == "or") && i.ty.t == T_BOOL && i.a.size() == 2 && i.a[0].k == 'r' && i.a[1].k == 'r' && def.count(i.a[0].reg) && def.count(i.a[1].reg)) {
          size_t p = def[i.a[0].reg], q = def[i.a[1].reg]; if (p > q) std::swap(p, q); Ins &c = v[p], &d = v[q]; 
          if (p != q && d.k == 'I' && cmps.count(d.op) && c.k == 'I' && uses[d.dst] == 1) { d.lazy = c.dst; d.lazyv = i.op == "or"; } }
        if (i.dst >= 0) def[i.dst] = k; } } } }

// ---------------------------------------------------------------- problem description
struct Prob {
  std::string irfile, entry, spec; int n = 0; int fmt = F64; bool cplx = false; bool byref = false; std::vector<long long> iargs; bool int_first = false;
  double K = 64; std::vector<KBin> bins; int cal = -1; bool finiteonly = false; int deg1 = 30, deg2 = 22; int threads = 8; double K2 = 0; int hp = 0, zs = 1; // hp: 0 both half planes
  double tlimit = 600; std::string out; double amin = 0, amax = 0; bool haverange = false; int maxdepth = 24; double Kabs = 0; int verbose = 0;
};
struct Box { Q l[4]; int depth = 0; int kind = 0; LD xlo = 0, xhi = 0; int sgn = 1; }; // 2D: a0,a1,th0,th1 ; 1D: xlo,xhi
struct Stats { std::mutex m; long boxes = 0, proved = 0, failed = 0, paths = 0, infeasible = 0, splits = 0, ops = 0; double maxratio = 0; double maxerr = 0, maxmod = 0; std::string worst; std::map<std::string, long> why; std::vector<std::string> fails; std::set<std::string> libm, called; long timeouts = 0; };

static std::string ldstr(LD x) { char b[64]; snprintf(b, sizeof b, "%.21Lg", x); return b; }
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c == '\n' ? ' ' : c; } return r; }

struct Solver {
  Prob pr; Prog P; Stats S; const Fn* F;
  std::vector<Box> q; std::mutex qm; std::condition_variable cv; int active = 0; std::chrono::steady_clock::time_point t0;
  LD eps() const { return 2*UU[pr.fmt]; }
  std::mutex bm;
  void binsof(const Box& b, std::vector<const KBin*>& v) const { LD lo, hi; if (pr.cplx) { lo = (LD)b.l[0]; hi = (LD)b.l[1]; } else { lo = b.xlo; hi = b.xhi; } for (auto& k : pr.bins) if (hi >= k.lo && lo <= k.hi) v.push_back(&k); }
  // accuracy obligation: modelling error and rounding error bounds in units of eps*scale
  std::string judge(const Box& b, LD m, LD e, LD unit, LD tolabs, double& ratio) {
    m = std::max((LD)0, m - tolabs/2); e = std::max((LD)0, e - tolabs/2); double rm = m == 0 ? 0 : (double)(m/unit), re = e == 0 ? 0 : (double)(e/unit); ratio = rm + re;
    std::vector<const KBin*> v; binsof(b, v); if (v.empty()) return rm + re <= pr.K ? "" : "accuracy";
    double km = 0, ke = 0; { std::lock_guard<std::mutex> g(bm); for (auto k : v) { km = std::max(km, k->km); ke = std::max(ke, k->ke); } }
    bool pt = !pr.cplx && b.xlo == b.xhi; if (pt && pr.cal < 0) return rm + re <= km + ke ? "" : "accuracy: value at a single argument outside the tolerance"; if (pt) return "";
    bool fm = !(rm <= km), fe = !(re <= ke);
    if ((fm || fe) && pr.cal >= 0 && b.depth >= pr.cal && std::isfinite(rm) && std::isfinite(re) && rm < 1e12 && re < 1e12) { std::lock_guard<std::mutex> g(bm); for (auto k : v) { auto* q = const_cast<KBin*>(k); if (fm) q->km = std::max(q->km, rm); if (fe) q->ke = std::max(q->ke, re); } return ""; }
    if (fm) return "accuracy: the exact value of the computed expression differs from the specification"; if (fe) return "accuracy: rounding error bound exceeds the tolerance";
    { std::lock_guard<std::mutex> g(bm); for (auto k : v) { if (rm > k->mm) k->mm = rm; if (re > k->me) k->me = re; } }
    return ""; }

  struct Res { bool ok; double ratio; std::string why; std::vector<LD> split; int paths = 0; double err = 0, mod = 0; };

  // run all paths, evaluate the post-condition
  template <class Setup, class Post> Res paths(Ctx& X, Setup setup, Post post) {
    Res R; R.ok = true; R.ratio = 0; X.dec.clear(); 
    for (;;) {
      X.reset(); Machine M(P, X); M.trace = pr.verbose > 2; std::set<std::string> called; M.called = &called;
      std::string w; bool inf = false; double ratio = 0;
      try { std::vector<Val> args = setup(M); Val v = M.call(pr.entry, args); w = post(v, ratio); }
      catch (Infeasible&) { inf = true; } catch (Split& s) { R.ok = false; R.split.push_back(s.c); R.why = "split"; return R; }
      catch (Fail& f) { w = f.s; } catch (Top& t) { w = std::string("unbounded value: ") + t.what(); } catch (TMFail& t) { w = std::string("model: ") + t.what(); }
      { std::lock_guard<std::mutex> g(S.m); S.paths++; if (inf) S.infeasible++; S.ops += X.ops; S.libm.insert(X.libm.begin(), X.libm.end()); S.called.insert(called.begin(), called.end()); } X.ops = 0;
      R.paths++;
      if (!inf) { if (!w.empty()) { R.ok = false; R.why = w; R.ratio = ratio; return R; } R.ratio = std::max(R.ratio, ratio); }
      X.dec.resize(X.dp); while (!X.dec.empty() && X.dec.back() == 1) X.dec.pop_back();
      if (X.dec.empty()) break; X.dec.back() = 1;
      if (R.paths > 400) { R.ok = false; R.why = "too many paths"; return R; }
    }
    return R; }

  std::vector<Val> mkargs(Machine& M, Val z) {
    std::vector<Val> a; 
    for (size_t i = 0; i < F->params.size(); ++i) {
      const Param& p = F->params[i];
      if (p.ty.t == T_INT) { size_t k = 0; for (size_t j = 0; j < i; ++j) if (F->params[j].ty.t == T_INT) ++k; if (k >= pr.iargs.size()) throw Fail{"missing integer argument"}; a.push_back(M.VI(pr.iargs[k], p.ty)); }
      else if (p.ty.t == T_PTR) { Obj o; o.param = true; int sz = z.k == 'c' ? 2*fsz(z.c->fmt) : fsz(z.r->fmt); o.cells[0] = {z, sz}; M.objs.push_back(o); Val v; v.k = 'p'; v.obj = (int)M.objs.size() - 1; a.push_back(v); }
      else a.push_back(z); }
    return a; }

  // ---- 2D
  Res solve2(const Box& b) {
    g_dim = 2; g_deg = pr.deg2; g_thr = pr.fmt == F80 ? 1e-32 : 1e-29;
    Res R; R.ok = false; R.ratio = 0; const int fmt = pr.fmt;
    Chart ch; ch.Lc = {(b.l[0] + b.l[1])/2, (b.l[2] + b.l[3])/2}; ch.ha = (b.l[1] - b.l[0])/2*(1 + (Q)1e-30); ch.hth = (b.l[3] - b.l[2])/2*(1 + (Q)1e-30); ch.hp = ch.Lc.im > 0 ? 1 : -1;
    // far/near extents
    Q d = hypotq(ch.Lc.re, ch.Lc.im); bool tiny = b.kind == 1; // |L| tiny box around z=1
    Ref rf; CTM Z, L; bool wide = ch.ha > (Q)1.2; bool haveZ = false;
    try { 
      if (tiny) { // enclose: Li_n(z) ~ zeta(n) (n>=2) : handled through monotone bounds
        rf.n = pr.n; rf.F.resize(pr.n + 1); LD r = (LD)hypotq(b.l[1], b.l[3] - b.l[2] > 0 ? fmaxq(fabsq(b.l[3]), fabsq(b.l[2])) : 0)*1.0001L;
        // |Li_n(e^L) - zeta(n)| <= r*(8 + |log r|) for |L|<=r<1e-6, n>=2
        if (!(r < 1e-23L)) throw TMFail("tiny box"); LD e = r*(8 + std::fabs(std::log(r))); CTM c; c.re = TM::constant(zetai(pr.n)); c.re.addrem(e); c.im.addrem(e); rf.F[pr.n] = c;
        Z.re.off = 1; Z.re.addrem(r*1.01L); Z.im.addrem(r*1.01L); haveZ = true; L.re = TM(); 
      } else {
        rf = refLi(pr.n, ch); L = chartL(ch);
        if (!wide) { Z = chartZ(ch, d < (Q)1.0 && fabsq(ch.Lc.im) < 1); haveZ = true; } }
    } catch (TMFail& e) { R.why = std::string("reference: ") + e.what(); return R; }
    const CTM& Fn_ = rf.F[pr.n];
    LD amin_ = (LD)b.l[0], amax_ = (LD)b.l[1]; LD zmin = std::exp(amin_)*(1 - 1e-15L), zmax = std::exp(amax_)*(1 + 1e-15L);
    if (amin_ < -11300 || amax_ > 11350) { zmin = std::exp(std::max(amin_, -11354.0L))*(1 - 1e-12L); zmax = amax_ > 11356 ? INFINITY : std::exp(amax_)*(1 + 1e-12L); if (amin_ < -11354) zmin = 0; }
    LD F2 = std::hypot(Fn_.re.inf(), Fn_.im.inf()); 
    { // sharper lower bound of |F| : |F(c)| - variation
      Q fc = hypotq(Fn_.re.cen(), Fn_.im.cen()); Q v = hypotq(ldexpq(Fn_.re.varsum(), Fn_.re.e), ldexpq(Fn_.im.varsum(), Fn_.im.e)); LD x = (LD)(fc - v)*(1 - 1e-18L); if (x > F2) F2 = x; }
    LD base = F2 + std::min((LD)1, zmin); LD unit = eps()*base; LD tolabs = 128*ETA[fmt];
    // sin bounds for wide boxes
    Ctx X; X.allow_fork = true;
    auto setup = [&](Machine& M) {
      RV* x = X.R(); RV* y = X.R(); x->fmt = y->fmt = fmt; x->lo = y->lo = -std::min(zmax, FMAX_[fmt]); x->hi = y->hi = std::min(zmax, FMAX_[fmt]);
      int s = ch.Lc.im > 0 ? 1 : -1;
      if (tiny) s = b.sgn;
      Q ta = fminq(fabsq(b.l[2]), fabsq(b.l[3])), tb = fmaxq(fabsq(b.l[2]), fabsq(b.l[3]));
      if (tb <= PIQ/2) x->lo = 0; if (ta >= PIQ/2 - (Q)1e-28 && ta > 1) x->hi = 0;
      // modulus and angle bounds
      if (!tiny) { LD c1 = (LD)cosq(ta), c2 = (LD)cosq(fminq(tb, PIQ)); LD xl = c2 >= 0 ? zmin*c2 : zmax*c2, xh = c1 >= 0 ? zmax*c1 : zmin*c1; xl -= std::fabs(xl)*1e-17L + zmax*1e-18L; xh += std::fabs(xh)*1e-17L + zmax*1e-18L; x->lo = std::max(x->lo, xl); x->hi = std::min(x->hi, xh);
        LD s1 = (LD)fminq(sinq(ta), sinq(fminq(tb, PIQ))); if (s1 < 0) s1 = 0; LD s2 = (tb >= PIQ/2 && ta <= PIQ/2) ? 1 : (LD)fmaxq(sinq(ta), sinq(fminq(tb, PIQ))); LD sl = tb <= PIQ/2 ? 0 : zmax*1e-30L; LD yl = zmin*s1*(1 - 1e-16L) - sl, yh = std::min(FMAX_[fmt], zmax*s2*(1 + 1e-16L) + sl); if (yl < ETA[fmt]) yl = ETA[fmt]; if (yh < ETA[fmt]*0.999L) throw Infeasible(); if (yh < yl) yh = yl;
        if (s > 0) { y->lo = yl; y->hi = yh; } else { y->lo = -yh; y->hi = -yl; } y->sgn = s; }
      else { if (s > 0) { y->lo = ETA[fmt]; } else { y->hi = -ETA[fmt]; } y->sgn = s; }
      if (haveZ) { x->tm = std::make_shared<TM>(Z.re); y->tm = std::make_shared<TM>(Z.im); LD p, q2; Z.re.bounds(p, q2); x->lo = std::max(x->lo, p); x->hi = std::min(x->hi, q2); Z.im.bounds(p, q2); y->lo = std::max(y->lo, p); y->hi = std::min(y->hi, q2); 
        if (tiny) { x = X.constant(fmt, 1); /* |x - 1| <= 1.01 r < 1e-22: 1 is the only number of the format */ X.rebase(y); } }
      else { X.rebase(x); X.rebase(y); }
      x->hi = std::min(x->hi, FMAX_[fmt]); x->lo = std::max(x->lo, -FMAX_[fmt]); y->hi = std::min(y->hi, FMAX_[fmt]); y->lo = std::max(y->lo, -FMAX_[fmt]);
      if (x->lo > x->hi || y->lo > y->hi) throw Infeasible();
      if (x->lo > 0) x->sgn = 1; if (x->hi < 0) x->sgn = -1;
      CV* z = X.mk(x, y, fmt); if (!wide) z->nerr = tiny ? z->nerr : 0;
      if (!tiny) { z->logst = 1; z->lg = L; if (wide) z->nerr = 0; } else if (tiny) { }
      return mkargs(M, M.VC(z)); };
    auto post = [&](Val v, double& ratio) -> std::string {
      if (v.k != 'c') return "result is not complex"; CV* c = v.c; if (c->re->nan || c->im->nan) return "result may be NaN"; if (c->re->top || c->im->top) return "result may be infinite";
      X.needtm(c->re); X.needtm(c->im);
      TM d1 = tsub(*c->re->tm, Fn_.re), d2 = tsub(*c->im->tm, Fn_.im); LD m = std::hypot(d1.sup(), d2.sup()); LD e = std::min(c->nerr, (LD)std::hypot(c->re->err, c->im->err));
      if (pr.verbose > 1) fprintf(stderr, "post: mod %Lg err %Lg unit %Lg  F=(%g,%g) R=(%g,%g)\n", m, c->nerr, unit, (double)Fn_.re.cen(), (double)Fn_.im.cen(), (double)c->re->tm->cen(), (double)c->im->tm->cen());
      return judge(b, m, e, unit, tolabs, ratio); };
    try { R = paths(X, setup, post); } catch (TMFail& e) { R.ok = false; R.why = std::string("tm: ") + e.what(); } catch (Infeasible&) { R.ok = true; }
    return R; }

  // ---- 1D : real argument (spec "re" : Re Li_n ; spec "cl": Clausen)
  // x in [xlo,xhi] (floats of the format)
  Res solve1(const Box& b) {
    g_dim = 1; g_deg = pr.deg1; g_thr = pr.fmt == F80 ? 1e-32 : 1e-29; const int fmt = pr.fmt;
    Res R; R.ok = false; R.ratio = 0; bool cl = pr.spec == "cl" || pr.spec == "sl", ax = pr.spec == "ax"; bool point = b.xlo == b.xhi; LD lo = b.xlo, hi = b.xhi; // signed
    LD ax0 = std::min(std::fabs(lo), std::fabs(hi)), ax1 = std::max(std::fabs(lo), std::fabs(hi)); int s = hi <= 0 && (lo < 0 || std::signbit(lo)) ? -1 : 1;
    TM Fx, Fim; TM xt; bool near1 = false; 
    bool zero = ax1 == 0; 
    try {
      if (cl) {
        // b.kind 0: in-period; 1: havoc (x beyond the period, y = reduced variable in the box)
        Q c = ((Q)ax0 + (Q)ax1)/2, h = ((Q)ax1 - (Q)ax0)/2*(1 + (Q)1e-30);
        TM t = TM::constant(c); if (h > 0) { TM l; l.deg = 1; l.h.assign(2, 0.0); l.l.assign(2, 0.0); int ex; Q m = frexpq(h, &ex); DD dd = q2dd(m); l.e = ex; l.h[1] = dd.h; l.l[1] = dd.l; l.rem = 1e-31; t = tadd(t, l); }
        xt = t; if (s < 0) xt = tneg(xt);
        int sg = 1; int n = pr.n; bool sl = pr.spec == "sl"; bool useim = sl ? n%2 == 1 : n%2 == 0; if (s < 0 && b.kind == 0 && useim) sg = -1; if (s < 0 && b.kind == 1 && useim) sg = -1;
        if (zero) { // value at 0
          Fx = (useim) ? TM() : n == 1 ? TM() : TM::constant(zetai(n)); }
        else {
          Q cc = c; if (cc > PIQ) cc -= 2*PIQ; Chart ch; ch.Lc = {0, cc}; ch.ha = 0; ch.hth = h; ch.hp = cc > 0 ? 1 : -1;
          Ref rf = refLi(n, ch); Fx = useim ? rf.F[n].im : rf.F[n].re; }
        if (sg < 0) Fx = tneg(Fx);
      } else if (zero) { Fx = TM(); }
      else {
        Chart ch; Q a0 = logq((Q)ax0), a1 = logq((Q)ax1); if (a0 > a1) std::swap(a0, a1); ch.Lc = {(a0 + a1)/2, s > 0 ? (Q)0 : PIQ}; ch.ha = (a1 - a0)/2*(1 + (Q)1e-25) + (point ? (Q)0 : (Q)1e-4900Q); ch.hth = 0; ch.hp = -1;
        if (point) { // one argument: exact
          if (s > 0 && ax0 == 1) { Fx = TM::constant(zetai(pr.n)); } else { ch.ha = 0; Ref rf = refLi(pr.n, ch); Fx = rf.F[pr.n].re; Fim = rf.F[pr.n].im; } }
        else {
          Ref rf = refLi(pr.n, ch); Fx = rf.F[pr.n].re; Fim = rf.F[pr.n].im;
          bool wide = ch.ha > (Q)1.0; near1 = s > 0 && fabsq(ch.Lc.re) < (Q)0.5 ;
          if (!wide) { CTM z = chartZ(ch, near1); xt = z.re; } else throw TMFail("wide"); } }
    } catch (TMFail& e) { R.why = std::string("reference: ") + e.what(); return R; }
    Ctx X; X.allow_split = !point; RV* hv = nullptr; 
    LD Fi; { Fi = std::hypot(Fx.inf(), Fim.inf())*(1 - 1e-17L); } LD base = Fi + std::min((LD)1, ax0); 
    if (cl) base = Fi + std::min((LD)1, std::min(ax0, (LD)1)); 
    if (b.kind == 1) base = Fi + 1;
    if (cl && pr.n == 1 && pr.spec == "cl" && ax1 > 3.2L) { LD d = (LD)(2*PIQ - (Q)ax1); base += 0.01L/d; }
    LD unit = eps()*base, tolabs = (ax ? 128 : 8)*ETA[fmt];
    auto mkx = [&](int sg) { RV* x; if (point) { x = X.constant(fmt, sg*lo); if (zero) x->sgn = std::signbit(lo) ? -1 : 1; return x; }
      x = X.R(); x->fmt = fmt; x->lo = lo; x->hi = hi; x->tm = std::make_shared<TM>(xt); x->err = 0; x->sgn = s; x->in = 1; return x; };
    auto setup = [&](Machine& M) { RV* x;
      if (b.kind == 1) { // beyond the period: reduced value y >= 0
        x = X.R(); x->fmt = fmt; LD P = havocP; if (b.sgn > 0) { x->lo = P; x->hi = FMAX_[fmt]; } else { x->lo = -FMAX_[fmt]; x->hi = -P; } x->sgn = b.sgn; X.rebase(x);
        RV* y = mkx(1); y->in = 1; X.havoc = y; X.havocP = P; hv = y; X.allow_split = !point; }
      else x = mkx(1);
      if (ax) { RV* y = X.constant(fmt, pr.zs < 0 ? -0.0L : 0.0L); CV* z = X.mk(x, y, fmt); z->nerr = 0; return mkargs(M, M.VC(z)); }
      return mkargs(M, M.VR(x)); };
    auto post = [&](Val v, double& ratio) -> std::string {
      if (ax) {
        if (v.k != 'c') return "result is not complex"; CV* c = v.c; if (c->re->nan || c->im->nan) return "result may be NaN"; if (c->re->top || c->im->top) return "result may be infinite";
        if (hi <= 1 && !(c->im->pt() && c->im->lo == 0)) return "imaginary part is not zero for x <= 1";
        X.needtm(c->re); X.needtm(c->im); LD e2 = supon(tsub(*c->im->tm, Fim), X.tlo, X.thi); LD m = std::hypot(supon(tsub(*c->re->tm, Fx), X.tlo, X.thi), hi <= 1 ? 0 : e2); LD e = std::min(c->nerr, (LD)std::hypot(c->re->err, c->im->err));
        if (pr.verbose > 1) fprintf(stderr, "post: mod %Lg err %Lg unit %Lg F=(%g,%g) R=(%g,%g)\n", m, e, unit, (double)Fx.cen(), (double)Fim.cen(), (double)c->re->tm->cen(), (double)c->im->tm->cen());
        return judge(b, m, e, unit, tolabs, ratio); }
      if (v.k != 'r') return "result is not real"; RV* c = v.r; if (c->nan) return "result may be NaN"; if (zero && cl && pr.n == 1 && pr.spec == "cl") return c->lo == INFINITY ? "" : "result is not +infinity at the logarithmic singularity"; if (c->top) return "result may be infinite"; X.needtm(c);
      TM f = Fx; if (b.kind == 1 && b.sgn < 0) { bool useim = pr.spec == "sl" ? pr.n%2 == 1 : pr.n%2 == 0; if (useim) f = tneg(f); }
      TM d1 = tsub(*c->tm, f); LD m = supon(d1, X.tlo, X.thi);
      if (pr.verbose > 1) fprintf(stderr, "post: mod %Lg err %Lg unit %Lg F=%g R=%g\n", m, c->err, unit, (double)f.cen(), (double)c->tm->cen());
      if (pr.verbose > 3) for (const TM* t : {(const TM*)&f, (const TM*)c->tm.get()}) { fprintf(stderr, "  TM e=%d deg=%d off=%g rem=%g :", t->e, t->deg, t->off, t->rem); for (int k = 0; k <= t->deg; ++k) fprintf(stderr, " %.20g+%.3g", t->h[k], t->l[k]); fprintf(stderr, "\n"); }
      return judge(b, m, c->err, unit, tolabs, ratio); };
    try { R = paths(X, setup, post); } catch (TMFail& e) { R.ok = false; R.why = std::string("tm: ") + e.what(); } catch (Infeasible&) { R.ok = true; }
    (void)hv; return R; }
  LD havocP = 0;

  // ---- splitting
  static LD fmid(LD a, LD b, int fmt, const std::vector<LD>& sing) { // a<b floats, a split point strictly adapted to singular points
    // pick nearest singular point outside (a,b)
    LD s = 0, best = INFINITY; for (LD q : sing) { LD d = std::min(std::fabs(a - q), std::fabs(b - q)); if (d < best) { best = d; s = q; } }
    LD da = a - s, db = b - s; LD m;
    if (da > 0 && db/da > 3) m = s + std::sqrt(da)*std::sqrt(db); else if (db < 0 && da/db > 3) m = s - std::sqrt(-da)*std::sqrt(-db);
    else if (da == 0) { LD lo = nxt(a, fmt) - s; if (lo <= 0) lo = ETA[F80]; m = s + (lo < db/4 ? std::sqrt(lo)*std::sqrt(db) : db/2); } else if (db == 0) { LD lo = s - prv(b, fmt); if (lo <= 0) lo = ETA[F80]; m = s - (lo < -da/4 ? std::sqrt(lo)*std::sqrt(-da) : -da/2); }
    else m = a + (b - a)/2;
    m = rnd(m, fmt); if (m <= a) m = nxt(a, fmt); if (m >= b) m = prv(b, fmt); return m; }
  std::vector<LD> sing;

  void push(std::vector<Box>& v) { std::lock_guard<std::mutex> g(qm); for (auto& b : v) q.push_back(b); cv.notify_all(); }
  std::string boxstr(const Box& b) {
    char s[400]; bool two = pr.cplx; if (two) snprintf(s, sizeof s, "{\"a\":[%s,%s],\"th\":[%s,%s],\"kind\":%d}", ldstr((LD)b.l[0]).c_str(), ldstr((LD)b.l[1]).c_str(), ldstr((LD)b.l[2]).c_str(), ldstr((LD)b.l[3]).c_str(), b.kind);
    else snprintf(s, sizeof s, "{\"x\":[\"%s\",\"%s\"],\"xa\":[\"%La\",\"%La\"],\"kind\":%d,\"sgn\":%d}", ldstr(b.xlo).c_str(), ldstr(b.xhi).c_str(), b.xlo, b.xhi, b.kind, b.sgn);
    return s; }
  void fail(const Box& b, const Res& r) { std::lock_guard<std::mutex> g(S.m); S.failed++; S.why[r.why]++; if (S.fails.size() < 200) S.fails.push_back("{\"box\":" + boxstr(b) + ",\"why\":\"" + jesc(r.why) + "\",\"ratio\":" + (std::isfinite(r.ratio) ? std::to_string(r.ratio) : "1e99") + "}"); }
  void ok(const Box& b, const Res& r) { std::lock_guard<std::mutex> g(S.m); S.proved++; if (r.ratio > S.maxratio) { S.maxratio = r.ratio; S.worst = boxstr(b); } }
  void work() {
    for (;;) {
      Box b; { std::unique_lock<std::mutex> lk(qm); while (q.empty() && active > 0) cv.wait(lk); if (q.empty()) { cv.notify_all(); return; } b = q.back(); q.pop_back(); ++active; }
      { std::lock_guard<std::mutex> g(S.m); S.boxes++; }
      bool late = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > pr.tlimit;
      if (late) { Res r; r.why = "time limit"; r.ratio = 0; fail(b, r); { std::lock_guard<std::mutex> g(S.m); S.timeouts++; } }
      else { Res r; try { r = pr.cplx ? solve2(b) : solve1(b); } catch (std::exception& e) { r.ok = false; r.why = e.what(); r.ratio = 0; }
        if (pr.verbose) fprintf(stderr, "box %s depth %d -> %d %s ratio %g\n", boxstr(b).c_str(), b.depth, r.ok, r.why.c_str(), r.ratio);
        if (r.ok) ok(b, r); else { std::vector<Box> nv; if (split(b, r, nv)) { { std::lock_guard<std::mutex> g(S.m); S.splits++; } push(nv); } else fail(b, r); } }
      { std::unique_lock<std::mutex> lk(qm); --active; cv.notify_all(); }
    } }
  bool split(const Box& b, const Res& r, std::vector<Box>& nv) {
    if (r.why.rfind("unsupported", 0) == 0 || r.why.rfind("call to", 0) == 0 || r.why.rfind("unknown", 0) == 0 || r.why.rfind("store to", 0) == 0) return false;
    if (!pr.cplx) {
      if (b.xlo == b.xhi) return false;
      if (!r.split.empty()) { LD c = r.split[0]; c = rnd(c, pr.fmt); if (c >= b.xlo && c <= b.xhi) { 
          // {lo..prev(c)}, {c}, {next(c)..hi}
          auto add = [&](LD a, LD d) { if (a <= d) { Box t = b; t.xlo = a; t.xhi = d; t.depth = b.depth; nv.push_back(t); } };
          add(b.xlo, prv(c, pr.fmt)); add(c, c); add(nxt(c, pr.fmt), b.xhi); return true; } 
        }
      if (b.depth >= pr.maxdepth) return false;
      LD m = fmid(b.xlo, b.xhi, pr.fmt, sing); Box t = b; t.depth++; t.xhi = m; if (t.xlo < t.xhi || t.xlo == b.xlo) nv.push_back(t); t = b; t.depth++; t.xlo = nxt(m, pr.fmt); if (t.xlo <= t.xhi) nv.push_back(t);
      return true; }
    if (b.kind == 1) return false;
    if (b.depth >= pr.maxdepth) return false;
    Q wa = b.l[1] - b.l[0], wt = b.l[3] - b.l[2];
    // distance from the singular point L=0
    Q dx = b.l[0] > 0 ? b.l[0] : b.l[1] < 0 ? -b.l[1] : 0; Q dy = b.l[2] > 0 ? b.l[2] : b.l[3] < 0 ? -b.l[3] : 0; Q dist = hypotq(dx, dy);
    bool big = wa > (Q)2;
    bool corner = dist < (Q)1e-28 || (dist <= (Q)1e-26 && wa < (Q)1e-20 && wt < (Q)1e-20);
    auto mk = [&](Q a, Q c, Q t, Q u) { Box x = b; x.l[0] = a; x.l[1] = c; x.l[2] = t; x.l[3] = u; x.depth = corner || big ? b.depth : b.depth + 1; nv.push_back(x); };
    if (corner && wa < (Q)1e-26 && wt < (Q)1e-26) { Box x = b; x.kind = 1; x.sgn = b.l[3] > 0 ? 1 : -1; nv.push_back(x); return true; }
    Q ma = (b.l[0] + b.l[1])/2, mt = (b.l[2] + b.l[3])/2;
    if (wa > 2*wt) { mk(b.l[0], ma, b.l[2], b.l[3]); mk(ma, b.l[1], b.l[2], b.l[3]); }
    else if (wt > 2*wa) { mk(b.l[0], b.l[1], b.l[2], mt); mk(b.l[0], b.l[1], mt, b.l[3]); }
    else { mk(b.l[0], ma, b.l[2], mt); mk(ma, b.l[1], b.l[2], mt); mk(b.l[0], ma, mt, b.l[3]); mk(ma, b.l[1], mt, b.l[3]); }
    return true; }

  void run() {
    t0 = std::chrono::steady_clock::now();
    F = &P.fns.at(pr.entry);
    const int fmt = pr.fmt;
    if (q.empty()) {
    if (pr.cplx) {
      Q amin = logq((Q)ETA[fmt]) - (Q)0.01, amax = logq((Q)FMAX_[fmt]) + (fmt == F80 ? (Q)-0.7 : (Q)0.3466); // |z| up to sqrt2*max (f80: up to max/2, the quad range ends there)
      auto cols = [&](int s) {
        auto add = [&](Q a, Q b2, int nt) { for (int i = 0; i < nt; ++i) { Box x; x.l[0] = a; x.l[1] = b2; Q t0_ = PIQ*i/nt, t1 = PIQ*(i + 1)/nt; Q te = fmt == F32 ? (Q)1e-33 : fmt == F64 ? (Q)1e-300 : (Q)1e-4900Q; if (i == 0) { Box e = x; e.kind = 2; e.l[2] = s > 0 ? (Q)0 : -te; e.l[3] = s > 0 ? te : (Q)0; e.sgn = s; q.push_back(e); t0_ = te; }
          x.l[2] = s > 0 ? t0_ : -t1; x.l[3] = s > 0 ? t1 : -t0_; x.sgn = s; q.push_back(x); } };
        Q a = -PIQ/4; // towards 0
        int k = 0; while (a > amin) { Q w = PIQ/4; if (a < -60) w = (Q)1.2; Q b2 = a - w; if (b2 < amin) b2 = amin; add(b2, a, 4); a = b2; ++k; }
        add(-PIQ/4, 0, 4); add(0, PIQ/4, 4);
        a = PIQ/4; while (a < amax) { Q w = PIQ/4; if (a > 90) w = (a - 60)/3; Q b2 = a + w; if (b2 > amax) b2 = amax; add(a, b2, 4); a = b2; } };
      if (pr.hp >= 0) cols(1); if (pr.hp <= 0) cols(-1);
    } else if (pr.spec == "re" || pr.spec == "ax") {
      sing = {0, 1, -1};
      for (int s : {1, -1}) {
        auto add = [&](LD a, LD b) { if (a > b) return; Box x; x.sgn = s; if (s > 0) { x.xlo = a; x.xhi = b; } else { x.xlo = -b; x.xhi = -a; } q.push_back(x); };
        Box z; z.xlo = z.xhi = s > 0 ? 0.0L : -0.0L; z.sgn = s; q.push_back(z);
        LD a = ETA[fmt]; while (a < 0.5L) { LD f = a < 1e-25L ? 4 : 1.5L; LD b = rnd(a*f, fmt); if (b <= nxt(a, fmt)) b = nxt(nxt(a, fmt), fmt); if (b > 0.5L) b = 0.5L; add(a, prv(b, fmt)); a = b; }
        add(0.5L, prv(1, fmt)); add(1, 1); add(nxt(1, fmt), prv(2, fmt));
        a = 2; while (a < FMAX_[fmt]) { LD b = a > FMAX_[fmt]/5 ? FMAX_[fmt] : rnd(a*(a > 1e25L ? 4 : 1.5L), fmt); if (b == FMAX_[fmt]) { add(a, b); break; } add(a, prv(b, fmt)); a = b; } }
    } else { // clausen
      LD P2 = rnd(6.283185307179586476925286766559L, fmt); if (havocP == 0) havocP = P2; 
      sing = {0, P2, -P2};
      for (int kind : {0, 1}) for (int s : {1, -1}) {
        auto add = [&](LD a, LD b) { if (a > b) return; Box x; x.kind = kind; x.sgn = s; if (s > 0 || kind == 1) { x.xlo = a; x.xhi = b; } else { x.xlo = -b; x.xhi = -a; } q.push_back(x); };
        add(0, 0);
        LD a = ETA[fmt]; while (a < 1) { LD b = rnd(a*(kind == 1 && a < 1e-10L ? 4 : 1.5L), fmt); if (b <= nxt(a, fmt)) b = nxt(nxt(a, fmt), fmt); if (b > 1) b = 1; add(a, prv(b, fmt)); a = b; }
        for (int i = 0; i < 20; ++i) { LD lo = rnd(1 + (P2 - 1)*i/20, fmt), hi = i == 19 ? prv(P2, fmt) : prv(rnd(1 + (P2 - 1)*(i + 1)/20, fmt), fmt); add(lo, hi); } }
    } }
    std::vector<std::thread> th; for (int i = 0; i < pr.threads; ++i) th.emplace_back([this] { work(); }); for (auto& t : th) t.join();
  }
  void report(std::ostream& o) {
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    o << "{\"entry\":\"" << jesc(pr.entry) << "\",\"spec\":\"" << pr.spec << "\",\"n\":" << pr.n << ",\"K\":" << pr.K << ",\"boxes\":" << S.boxes << ",\"proved\":" << S.proved << ",\"failed\":" << S.failed << ",\"splits\":" << S.splits << ",\"paths\":" << S.paths << ",\"infeasible\":" << S.infeasible << ",\"ops\":" << S.ops << ",\"maxratio\":" << S.maxratio << ",\"worst\":" << (S.worst.empty() ? "null" : S.worst) << ",\"seconds\":" << el << ",\"timeouts\":" << S.timeouts << ",\"why\":{";
    bool f = true; for (auto& w : S.why) { o << (f ? "" : ",") << "\"" << jesc(w.first) << "\":" << w.second; f = false; } o << "},\"libm\":["; f = true; for (auto& w : S.libm) { o << (f ? "" : ",") << "\"" << w << "\""; f = false; } o << "],\"functions\":["; f = true; for (auto& w : S.called) { o << (f ? "" : ",") << "\"" << jesc(w) << "\""; f = false; }
    o << "],\"bins\":["; f = true; for (auto& k : pr.bins) { char z[300]; snprintf(z, sizeof z, "%s{\"lo\":\"%Lg\",\"hi\":\"%Lg\",\"km\":%g,\"ke\":%g,\"mm\":%g,\"me\":%g}", f ? "" : ",", k.lo, k.hi, k.km, k.ke, k.mm, k.me); o << z; f = false; }
    o << "],\"fails\":["; f = true; for (auto& w : S.fails) { o << (f ? "" : ",") << w; f = false; } o << "]}\n"; }
};

int main(int argc, char** argv) {
  Solver s; Prob& p = s.pr; std::string box;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-ir") p.irfile = nx(); else if (a == "-entry") p.entry = nx(); else if (a == "-spec") p.spec = nx(); else if (a == "-n") p.n = atoi(nx().c_str()); else if (a == "-fmt") { std::string f = nx(); p.fmt = f == "f32" ? F32 : f == "f64" ? F64 : F80; }
    else if (a == "-K") p.K = atof(nx().c_str()); else if (a == "-deg1") p.deg1 = atoi(nx().c_str()); else if (a == "-deg2") p.deg2 = atoi(nx().c_str()); else if (a == "-j") p.threads = atoi(nx().c_str()); else if (a == "-iarg") p.iargs.push_back(atoll(nx().c_str())); else if (a == "-t") p.tlimit = atof(nx().c_str()); else if (a == "-zs") p.zs = atoi(nx().c_str()); else if (a == "-hp") p.hp = atoi(nx().c_str()); else if (a == "-depth") p.maxdepth = atoi(nx().c_str()); else if (a == "-v") p.verbose = atoi(nx().c_str()); else if (a == "-cal") { p.cal = atoi(nx().c_str()); } else if (a == "-KB") { std::string t = nx(); std::istringstream is(t); std::string w; while (std::getline(is, w, ',')) { KBin k; std::istringstream js(w); std::string q; std::getline(js, q, ':'); k.lo = strtold(q.c_str(), nullptr); std::getline(js, q, ':'); k.hi = strtold(q.c_str(), nullptr); std::getline(js, q, ':'); k.km = atof(q.c_str()); std::getline(js, q, ':'); k.ke = atof(q.c_str()); p.bins.push_back(k); } }
    else if (a == "-P") s.havocP = strtold(nx().c_str(), nullptr);
    else if (a == "-box") { Box b; b.kind = atoi(nx().c_str()); b.sgn = atoi(nx().c_str()); if (p.cplx || p.spec == "li") { for (int k = 0; k < 4; ++k) b.l[k] = strtoflt128(nx().c_str(), nullptr); } else { b.xlo = strtold(nx().c_str(), nullptr); b.xhi = strtold(nx().c_str(), nullptr); } s.q.push_back(b); }
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; } }
  p.cplx = p.spec == "li";
  s.P = load_ir(p.irfile); mark_lazy(s.P); if (!s.P.fns.count(p.entry)) { fprintf(stderr, "no entry %s\n", p.entry.c_str()); return 3; }
  s.run(); s.report(std::cout); return 0; }
