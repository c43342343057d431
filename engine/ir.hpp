// text IR produced by gimple.py
#pragma once
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <unordered_map>
#include <set>
#include <cstdlib>
enum Ty { T_F32, T_F64, T_F80, T_C32, T_C64, T_C80, T_INT, T_BOOL, T_PTR, T_UNK, T_VOID };
struct TyI { Ty t = T_UNK; int bits = 0; bool sgn = false; };
static TyI pty(const std::string& s) {
  TyI r; if (s == "f32") r.t = T_F32; else if (s == "f64") r.t = T_F64; else if (s == "f80") r.t = T_F80; else if (s == "c32") r.t = T_C32; else if (s == "c64") r.t = T_C64; else if (s == "c80") r.t = T_C80;
  else if (s == "bool") { r.t = T_BOOL; r.bits = 1; } else if (s == "ptr") r.t = T_PTR; else if (s == "void") r.t = T_VOID;
  else if (s.size() > 1 && (s[0] == 's' || s[0] == 'u') && isdigit(s[1])) { r.t = T_INT; r.bits = atoi(s.c_str() + 1); r.sgn = s[0] == 's'; }
  return r; }
static inline bool iscplx(Ty t) { return t == T_C32 || t == T_C64 || t == T_C80; }
static inline bool isreal(Ty t) { return t == T_F32 || t == T_F64 || t == T_F80; }
static inline int tysize(const TyI& t) { switch (t.t) { case T_F32: return 4; case T_F64: return 8; case T_F80: return 16; case T_C32: return 8; case T_C64: return 16; case T_C80: return 32; case T_INT: return t.bits/8; case T_BOOL: return 1; case T_PTR: return 8; default: return 0; } }
struct Opnd { char k = 0; long long i = 0; std::string s, s2; long double f = 0, f2 = 0; int reg = -1; std::string var; };
struct LV { char base = 0; std::string name; Opnd p; long long off = 0; std::vector<std::pair<Opnd, long long>> idx; };
struct Ins { char k; std::string op; TyI ty; int dst = -1; std::vector<Opnd> a; LV lv, lv2; long long size = 0; std::string text; int line = 0; int lazy = -1; bool lazyv = false; /* comparison whose value does not matter if register `lazy` has value lazyv */ };
struct Phi { int dst; TyI ty; std::map<int, Opnd> in; };
struct Term { char k = 'u'; std::string op; Opnd a, b; int t = -1, f = -1; std::vector<std::array<long long, 3>> cs; bool has = false; };
struct Block { std::vector<Phi> phis; std::vector<Ins> ins; Term term; };
struct Param { TyI ty; TyI elem; std::string kind, elems; int reg = -1; };
struct Fn { std::string name; std::string ret; std::vector<Param> params; std::map<std::string, std::pair<long long, int>> vars; std::map<int, Block> blocks; int entry = -1; int nreg = 0; };
struct Prog { std::map<std::string, Fn> fns; std::map<std::string, std::vector<unsigned char>> glob; };
static long double pf(const std::string& s) { if (s == "Inf") return INFINITY; if (s == "-Inf") return -INFINITY; if (s.find("an") != std::string::npos) return NAN; return strtold(s.c_str(), nullptr); }
static Opnd popnd(const std::string& w) {
  Opnd o; o.k = w[0]; std::string r = w.substr(2);
  switch (o.k) {
    case 'r': o.reg = atoi(r.c_str()); break;
    case 'i': o.i = (long long)strtoll(r.c_str(), nullptr, 10); if (r.size() > 18 && r[0] != '-') o.i = (long long)strtoull(r.c_str(), nullptr, 10); break;
    case 'f': o.s = r; o.f = pf(r); break;
    case 'c': { size_t c = r.find(','); o.s = r.substr(0, c); o.s2 = r.substr(c + 1); o.f = pf(o.s); o.f2 = pf(o.s2); break; }
    case 'a': { size_t c = r.rfind(','); o.var = r.substr(0, c); o.i = atoll(r.substr(c + 1).c_str()); break; }
  }
  return o; }
static LV plv(std::istringstream& is) {
  LV l; std::string w; is >> w; l.base = w[0]; if (l.base == 'p') l.p = popnd(w.substr(2)); else l.name = w;
  int n; is >> l.off >> n; for (int i = 0; i < n; ++i) { std::string o; long long sc; is >> o >> sc; l.idx.push_back({popnd(o), sc}); }
  return l; }
#include <array>
static Prog load_ir(const std::string& file) {
  Prog P; std::ifstream in(file); std::string line; Fn* f = nullptr; Block* b = nullptr; int bn = -1; int ln = 0;
  while (std::getline(in, line)) { ++ln;
    if (line.empty()) continue; std::istringstream is(line); std::string k, w; is >> k;
    if (k == "F") { std::string n, r; int np; is >> n >> np >> r; f = &P.fns[n]; f->name = n; f->ret = r; }
    else if (k == "P") { Param p; std::string r; is >> p.kind >> p.elems >> r; p.ty = pty(p.kind); p.elem = pty(p.elems); p.reg = r == "-" ? -1 : atoi(r.c_str()); f->params.push_back(p); }
    else if (k == "V") { std::string n; long long sz; int pi; is >> n >> sz >> pi; f->vars["v:" + n] = {sz, pi}; }
    else if (k == "N") is >> f->nreg;
    else if (k == "B") { is >> bn; b = &f->blocks[bn]; if (f->entry < 0) f->entry = bn; }
    else if (k == "H") { Phi p; std::string t; int n; is >> p.dst >> t >> n; p.ty = pty(t); for (int i = 0; i < n; ++i) { int pr; is >> pr >> w; p.in[pr] = popnd(w); } b->phis.push_back(p); }
    else if (k == "I") { Ins i; i.k = 'I'; std::string t; int n; is >> i.op >> t >> i.dst >> n; i.ty = pty(t); for (int j = 0; j < n; ++j) { is >> w; i.a.push_back(popnd(w)); } i.text = line; b->ins.push_back(i); }
    else if (k == "L") { Ins i; i.k = 'L'; std::string t; is >> t >> i.dst; i.ty = pty(t); i.lv = plv(is); i.text = line; b->ins.push_back(i); }
    else if (k == "S") { Ins i; i.k = 'S'; std::string t; is >> t; i.ty = pty(t); i.lv = plv(is); is >> w; i.a.push_back(popnd(w)); i.text = line; b->ins.push_back(i); }
    else if (k == "A") { Ins i; i.k = 'A'; is >> i.dst; i.lv = plv(is); i.text = line; b->ins.push_back(i); }
    else if (k == "Y") { Ins i; i.k = 'Y'; is >> i.size; i.lv = plv(is); i.lv2 = plv(is); i.text = line; b->ins.push_back(i); }
    else if (k == "C") { Ins i; i.k = 'C'; std::string t, d; int n; is >> t >> d >> i.op >> n; i.ty = pty(t); i.dst = d == "-" ? -1 : atoi(d.c_str()); for (int j = 0; j < n; ++j) { is >> w; i.a.push_back(popnd(w)); } i.text = line; b->ins.push_back(i); }
    else if (k == "U") { Ins i; i.k = 'U'; i.text = line; b->ins.push_back(i); }
    else if (k == "T") { Term t; std::string s; is >> s; t.has = true;
      if (s == "goto") { t.k = 'g'; is >> t.t; }
      else if (s == "if") { t.k = 'i'; std::string x, y; is >> t.op >> x >> y >> t.t >> t.f; t.a = popnd(x); t.b = popnd(y); }
      else if (s == "switch") { t.k = 's'; std::string x; int n; is >> x >> n; t.a = popnd(x); for (int j = 0; j < n; ++j) { std::array<long long, 3> c; is >> c[0] >> c[1] >> c[2]; t.cs.push_back(c); } is >> t.f; }
      else if (s == "ret") { t.k = 'r'; is >> w; if (w != "-") t.a = popnd(w); }
      else t.k = 'u';
      b->term = t; }
    else if (k == "G") { std::string n, h; is >> n >> h; std::vector<unsigned char> v; if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) v.push_back((unsigned char)strtol(h.substr(i, 2).c_str(), nullptr, 16)); P.glob["g:" + n] = v; }
  }
  return P; }
