#include <unistd.h>
#include "solver.h"
#include <z3.h>
#include <chrono>
SolverStats gSS; unsigned gSolverTimeoutMs = 60000;
static Z3_context C; static Z3_solver S, S2;
static std::vector<Z3_ast> gMap, gMapB;      // expr id -> bv ast / bool ast
static std::vector<Z3_ast> gVarAst;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C, errh);
  S = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  // chains of comparisons can be slow here: give up early and bit-blast
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), std::min(gSolverTimeoutMs, 150u));
  Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
  S2 = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV")); Z3_solver_inc_ref(C, S2);
  p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gSolverTimeoutMs);
  Z3_solver_set_params(C, S2, p); Z3_params_dec_ref(C, p);
}
static Z3_ast num(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(C, w);
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, s);
  char b[48]; int i = 47; b[i] = 0; u128 x = v; if (!x) b[--i] = '0'; while (x) { b[--i] = '0' + (int)(x % 10); x /= 10; }
  return Z3_mk_numeral(C, b + i, s);
}
static Z3_ast toBV(Expr *e); static Z3_ast toBool(Expr *e);
static Z3_ast toBool(Expr *e) {
  assert(e->w == 1);
  if (e->id < gMapB.size() && gMapB[e->id]) return gMapB[e->id];
  Z3_ast r = 0, ab[2];
  switch (e->op) {
  case OP_CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case OP_NOT: r = Z3_mk_not(C, toBool(e->k[0])); break;
  case OP_AND: ab[0] = toBool(e->k[0]); ab[1] = toBool(e->k[1]); r = Z3_mk_and(C, 2, ab); break;
  case OP_OR: ab[0] = toBool(e->k[0]); ab[1] = toBool(e->k[1]); r = Z3_mk_or(C, 2, ab); break;
  case OP_XOR: r = Z3_mk_xor(C, toBool(e->k[0]), toBool(e->k[1])); break;
  case OP_ITE: r = Z3_mk_ite(C, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
  case OP_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(C, toBool(e->k[0]), toBool(e->k[1])) : Z3_mk_eq(C, toBV(e->k[0]), toBV(e->k[1])); break;
  case OP_ULT: r = Z3_mk_bvult(C, toBV(e->k[0]), toBV(e->k[1])); break;
  case OP_ULE: r = Z3_mk_bvule(C, toBV(e->k[0]), toBV(e->k[1])); break;
  case OP_SLT: r = Z3_mk_bvslt(C, toBV(e->k[0]), toBV(e->k[1])); break;
  case OP_SLE: r = Z3_mk_bvsle(C, toBV(e->k[0]), toBV(e->k[1])); break;
  default: r = Z3_mk_eq(C, toBV(e), num(1, 1));
  }
  Z3_inc_ref(C, r);
  if (gMapB.size() <= e->id) gMapB.resize(std::max<size_t>(e->id + 1, exprCount() * 5 / 4), 0);
  return gMapB[e->id] = r;
}
static Z3_ast toBV(Expr *e) {
  if (e->id < gMap.size() && gMap[e->id]) return gMap[e->id];
  Z3_ast r = 0;
  bool isb = e->w == 1 && (e->op == OP_NOT || e->op == OP_AND || e->op == OP_OR || e->op == OP_XOR || e->op == OP_ITE || (e->op >= OP_EQ && e->op <= OP_SLE));
  if (isb) r = Z3_mk_ite(C, toBool(e), num(1, 1), num(0, 1));
  else switch (e->op) {
  case OP_CONST: r = num(e->c, e->w); break;
  case OP_VAR: { char b[32]; snprintf(b, 32, "v%u", e->imm); r = Z3_mk_const(C, Z3_mk_string_symbol(C, b), Z3_mk_bv_sort(C, e->w));
    if (gVarAst.size() <= e->imm) gVarAst.resize(e->imm + 64, 0); gVarAst[e->imm] = r; break; }
#define B2(OP, F) case OP: r = F(C, toBV(e->k[0]), toBV(e->k[1])); break;
  B2(OP_ADD, Z3_mk_bvadd) B2(OP_SUB, Z3_mk_bvsub) B2(OP_MUL, Z3_mk_bvmul) B2(OP_UDIV, Z3_mk_bvudiv) B2(OP_SDIV, Z3_mk_bvsdiv)
  B2(OP_UREM, Z3_mk_bvurem) B2(OP_SREM, Z3_mk_bvsrem) B2(OP_AND, Z3_mk_bvand) B2(OP_OR, Z3_mk_bvor) B2(OP_XOR, Z3_mk_bvxor)
  B2(OP_SHL, Z3_mk_bvshl) B2(OP_LSHR, Z3_mk_bvlshr) B2(OP_ASHR, Z3_mk_bvashr) B2(OP_CONCAT, Z3_mk_concat)
  case OP_NOT: r = Z3_mk_bvnot(C, toBV(e->k[0])); break;
  case OP_ITE: r = Z3_mk_ite(C, toBool(e->k[0]), toBV(e->k[1]), toBV(e->k[2])); break;
  case OP_EXTRACT: r = Z3_mk_extract(C, e->imm + e->w - 1, e->imm, toBV(e->k[0])); break;
  case OP_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->k[0]->w, toBV(e->k[0])); break;
  case OP_SEXT: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, toBV(e->k[0])); break;
  default: assert(0);
  }
  Z3_inc_ref(C, r);
  if (gMap.size() <= e->id) gMap.resize(std::max<size_t>(e->id + 1, exprCount() * 5 / 4), 0);
  return gMap[e->id] = r;
}
struct KeyHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> gCache;
static std::vector<uint32_t> gMark; static uint32_t gMarkE = 0;

Sat solveSat(const std::vector<Expr *> &pc, Expr *q, const Assign &model, Assign *out) {
  gSS.queries++;
  if (isFalse(q)) return Sat::UNSAT;
  if (evalExpr(q, model)) { gSS.modelHits++; if (out) *out = model; return Sat::SAT; }
  // slice
  gMarkE++; if (gMark.size() < gVars.size()) gMark.resize(gVars.size() + 64, 0);
  for (auto v : q->vars->v) gMark[v] = gMarkE;
  std::vector<Expr *> use; std::vector<Expr *> rest(pc); bool ch = true;
  while (ch && !rest.empty()) {
    ch = false; size_t j = 0;
    for (size_t i = 0; i < rest.size(); i++) {
      bool hit = false; for (auto v : rest[i]->vars->v) if (gMark[v] == gMarkE) { hit = true; break; }
      if (hit) { use.push_back(rest[i]); for (auto v : rest[i]->vars->v) if (gMark[v] != gMarkE) { gMark[v] = gMarkE; ch = true; } }
      else rest[j++] = rest[i];
    }
    rest.resize(j);
  }
  std::vector<uint32_t> key; for (auto e : use) key.push_back(e->id); key.push_back(q->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = gCache.find(key);
  if (it == gCache.end()) {
    init();
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_reset(C, S);
    for (auto e : use) Z3_solver_assert(C, S, toBool(e));
    Z3_solver_assert(C, S, toBool(q));
    Z3_lbool r = Z3_solver_check(C, S); Z3_solver SU = S;
    if (r == Z3_L_UNDEF) { SU = S2; Z3_solver_reset(C, S2); for (auto e : use) Z3_solver_assert(C, S2, toBool(e)); Z3_solver_assert(C, S2, toBool(q)); r = Z3_solver_check(C, S2); }
    CacheEnt ce; ce.r = r == Z3_L_TRUE ? Sat::SAT : r == Z3_L_FALSE ? Sat::UNSAT : Sat::UNKNOWN;
    if (r == Z3_L_TRUE) {
      gSS.sat++;
      Z3_model m = Z3_solver_get_model(C, SU); Z3_model_inc_ref(C, m);
      std::unordered_set<uint32_t> vs; for (auto v : q->vars->v) vs.insert(v); for (auto e : use) for (auto v : e->vars->v) vs.insert(v);
      for (auto v : vs) {
        uint64_t val = 0; Z3_ast o;
        if (v < gVarAst.size() && gVarAst[v] && Z3_model_eval(C, m, gVarAst[v], true, &o)) Z3_get_numeral_uint64(C, o, &val);
        ce.m.push_back({v, val});
      }
      Z3_model_dec_ref(C, m);
    } else if (r == Z3_L_FALSE) gSS.unsat++; else gSS.unknown++;
    if (const char *sl = getenv("SLOWQ")) { double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (d > 0.5) { char fn[200]; snprintf(fn, 200, "%s/q%d_%d_%.0f.smt2", sl, (int)getpid(), (int)gSS.z3calls, d * 1000); FILE *f = fopen(fn, "w"); fputs(Z3_solver_to_string(C, S), f); fputs("(check-sat)\n", f); fclose(f); } }
    gSS.z3calls++; gSS.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    it = gCache.emplace(std::move(key), std::move(ce)).first;
  } else gSS.cacheHits++;
  if (it->second.r == Sat::SAT && out) {
    Assign a = model; for (auto &p : it->second.m) { if (a.size() <= p.first) a.resize(p.first + 1, 0); a[p.first] = p.second; }
    *out = std::move(a);
  }
  return it->second.r;
}
