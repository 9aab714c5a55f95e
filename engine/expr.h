// Hash-consed bit-vector expressions (width 1..128) with construction-time simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <cassert>
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  OP_CONST, OP_VAR,
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM,
  OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR,
  OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE,
  OP_NOT, OP_ITE, OP_CONCAT, OP_EXTRACT, OP_ZEXT, OP_SEXT,
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
  Op op; uint8_t nk; uint16_t w;
  uint32_t id;
  uint32_t imm;      // extract offset / var id
  uint32_t h;
  Expr *k[3];
  u128 c;            // const value
  const VarSet *vars;
  uint32_t evalEpoch; u128 evalVal;
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; unsigned s = 128 - w; return (i128)(v << s) >> s; }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> gVars;

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w);
Expr *mkBin(Op op, Expr *a, Expr *b);     // arithmetic / bitwise, same width
Expr *mkCmp(Op op, Expr *a, Expr *b);     // width-1 result
Expr *mkNot(Expr *a);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
inline bool isConst(const Expr *e) { return e->op == OP_CONST; }
inline bool isTrue(const Expr *e) { return e->op == OP_CONST && e->c == 1 && e->w == 1; }
inline bool isFalse(const Expr *e) { return e->op == OP_CONST && e->c == 0 && e->w == 1; }
size_t exprCount();
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
bool foldCmp(Op op, u128 a, u128 b, unsigned w);

typedef std::vector<uint64_t> Assign;   // var id -> value (missing = 0)
u128 evalExpr(Expr *e, const Assign &a);
std::string exprStr(Expr *e, int depth = 6);
