#include "expr.h"
std::vector<VarInfo> gVars;
static std::vector<Expr *> gTab(1 << 16, nullptr);
static size_t gCnt = 0;
static std::vector<char *> gChunks; static size_t gOff = 0; static const size_t CHUNK = 1 << 20;
static Expr *allocE() {
  if (gChunks.empty() || gOff + sizeof(Expr) > CHUNK) { gChunks.push_back((char *)aligned_alloc(64, CHUNK)); gOff = 0; }
  Expr *e = (Expr *)(gChunks.back() + gOff); gOff += (sizeof(Expr) + 15) & ~15; return e;
}
size_t exprCount() { return gCnt; }

// var sets, interned by content
struct VSHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
static std::unordered_map<std::vector<uint32_t>, VarSet *, VSHash> gVS;
static const VarSet *internVS(std::vector<uint32_t> v) {
  auto it = gVS.find(v); if (it != gVS.end()) return it->second;
  VarSet *s = new VarSet{v}; gVS.emplace(std::move(v), s); return s;
}
static const VarSet *unionVS(const VarSet *a, const VarSet *b) {
  if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
  std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  if (r.size() == a->v.size()) return a; if (r.size() == b->v.size()) return b;
  return internVS(std::move(r));
}
static Expr *mk(Op op, unsigned w, int nk, Expr *a, Expr *b, Expr *c, uint32_t imm, u128 cv) {
  uint64_t h = op * 0x9E3779B97F4A7C15ULL + w * 0x85EBCA6B + imm * 0xC2B2AE35ULL;
  Expr *ks[3] = {a, b, c};
  for (int i = 0; i < nk; i++) { h ^= ks[i]->id + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; }
  h ^= (uint64_t)cv * 0xff51afd7ed558ccdULL; h ^= (uint64_t)(cv >> 64) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29;
  size_t m = gTab.size() - 1; size_t i = h & m;
  while (gTab[i]) {
    Expr *e = gTab[i];
    if (e->h == (uint32_t)h && e->op == op && e->w == w && e->imm == imm && e->c == cv && e->nk == nk) {
      bool ok = true; for (int j = 0; j < nk; j++) if (e->k[j] != ks[j]) ok = false;
      if (ok) return e;
    }
    i = (i + 1) & m;
  }
  Expr *e = allocE(); e->op = op; e->nk = nk; e->w = w; e->id = (uint32_t)gCnt++; e->imm = imm; e->h = (uint32_t)h;
  e->k[0] = a; e->k[1] = b; e->k[2] = c; e->c = cv; e->evalEpoch = 0;
  static const VarSet *empty = internVS({});
  const VarSet *vs = empty;
  if (op == OP_VAR) vs = internVS({imm});
  else for (int j = 0; j < nk; j++) vs = unionVS(vs, ks[j]->vars);
  e->vars = vs;
  gTab[i] = e;
  if (gCnt * 2 > gTab.size()) {
    std::vector<Expr *> nt(gTab.size() * 2, nullptr); size_t nm = nt.size() - 1;
    // hash stored only 32 bits: re-insert using stored low bits
    for (Expr *x : gTab) if (x) { size_t p = x->h & nm; while (nt[p]) p = (p + 1) & nm; nt[p] = x; }
    gTab.swap(nt);
  }
  return e;
}
Expr *mkConst(u128 v, unsigned w) { return mk(OP_CONST, w, 0, 0, 0, 0, 0, v & maskw(w)); }
Expr *mkVar(const std::string &n, unsigned w) { uint32_t id = gVars.size(); gVars.push_back({n, w}); return mk(OP_VAR, w, 0, 0, 0, 0, id, 0); }

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w); a &= m; b &= m; u128 r = 0;
  switch (op) {
  case OP_ADD: r = a + b; break; case OP_SUB: r = a - b; break; case OP_MUL: r = a * b; break;
  case OP_UDIV: r = b ? a / b : m; break; case OP_UREM: r = b ? a % b : a; break;
  case OP_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); r = y ? (y == -1 ? (u128)0 - (u128)x : (u128)(x / y)) : (x < 0 ? 1 : m); break; }
  case OP_SREM: { i128 x = sextw(a, w), y = sextw(b, w); r = y ? (y == -1 ? 0 : (u128)(x % y)) : a; break; }
  case OP_AND: r = a & b; break; case OP_OR: r = a | b; break; case OP_XOR: r = a ^ b; break;
  case OP_SHL: r = b >= w ? 0 : a << (unsigned)b; break;
  case OP_LSHR: r = b >= w ? 0 : a >> (unsigned)b; break;
  case OP_ASHR: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; r = (u128)(x >> s); break; }
  default: assert(0);
  }
  return r & m;
}
bool foldCmp(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w); a &= m; b &= m;
  switch (op) {
  case OP_EQ: return a == b; case OP_ULT: return a < b; case OP_ULE: return a <= b;
  case OP_SLT: return sextw(a, w) < sextw(b, w); case OP_SLE: return sextw(a, w) <= sextw(b, w);
  default: assert(0);
  }
  return false;
}
static inline bool isC(Expr *e, u128 v) { return e->op == OP_CONST && e->c == v; }
static inline bool allOnes(Expr *e) { return e->op == OP_CONST && e->c == maskw(e->w); }

Expr *mkNot(Expr *a) {
  if (a->op == OP_CONST) return mkConst(~a->c, a->w);
  if (a->op == OP_NOT) return a->k[0];
  if (a->w == 1) {
    if (a->op == OP_ULT) return mkCmp(OP_ULE, a->k[1], a->k[0]);
    if (a->op == OP_ULE) return mkCmp(OP_ULT, a->k[1], a->k[0]);
    if (a->op == OP_SLT) return mkCmp(OP_SLE, a->k[1], a->k[0]);
    if (a->op == OP_SLE) return mkCmp(OP_SLT, a->k[1], a->k[0]);
  }
  return mk(OP_NOT, a->w, 1, a, 0, 0, 0, 0);
}
Expr *mkBin(Op op, Expr *a, Expr *b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a->op == OP_CONST && b->op == OP_CONST) return mkConst(foldBin(op, a->c, b->c, w), w);
  bool comm = op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR;
  if (comm && a->op == OP_CONST) std::swap(a, b);
  if (comm && b->op != OP_CONST && a->id > b->id) std::swap(a, b);
  switch (op) {
  case OP_ADD:
    if (isC(b, 0)) return a;
    if (b->op == OP_CONST && a->op == OP_ADD && a->k[1]->op == OP_CONST) return mkBin(OP_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
    if (w == 1) return mkBin(OP_XOR, a, b);
    break;
  case OP_SUB:
    if (a == b) return mkConst(0, w);
    if (b->op == OP_CONST) return mkBin(OP_ADD, a, mkConst((u128)0 - b->c, w));
    break;
  case OP_MUL:
    if (isC(b, 0)) return b; if (isC(b, 1)) return a;
    if (b->op == OP_CONST && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(OP_SHL, a, mkConst(s, w)); }
    break;
  case OP_UDIV: if (isC(b, 1)) return a;
    if (b->op == OP_CONST && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(OP_LSHR, a, mkConst(s, w)); }
    break;
  case OP_UREM:
    if (b->op == OP_CONST && b->c && (b->c & (b->c - 1)) == 0) return mkBin(OP_AND, a, mkConst(b->c - 1, w));
    break;
  case OP_AND:
    if (a == b) return a; if (isC(b, 0)) return b; if (allOnes(b)) return a;
    if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
    if (b->op == OP_CONST) {
      // low mask -> zext(extract)
      u128 m = b->c; unsigned n = 0; while (n < w && ((m >> n) & 1)) n++;
      if (m == maskw(n) && n > 0) return mkZExt(mkExtract(a, 0, n), w);
      if (a->op == OP_AND && a->k[1]->op == OP_CONST) return mkBin(OP_AND, a->k[0], mkConst(a->k[1]->c & m, w));
      if (a->op == OP_ZEXT) { unsigned iw = a->k[0]->w; if (m <= maskw(128) ) { Expr *in = mkBin(OP_AND, a->k[0], mkConst(m & maskw(iw), iw)); return mkZExt(in, w); } }
      if (a->op == OP_ITE && (a->k[1]->op == OP_CONST || a->k[2]->op == OP_CONST)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    }
    break;
  case OP_OR:
    if (a == b) return a; if (isC(b, 0)) return a; if (allOnes(b)) return b;
    if (w == 1) { if (a == mkNot(b)) return mkConst(1, 1); }
    // disjoint zext|shl patterns -> concat
    {
      auto tryc = [&](Expr *lo, Expr *hi) -> Expr * {
        // lo = zext(x, xw) ; hi = concat(y, 0[n]) with n >= xw
        if (lo->op != OP_ZEXT) return nullptr; unsigned xw = lo->k[0]->w;
        if (hi->op == OP_CONCAT && isC(hi->k[1], 0) && hi->k[1]->w >= xw)
          return mkConcat(hi->k[0], mkZExt(lo->k[0], hi->k[1]->w));
        return nullptr;
      };
      if (Expr *r = tryc(a, b)) return r; if (Expr *r = tryc(b, a)) return r;
    }
    if (b->op == OP_CONST && a->op == OP_ITE && (a->k[1]->op == OP_CONST || a->k[2]->op == OP_CONST)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    break;
  case OP_XOR:
    if (a == b) return mkConst(0, w); if (isC(b, 0)) return a; if (allOnes(b)) return mkNot(a);
    break;
  case OP_SHL:
    if (isC(b, 0)) return a;
    if (b->op == OP_CONST) { if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
    break;
  case OP_LSHR:
    if (isC(b, 0)) return a;
    if (b->op == OP_CONST) { if (b->c >= w) return mkConst(0, w); unsigned s = (unsigned)b->c; return mkZExt(mkExtract(a, s, w - s), w); }
    break;
  case OP_ASHR:
    if (isC(b, 0)) return a;
    if (b->op == OP_CONST) { unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return mkSExt(mkExtract(a, s, w - s), w); }
    break;
  default: break;
  }
  return mk(op, w, 2, a, b, 0, 0, 0);
}
Expr *mkCmp(Op op, Expr *a, Expr *b) {
  assert(a->w == b->w); unsigned w = a->w;
  if (a->op == OP_CONST && b->op == OP_CONST) return mkConst(foldCmp(op, a->c, b->c, w), 1);
  if (a == b) return mkConst(op == OP_EQ || op == OP_ULE || op == OP_SLE, 1);
  if (op == OP_EQ) {
    if (a->op == OP_CONST) std::swap(a, b);
    if (b->op != OP_CONST && a->id > b->id) std::swap(a, b);
    if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return mkNot(a); }
    if (b->op == OP_CONST) {
      if (a->op == OP_ZEXT) { unsigned iw = a->k[0]->w; if (b->c >> iw) return mkConst(0, 1); return mkCmp(OP_EQ, a->k[0], mkConst(b->c, iw)); }
      if (a->op == OP_SEXT) { unsigned iw = a->k[0]->w; u128 t = b->c & maskw(iw); if (((u128)sextw(t, iw) & maskw(w)) != b->c) return mkConst(0, 1); return mkCmp(OP_EQ, a->k[0], mkConst(t, iw)); }
      if (a->op == OP_ITE && (a->k[1]->op == OP_CONST || a->k[2]->op == OP_CONST || a->k[1]->op == OP_ITE || a->k[2]->op == OP_ITE))
        return mkIte(a->k[0], mkCmp(OP_EQ, a->k[1], b), mkCmp(OP_EQ, a->k[2], b));
      if (a->op == OP_ADD && a->k[1]->op == OP_CONST) return mkCmp(OP_EQ, a->k[0], mkConst(b->c - a->k[1]->c, w));
      if (a->op == OP_XOR && a->k[1]->op == OP_CONST) return mkCmp(OP_EQ, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
      if (a->op == OP_XOR && b->c == 0) return mkCmp(OP_EQ, a->k[0], a->k[1]);
      if (a->op == OP_SUB && b->c == 0) return mkCmp(OP_EQ, a->k[0], a->k[1]);
      if (a->op == OP_NOT) return mkCmp(OP_EQ, a->k[0], mkConst(~b->c, w));
      if (a->op == OP_CONCAT) {
        Expr *hi = a->k[0], *lo = a->k[1];
        return mkBin(OP_AND, mkCmp(OP_EQ, hi, mkConst(b->c >> lo->w, hi->w)), mkCmp(OP_EQ, lo, mkConst(b->c & maskw(lo->w), lo->w)));
      }
      if (a->op == OP_OR && b->c == 0) return mkBin(OP_AND, mkCmp(OP_EQ, a->k[0], b), mkCmp(OP_EQ, a->k[1], b));
    } else {
      if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(OP_EQ, a->k[0], b->k[0]);
      if (a->op == OP_CONCAT && b->op == OP_CONCAT && a->k[1]->w == b->k[1]->w)
        return mkBin(OP_AND, mkCmp(OP_EQ, a->k[0], b->k[0]), mkCmp(OP_EQ, a->k[1], b->k[1]));
    }
    if (w == 1) return mkNot(mkBin(OP_XOR, a, b));
  } else if (op == OP_ULT) {
    if (isC(b, 0)) return mkConst(0, 1);
    if (isC(b, 1)) return mkCmp(OP_EQ, a, mkConst(0, w));
    if (isC(a, maskw(w))) return mkConst(0, 1);
    if (isC(a, 0)) return mkNot(mkCmp(OP_EQ, b, mkConst(0, w)));
    if (w == 1) return mkBin(OP_AND, mkNot(a), b);
  } else if (op == OP_ULE) {
    if (isC(a, 0)) return mkConst(1, 1);
    if (isC(b, maskw(w))) return mkConst(1, 1);
    if (isC(b, 0)) return mkCmp(OP_EQ, a, b);
    if (w == 1) return mkBin(OP_OR, mkNot(a), b);
  }
  if (op == OP_ULT || op == OP_ULE) {
    if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
    if (a->op == OP_ZEXT && b->op == OP_CONST) { unsigned iw = a->k[0]->w; if (b->c > maskw(iw)) return mkConst(1, 1); return mkCmp(op, a->k[0], mkConst(b->c, iw)); }
    if (b->op == OP_ZEXT && a->op == OP_CONST) { unsigned iw = b->k[0]->w; if (a->c > maskw(iw)) return mkConst(0, 1); return mkCmp(op, mkConst(a->c, iw), b->k[0]); }
  }
  if (op == OP_SLT || op == OP_SLE) {
    if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op == OP_SLT ? OP_ULT : OP_ULE, a->k[0], b->k[0]);
  }
  if (op != OP_EQ) {
    if (b->op == OP_CONST && a->op == OP_ITE && (a->k[1]->op == OP_CONST || a->k[2]->op == OP_CONST)) return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
    if (a->op == OP_CONST && b->op == OP_ITE && (b->k[1]->op == OP_CONST || b->k[2]->op == OP_CONST)) return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
  }
  return mk(op, 1, 2, a, b, 0, 0, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  assert(c->w == 1 && a->w == b->w);
  if (c->op == OP_CONST) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == OP_NOT) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c; if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkBin(OP_OR, c, b); if (isFalse(a)) return mkBin(OP_AND, mkNot(c), b);
    if (isTrue(b)) return mkBin(OP_OR, mkNot(c), a); if (isFalse(b)) return mkBin(OP_AND, c, a);
    if (a == c) return mkBin(OP_OR, c, b); if (b == c) return mkBin(OP_AND, c, a);
  } else {
    if (isC(a, 1) && isC(b, 0)) return mkZExt(c, a->w);
    if (isC(a, 0) && isC(b, 1)) return mkZExt(mkNot(c), a->w);
  }
  if (a->op == OP_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == OP_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->op == OP_ITE && a->k[2] == b) return mkIte(mkBin(OP_AND, c, a->k[0]), a->k[1], b);
  return mk(OP_ITE, a->w, 3, c, a, b, 0, 0);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w; assert(w <= 128);
  if (hi->op == OP_CONST && lo->op == OP_CONST) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->op == OP_CONST && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->k[0] == lo->k[0] && hi->imm == lo->imm + lo->w) return mkExtract(lo->k[0], lo->imm, w);
  // concat(extract(x,..), concat(extract(x,..), r))
  if (hi->op == OP_EXTRACT && lo->op == OP_CONCAT && lo->k[0]->op == OP_EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->imm == lo->k[0]->imm + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->imm, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->op == OP_EXTRACT && lo == hi->k[0] && hi->imm == lo->w) { }
  if (lo->op == OP_CONCAT && hi->op == OP_CONST && lo->k[0]->op == OP_CONST) return mkConcat(mkConst((hi->c << lo->k[0]->w) | lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
  if (hi->op == OP_CONCAT && lo->op == OP_CONST && hi->k[1]->op == OP_CONST) return mkConcat(hi->k[0], mkConst((hi->k[1]->c << lo->w) | lo->c, hi->k[1]->w + lo->w));
  if (hi->op == OP_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  // byte-wise reassembly of an extended value: hi = extract(zext(x)) handled by mkExtract
  return mk(OP_CONCAT, w, 2, hi, lo, 0, 0, 0);
}
Expr *mkExtract(Expr *a, unsigned off, unsigned w) {
  assert(off + w <= a->w && w > 0);
  if (off == 0 && w == a->w) return a;
  switch (a->op) {
  case OP_CONST: return mkConst(a->c >> off, w);
  case OP_EXTRACT: return mkExtract(a->k[0], a->imm + off, w);
  case OP_CONCAT: {
    unsigned lw = a->k[1]->w;
    if (off >= lw) return mkExtract(a->k[0], off - lw, w);
    if (off + w <= lw) return mkExtract(a->k[1], off, w);
    return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
  }
  case OP_ZEXT: {
    unsigned iw = a->k[0]->w;
    if (off >= iw) return mkConst(0, w);
    if (off + w <= iw) return mkExtract(a->k[0], off, w);
    return mkZExt(mkExtract(a->k[0], off, iw - off), w);
  }
  case OP_SEXT: {
    unsigned iw = a->k[0]->w;
    if (off + w <= iw) return mkExtract(a->k[0], off, w);
    if (off == 0) return mkSExt(a->k[0], w);
    break;
  }
  case OP_ITE:
    if (a->k[1]->op == OP_CONST || a->k[2]->op == OP_CONST || w == 1) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
    break;
  case OP_AND: case OP_OR: case OP_XOR:
    return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
  case OP_NOT: return mkNot(mkExtract(a->k[0], off, w));
  case OP_ADD: case OP_SUB: case OP_MUL:
    if (off == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  default: break;
  }
  return mk(OP_EXTRACT, w, 1, a, 0, 0, off, 0);
}
Expr *mkZExt(Expr *a, unsigned w) {
  if (w == a->w) return a; assert(w > a->w);
  if (a->op == OP_CONST) return mkConst(a->c, w);
  if (a->op == OP_ZEXT) return mkZExt(a->k[0], w);
  if (a->op == OP_ITE && a->k[1]->op == OP_CONST && a->k[2]->op == OP_CONST) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return mk(OP_ZEXT, w, 1, a, 0, 0, 0, 0);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (w == a->w) return a; assert(w > a->w);
  if (a->op == OP_CONST) return mkConst((u128)sextw(a->c, a->w), w);
  if (a->op == OP_SEXT) return mkSExt(a->k[0], w);
  if (a->op == OP_ZEXT) return mkZExt(a->k[0], w);
  if (a->w == 1) return mkIte(a, mkConst(maskw(w), w), mkConst(0, w));
  return mk(OP_SEXT, w, 1, a, 0, 0, 0, 0);
}
static uint32_t gEpoch = 0;
static u128 ev(Expr *e, const Assign &a) {
  if (e->op == OP_CONST) return e->c;
  if (e->evalEpoch == gEpoch) return e->evalVal;
  u128 r = 0;
  switch (e->op) {
  case OP_VAR: r = e->imm < a.size() ? a[e->imm] : 0; r &= maskw(e->w); break;
  case OP_NOT: r = ~ev(e->k[0], a) & maskw(e->w); break;
  case OP_ITE: r = ev(e->k[0], a) ? ev(e->k[1], a) : ev(e->k[2], a); break;
  case OP_CONCAT: r = (ev(e->k[0], a) << e->k[1]->w) | ev(e->k[1], a); break;
  case OP_EXTRACT: r = (ev(e->k[0], a) >> e->imm) & maskw(e->w); break;
  case OP_ZEXT: r = ev(e->k[0], a); break;
  case OP_SEXT: r = (u128)sextw(ev(e->k[0], a), e->k[0]->w) & maskw(e->w); break;
  case OP_EQ: case OP_ULT: case OP_ULE: case OP_SLT: case OP_SLE: r = foldCmp(e->op, ev(e->k[0], a), ev(e->k[1], a), e->k[0]->w); break;
  default: r = foldBin(e->op, ev(e->k[0], a), ev(e->k[1], a), e->w);
  }
  e->evalEpoch = gEpoch; e->evalVal = r; return r;
}
u128 evalExpr(Expr *e, const Assign &a) { gEpoch++; return ev(e, a); }
std::string exprStr(Expr *e, int d) {
  static const char *nm[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "not", "ite", "concat", "extract", "zext", "sext"};
  if (e->op == OP_CONST) return std::to_string((uint64_t)e->c) + ":" + std::to_string(e->w);
  if (e->op == OP_VAR) return gVars[e->imm].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + nm[e->op];
  if (e->op == OP_EXTRACT) s += "@" + std::to_string(e->imm) + ":" + std::to_string(e->w);
  for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
