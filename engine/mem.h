// Paged copy-on-write memory; every byte is either concrete or an 8-bit expression.
#pragma once
#include "expr.h"
#include <stdexcept>
static const unsigned PB = 10, PS = 1u << PB, L2B = 9, L2N = 1u << L2B;
static const uint64_t ADDR_MAX = 0x100000000ULL;            // 4 GB address space
static const uint64_t FN_BASE = 0x10000, GLOB_BASE = 0x1000000, STACK_BASE = 0x3000000, STACK_SZ = 0x200000, HEAP_BASE = 0x6000000;
struct Page { uint32_t rc; uint8_t d[PS]; Expr **s; };
struct L2T { uint32_t rc; Page *p[L2N]; };
inline Page *newPage(const Page *src) {
  Page *p = (Page *)malloc(sizeof(Page)); p->rc = 1;
  if (src) { memcpy(p->d, src->d, PS); if (src->s) { p->s = (Expr **)malloc(sizeof(Expr *) * PS); memcpy(p->s, src->s, sizeof(Expr *) * PS); } else p->s = nullptr; }
  else { memset(p->d, 0, PS); p->s = nullptr; }
  return p;
}
inline void dropPage(Page *p) { if (p && --p->rc == 0) { if (p->s) free(p->s); free(p); } }
struct Mem {
  std::vector<L2T *> l1;
  static Mem *base;
  Mem() {}
  Mem(const Mem &o) : l1(o.l1) { for (auto t : l1) if (t) t->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto t : l1) if (t && --t->rc == 0) { for (auto p : t->p) dropPage(p); free(t); } }
  inline const Page *rd(uint64_t a) const {
    size_t i = a >> (PB + L2B);
    if (i < l1.size() && l1[i]) { Page *p = l1[i]->p[(a >> PB) & (L2N - 1)]; if (p) return p; }
    if (this != base) return base->rd(a);
    return nullptr;
  }
  inline Page *wr(uint64_t a) {
    size_t i = a >> (PB + L2B);
    if (i >= l1.size()) l1.resize(i + 1, nullptr);
    L2T *t = l1[i];
    if (!t) { t = (L2T *)calloc(1, sizeof(L2T)); t->rc = 1; l1[i] = t; }
    else if (t->rc > 1) { L2T *n = (L2T *)malloc(sizeof(L2T)); memcpy(n, t, sizeof(L2T)); n->rc = 1; for (auto p : n->p) if (p) p->rc++; t->rc--; l1[i] = t = n; }
    Page *&p = t->p[(a >> PB) & (L2N - 1)];
    if (!p) p = newPage(this != base ? base->rd(a) : nullptr);
    else if (p->rc > 1) { Page *n = newPage(p); p->rc--; p = n; }
    return p;
  }
  inline uint8_t *wrC(uint64_t a, unsigned n) {   // concrete write window inside one page, or null
    if ((a & (PS - 1)) + n > PS) return nullptr;
    Page *p = wr(a);
    unsigned o = a & (PS - 1);
    if (p->s) for (unsigned i = 0; i < n; i++) p->s[o + i] = nullptr;
    return p->d + o;
  }
  Expr *symAt(uint64_t a) const { const Page *p = rd(a); return p && p->s ? p->s[a & (PS - 1)] : nullptr; }
  uint8_t byteAt(uint64_t a) const { const Page *p = rd(a); return p ? p->d[a & (PS - 1)] : 0; }
  Expr *exprAt(uint64_t a) const { Expr *e = symAt(a); return e ? e : mkConst(byteAt(a), 8); }
  void setByte(uint64_t a, uint8_t v) { Page *p = wr(a); p->d[a & (PS - 1)] = v; if (p->s) p->s[a & (PS - 1)] = nullptr; }
  void setSym(uint64_t a, Expr *e) {
    if (e->op == OP_CONST) return setByte(a, (uint8_t)e->c);
    Page *p = wr(a); if (!p->s) p->s = (Expr **)calloc(PS, sizeof(Expr *)); p->s[a & (PS - 1)] = e;
  }
  bool anySym(uint64_t a, uint64_t n) const {
    while (n) { const Page *p = rd(a); unsigned o = a & (PS - 1); uint64_t k = std::min<uint64_t>(n, PS - o);
      if (p && p->s) for (uint64_t i = 0; i < k; i++) if (p->s[o + i]) return true;
      a += k; n -= k; }
    return false;
  }
  void readC(uint64_t a, uint8_t *out, uint64_t n) const {
    while (n) { const Page *p = rd(a); unsigned o = a & (PS - 1); uint64_t k = std::min<uint64_t>(n, PS - o);
      if (p) memcpy(out, p->d + o, k); else memset(out, 0, k); a += k; out += k; n -= k; }
  }
  void writeC(uint64_t a, const uint8_t *in, uint64_t n) {
    while (n) { unsigned o = a & (PS - 1); uint64_t k = std::min<uint64_t>(n, PS - o); memcpy(wrC(a, k), in, k); a += k; in += k; n -= k; }
  }
  void copy(uint64_t d, uint64_t s, uint64_t n) {
    if (!n || d == s) return;
    if (!anySym(s, n)) {
      uint8_t small[512]; if (n <= sizeof small) { readC(s, small, n); writeC(d, small, n); }
      else { std::vector<uint8_t> b(n); readC(s, b.data(), n); writeC(d, b.data(), n); }
      return;
    }
    std::vector<std::pair<uint8_t, Expr *>> b(n);
    for (uint64_t i = 0; i < n; i++) b[i] = {byteAt(s + i), symAt(s + i)};
    for (uint64_t i = 0; i < n; i++) if (b[i].second) setSym(d + i, b[i].second); else setByte(d + i, b[i].first);
  }
};
