// Models of the harness interface, of allocation, libc, OS, threads and of the two C compression libraries.
static const uint32_t CMAGIC_LZ4 = 0x345a4c56, CMAGIC_ZSTD = 0x54535a56;   // contract stubs: [magic u32][len u64][raw bytes]
static const uint64_t ZERR = (uint64_t)-70;
static std::map<std::pair<str, unsigned>, Expr *> gVarBy;
static uint32_t obsId(const str &n) { auto it = gObsId.find(n); if (it != gObsId.end()) return it->second; uint32_t i = gObsNames.size(); gObsNames.push_back(n); gObsId[n] = i; return i; }
static Expr *inputVar(State *st, const str &name, unsigned w) {
  str key = name + "#" + std::to_string(st->ins.size()); auto k = std::make_pair(key, w);
  auto it = gVarBy.find(k); Expr *v = it != gVarBy.end() ? it->second : (gVarBy[k] = mkVar(key, w));
  st->ins.push_back({v->imm, name, w}); return v;
}
Ret Exec::builtin(FnInfo *f, Inst &in, const std::vector<Val> &a) {
  f->calls++;
  auto C = [&](size_t i) { return conc(a[i], 64); };
  switch (f->builtin) {
  case BI_UNDEF: end(2, "call to external function without model: " + f->dem);
  // ------------------------------------------------------------------ harness interface
  case B_SYM: { str n = cstr(C(0), C(1)); unsigned w = C(2); Expr *v = inputVar(st, n, w); retv(in, EV(w < 64 ? mkZExt(v, 64) : v)); return advance(in); }
  case B_CHOOSE: {
    str nm = cstr(C(0), C(1)); uint64_t n = C(2); if (n == 0 || n > 100000) end(2, "bad choose");
    if (n == 1) { Expr *v = inputVar(st, nm, 64); addPC(mkCmp(OP_EQ, v, mkConst(0, 64))); if (st->model.size() <= v->imm) st->model.resize(v->imm + 1, 0); st->model[v->imm] = 0; retv(in, CV(0)); return advance(in); }
    Expr *v = inputVar(st, nm, 64); if (st->model.size() <= v->imm) st->model.resize(v->imm + 1, 0);
    State *s0 = st; size_t npc = s0->pc.size(); (void)npc;
    for (uint64_t i = n - 1; i >= 1; i--) {
      SP c = cloneState(); st = c.get(); sync(); st->model[v->imm] = i; st->pc.push_back(mkCmp(OP_EQ, v, mkConst(i, 64))); retv(in, CV(i)); advance(in); st = s0; sync(); WL->push_back(std::move(c));
    }
    st->model[v->imm] = 0; st->pc.push_back(mkCmp(OP_EQ, v, mkConst(0, 64))); retv(in, CV(0)); advance(in);
    while (tryOffload()) {}
    return CONT; }
  case B_ASSUME: {
    Expr *c = mkNot(mkCmp(OP_EQ, toE(a[0], 32), mkConst(0, 32)));
    if (isFalse(c)) end(1, "");
    if (!isTrue(c)) { if (!evalExpr(c, st->model)) { Assign m; if (sat(c, &m) != Sat::SAT) end(1, ""); st->model = std::move(m); } addPC(c); }
    return advance(in); }
  case B_CHECK: {
    Expr *c = mkNot(mkCmp(OP_EQ, toE(a[0], 32), mkConst(0, 32))); str id = cstr(C(1), C(2)); auto &cc = gCheckCnt[id]; cc.first++;
    if (isTrue(c)) return advance(in);
    if (isFalse(c)) { violation("check", id, st->model, ""); end(3, "violated"); }
    cc.second++; Assign m; Expr *nc = mkNot(c);
    if (sat(nc, &m) == Sat::SAT) {
      violation("check", id, m, "");
      if (!evalExpr(c, st->model)) { Assign m2; if (sat(c, &m2) != Sat::SAT) end(3, "violated"); st->model = std::move(m2); }
    }
    addPC(c); return advance(in); }
  case B_OBS: { str n = cstr(C(0), C(1)); st->obs.push_back({obsId(n), a[2]}); return advance(in); }
  case B_REACH: gReach[cstr(C(0), C(1))]++; return advance(in);
  case B_CTX: st->ctx = cstr(C(0), C(1)); return advance(in);
  case B_SCHED: if (st->cur == 0) st->schedOn = C(0) != 0; else st->th[st->cur].region = C(0) != 0; return advance(in);
  case B_LOOPS: retv(in, CV(1)); return advance(in);
  case B_ITER: st->rnd = C(0); return advance(in);
  // ------------------------------------------------------------------ allocation
  case B_ALLOC: retv(in, CV(halloc(C(0), C(1)))); return advance(in);
  case B_ALLOCZ: { uint64_t n = C(0), p = halloc(n, C(1)); hzero(p, n); retv(in, CV(p)); return advance(in); }
  case B_DEALLOC: { uint64_t p = C(0), n = C(1); if (n >= (1 << 20) && p + ((n + 15) & ~15ULL) == st->heap) st->heap = p; return advance(in); }
  case B_REALLOC: { uint64_t p = C(0), on = C(1), al = C(2), nn = C(3); uint64_t q; if (nn <= on) q = p; else { q = halloc(nn, al); st->mem.copy(q, p, on); } retv(in, CV(q)); return advance(in); }
  case B_MALLOC: retv(in, CV(halloc(C(0), 16))); return advance(in);
  case B_CALLOC: { uint64_t n = C(0) * C(1), p = halloc(n, 16); hzero(p, n); retv(in, CV(p)); return advance(in); }
  case B_FREE: return advance(in);
  case B_CREALLOC: { uint64_t p = C(0), nn = C(1), q = halloc(nn, 16); if (p) st->mem.copy(q, p, std::min(nn, hsize(p))); retv(in, CV(q)); return advance(in); }
  case B_MEMALIGN: { uint64_t q = halloc(C(2), C(1)); store(C(0), 64, CV(q)); retv(in, CV(0)); return advance(in); }
  // ------------------------------------------------------------------ memory / strings
  case B_MEMCPY: memcpyV(a[0], a[1], a[2]); retv(in, a[0]); return advance(in);
  case B_MEMSET: memsetV(a[0], a[1].e ? EV(mkExtract(a[1].e, 0, 8)) : CV(a[1].c & 255), a[2]); retv(in, a[0]); return advance(in);
  case B_MEMCMP: case B_BCMP: {
    uint64_t n = C(2), p = C(0), q = C(1); if (n) { chk(p, n); chk(q, n); }
    if (f->builtin == B_MEMCMP) retv(in, n ? memCmp(p, q, n) : CV(0));
    else if (!n) retv(in, CV(0)); else retv(in, EV(mkZExt(mkNot(memEq(p, q, n)), 32)));
    return advance(in); }
  case B_STRLEN: { uint64_t p = C(0), n = 0; while (conc(load(p + n, 8), 8)) n++; retv(in, CV(n)); return advance(in); }
  case B_MEMCHR: case B_MEMRCHR: {
    uint64_t p = C(0), n = C(2); Val c = a[1].e ? EV(mkExtract(a[1].e, 0, 8)) : CV(a[1].c & 255); Val r = CV(0); if (n) chk(p, n);
    if (f->builtin == B_MEMCHR) { for (uint64_t i = n; i-- > 0;) r = sel(cmp(CS_EQ, load(p + i, 8), c, 8), CV(p + i), r, 64); } else for (uint64_t i = 0; i < n; i++) r = sel(cmp(CS_EQ, load(p + i, 8), c, 8), CV(p + i), r, 64);
    retv(in, r); return advance(in); }
  // ------------------------------------------------------------------ panics
  case B_PANICFMT: case B_PANIC: case B_UNWIND: case B_ABORT: {
    str loc;
    if (f->builtin == B_PANICFMT && a.size() >= 2 && !a.back().e) { uint64_t l = a.back().c; try { uint64_t fp = load(l, 64).c, fl = load(l + 8, 64).c; if (fl < 300) loc = cstr(fp, fl) + ":" + std::to_string(load(l + 16, 32).c); } catch (PathEnd &) {} }
    violation("panic", st->ctx.empty() ? "panic" : "panic:" + st->ctx, st->model, f->dem + " " + loc); end(3, "panic"); }
  // ------------------------------------------------------------------ environment
  case B_GETENV: retv(in, CV(0)); return advance(in);
  case B_CLOCK: { uint64_t p = C(1); st->clock += 1000; uint64_t t = 1700000000ULL * 1000000000ULL + st->clock; store(p, 64, CV(t / 1000000000ULL)); store(p + 8, 64, CV(t % 1000000000ULL)); retv(in, CV(0)); return advance(in); }
  case B_ERRNO: { if (!st->errnoAddr) { st->errnoAddr = halloc(16, 16); hzero(st->errnoAddr, 16); } retv(in, CV(st->errnoAddr)); return advance(in); }
  case B_RET0: retv(in, CV(0)); return advance(in);
  case B_RETM1: retv(in, CV(m64(in.ty->isVoidTy() ? 64 : bitw(in.ty)))); return advance(in);
  case B_WRITE: retv(in, a[2]); if (f->name == "writev") { uint64_t v = C(1), n = C(2), t = 0; for (uint64_t i = 0; i < n; i++) t += conc(load(v + 16 * i + 8, 64), 64); retv(in, CV(t)); } return advance(in);
  case B_GETRANDOM: { uint64_t p = C(0), n = C(1); for (uint64_t i = 0; i < n; i++) store(p + i, 8, CV((0x9e + gIterSeed * 77 + st->rnd * 31 + i * 13) & 255)); st->rnd++; retv(in, CV(n)); return advance(in); }
  case B_GETRANDOM + 1000: { uint64_t k = 0x1234567890abcdefULL + (gIterSeed + st->rnd) * 0x9e3779b97f4a7c15ULL; retv(in, CV(k), 0); if (in.n > 1) retv(in, CV(k ^ 0xdeadbeefcafef00dULL), 1); return advance(in); }
  case B_AFFINITY: retv(in, CV(m64(32))); return advance(in);
  case B_SYSCONF: retv(in, CV(C(0) == 30 ? 4096 : 1)); return advance(in);
  case B_NUMCPUS: { // io::Result<NonZeroUsize> returned as {tag, payload} or via sret
    if (in.n == 2) { retv(in, CV(0), 0); retv(in, CV(1), 1); } else if (in.n == 0) { uint64_t p = C(0); store(p, 64, CV(0)); store(p + 8, 64, CV(1)); } else end(2, "available_parallelism ABI"); return advance(in); }
  case B_KEYCREATE: { uint64_t k = ++st->nkeys; store(C(0), 32, CV(k)); retv(in, CV(0)); return advance(in); }
  case B_GETSPEC: { auto &t = st->th[st->cur]; auto it = t.keys.find(C(0)); retv(in, CV(it == t.keys.end() ? 0 : it->second)); return advance(in); }
  case B_SETSPEC: { uint64_t k = C(0), v = C(1); st->th[st->cur].keys[k] = v; retv(in, CV(0)); return advance(in); }
  case B_PTSELF: retv(in, CV(st->th[st->cur].pthread)); return advance(in);
  case B_ATTRGUARD: store(C(1), 64, CV(4096)); retv(in, CV(0)); return advance(in);
  case B_ATTRSTACK: { uint64_t b = STACK_BASE + st->cur * STACK_SZ; store(C(1), 64, CV(b)); store(C(2), 64, CV(STACK_SZ)); retv(in, CV(0)); return advance(in); }
  case B_SLEEP: retv(in, CV(0)); st->clock += 1000000; advance(in); return CONT;
  case B_PRINT: if (gVerbose) fprintf(stderr, "[print]\n"); return advance(in);
  case B_CFGSTR: { if (!st->emptyStr) { st->emptyStr = halloc(16, 16); hzero(st->emptyStr, 16); st->mem.setByte(st->emptyStr, 'e'); } retv(in, CV(st->emptyStr)); return advance(in); }
  // ------------------------------------------------------------------ threads
  case B_PTCREATE: {
    uint64_t out = C(0), fn = C(2), arg = C(3); uint64_t ix = (fn - FN_BASE) / 16; if (ix >= gFnByAddr.size()) end(2, "thread fn");
    if (st->th.size() >= 12) end(2, "too many threads");
    size_t id = st->th.size(); store(out, 64, CV(0x7001 + id)); retv(in, CV(0)); advance(in);
    int me = st->cur; st->th.emplace_back(); Thread &t = st->th.back(); t.sp = STACK_BASE + id * STACK_SZ + 4096; t.pthread = 0x7001 + id;
    FnInfo *g = gFnByAddr[ix]; if (!g->decoded) decodeFn(g);
    st->cur = id; pushFrame(g, {CV(arg)}, -1, 0, -1); st->cur = me; sync();
    return CONT; }
  case B_PTJOIN: {
    uint64_t id = C(0) - 0x7001; if (id >= st->th.size()) end(2, "join");
    if (st->th[id].stat == T_DONE) { retv(in, CV(0)); return advance(in); }
    st->th[st->cur].stat = T_JOIN; st->th[st->cur].waitAddr = id; return block(); }
  case B_SCHEDYIELD: { retv(in, CV(0)); advance(in); yieldPoint(); return CONT; }
  case B_SYSCALL: {
    uint64_t no = C(0);
    if (no == 318) { uint64_t p = C(1), n = C(2); for (uint64_t i = 0; i < n; i++) store(p + i, 8, CV((0x5c + gIterSeed * 77 + st->rnd * 31 + i * 13) & 255)); st->rnd++; retv(in, CV(n)); return advance(in); }
    if (no == 332) { if (!st->errnoAddr) { st->errnoAddr = halloc(16, 16); hzero(st->errnoAddr, 16); } store(st->errnoAddr, 32, CV(38)); retv(in, CV((uint64_t)-1)); return advance(in); }   // statx: not there
    if (no != 202) end(2, "syscall " + std::to_string(no));
    uint64_t addr = C(1), op = C(2) & 127, val = C(3) & 0xffffffff;
    auto errno_ = [&](uint32_t e) { if (!st->errnoAddr) { st->errnoAddr = halloc(16, 16); hzero(st->errnoAddr, 16); } store(st->errnoAddr, 32, CV(e)); };
    if (op == 0 || op == 9) {   // wait / wait_bitset
      if (schedPoint()) return SWITCHED;
      uint64_t cur = conc(load(addr, 32), 32), to = C(4);
      if (cur != val) { errno_(11); retv(in, CV((uint64_t)-1)); return advance(in); }
      Thread &t = st->th[st->cur]; t.waitTimed = to != 0; retv(in, CV(0)); t.timeoutDst = in.dst; advance(in); t.stat = T_FUTEX; t.waitAddr = addr; return block();
    }
    if (op == 1 || op == 10) {  // wake
      uint64_t woke = 0; int n = (int)val; std::vector<int> w; for (size_t i = 0; i < st->th.size(); i++) if (st->th[i].stat == T_FUTEX && st->th[i].waitAddr == addr) w.push_back(i);
      for (int i : w) { if ((int)woke >= n) break; st->th[i].stat = T_RUN; woke++; }   // FIFO wake order
      retv(in, CV(woke)); return advance(in);
    }
    end(2, "futex op " + std::to_string(op)); }
  // ------------------------------------------------------------------ compression libraries (contract stubs)
  case B_LZ4BOUND: { uint64_t n = C(0) & 0xffffffff; retv(in, CV(n > 0x7E000000 ? 0 : (n + n / 255 + 16) & 0xffffffff)); return advance(in); }
  case B_ZBOUND: { uint64_t n = C(0); retv(in, CV(n + (n >> 8) + (n < (128 << 10) ? ((128 << 10) - n) >> 11 : 0))); return advance(in); }
  case B_LZ4COMP: case B_LZ4COMPHC: { // (src,dst,srcSize,dstCap[,..]) -> int
    uint64_t s = C(0), d = C(1), n = C(2) & 0xffffffff, cap = C(3) & 0xffffffff; if (n + 12 > cap) { retv(in, CV(0)); return advance(in); }
    store(d, 32, CV(CMAGIC_LZ4)); store(d + 4, 64, CV(n)); if (n) { chk(s, n); chk(d + 12, n); st->mem.copy(d + 12, s, n); } retv(in, CV(n + 12)); return advance(in); }
  case B_LZ4DEC: { // (src,dst,compressedSize,dstCap) -> int
    uint64_t s = C(0), d = C(1), cn = C(2) & 0xffffffff, cap = C(3) & 0xffffffff; auto bad = [&] { retv(in, CV(0xffffffff)); return advance(in); };
    if (cn < 12 || conc(load(s, 32), 32) != CMAGIC_LZ4) return bad(); uint64_t n = conc(load(s + 4, 64), 64); if (n + 12 != cn || n > cap) return bad();
    if (n) { chk(d, n); st->mem.copy(d, s + 12, n); } retv(in, CV(n)); return advance(in); }
  case B_ZCTX: { uint64_t p = halloc(64, 16); hzero(p, 64); retv(in, CV(p)); return advance(in); }
  case B_ZCOMP: case B_ZCOMPCCTX: { // (ctx,dst,dstCap,src,srcSize[,level])
    uint64_t d = C(1), cap = C(2), s = C(3), n = C(4); if (n + 12 > cap) { retv(in, CV(ZERR)); return advance(in); }
    store(d, 32, CV(CMAGIC_ZSTD)); store(d + 4, 64, CV(n)); if (n) { chk(s, n); chk(d + 12, n); st->mem.copy(d + 12, s, n); } retv(in, CV(n + 12)); return advance(in); }
  case B_ZDECDCTX: {
    uint64_t d = C(1), cap = C(2), s = C(3), cn = C(4); auto bad = [&] { retv(in, CV(ZERR)); return advance(in); };
    if (cn == 0) { retv(in, CV(0)); return advance(in); }
    if (cn < 12 || conc(load(s, 32), 32) != CMAGIC_ZSTD) return bad(); uint64_t n = conc(load(s + 4, 64), 64); if (n + 12 != cn || n > cap) return bad();
    if (n) { chk(d, n); st->mem.copy(d, s + 12, n); } retv(in, CV(n)); return advance(in); }
  case B_ZISERR: { uint64_t v = C(0); retv(in, CV(v > (uint64_t)-120 ? 1 : 0)); return advance(in); }
  default: end(2, "unmodelled builtin " + f->dem);
  }
}
Ret Exec::intr(Inst &in) {
  auto A = [&](size_t i, uint32_t k = 0) { return get(in.xs[i], k); };
  unsigned w = in.w; auto one = [&](uint64_t v, unsigned ww) { return mkConst(v, ww); };
  auto perElt = [&](auto fn) { std::vector<Val> t(in.xn[0]); for (uint32_t i = 0; i < in.xn[0]; i++) t[i] = fn(i); for (uint32_t i = 0; i < t.size(); i++) R[in.dst + i] = t[i]; };
  auto red = [&](Op op) { Val r = A(0, 0); for (uint32_t i = 1; i < in.xn[0]; i++) r = bin(op, r, A(0, i), w); R[in.dst] = r; };
  switch (in.sub) {
  case IN_MEMCPY: memcpyV(A(0), A(1), A(2)); break;
  case IN_MEMSET: memsetV(A(0), A(1), A(2)); break;
  case IN_EXPECT: R[in.dst] = A(0); break;
  case IN_CTPOP: perElt([&](uint32_t i) { Val v = A(0, i); if (!v.e) return CV(__builtin_popcountll(v.c)); Expr *r = one(0, w); for (unsigned b = 0; b < w; b++) r = mkBin(OP_ADD, r, w > 1 ? mkZExt(mkExtract(v.e, b, 1), w) : v.e); return EV(r); }); break;
  case IN_CTLZ: perElt([&](uint32_t i) { Val v = A(0, i); if (!v.e) { unsigned n = 0; while (n < w && !((v.c >> (w - 1 - n)) & 1)) n++; return CV(n); } Expr *r = one(w, w); for (unsigned b = 0; b < w; b++) r = mkIte(mkExtract(v.e, b, 1), one(w - 1 - b, w), r); return EV(r); }); break;
  case IN_CTTZ: perElt([&](uint32_t i) { Val v = A(0, i); if (!v.e) { unsigned n = 0; while (n < w && !((v.c >> n) & 1)) n++; return CV(n); } Expr *r = one(w, w); for (int b = w - 1; b >= 0; b--) r = mkIte(mkExtract(v.e, b, 1), one(b, w), r); return EV(r); }); break;
  case IN_BSWAP: perElt([&](uint32_t i) { Expr *e = toE(A(0, i), w); Expr *r = mkExtract(e, 0, 8); for (unsigned b = 8; b < w; b += 8) r = mkConcat(r, mkExtract(e, b, 8)); return EV(r); }); break;
  case IN_BITREV: perElt([&](uint32_t i) { Expr *e = toE(A(0, i), w); Expr *r = mkExtract(e, 0, 1); for (unsigned b = 1; b < w; b++) r = mkConcat(r, mkExtract(e, b, 1)); return EV(r); }); break;
  case IN_FSHL: case IN_FSHR: perElt([&](uint32_t i) {
    Val s = bin(OP_UREM, A(2, i), CV(w), w); Val x = A(0, i), y = A(1, i); Val ws = bin(OP_SUB, CV(w), s, w);
    if (in.sub == IN_FSHL) { Val r = bin(OP_OR, bin(OP_SHL, x, s, w), bin(OP_LSHR, y, ws, w), w); return sel(cmp(CS_EQ, s, CV(0), w), x, r, w); }
    Val r = bin(OP_OR, bin(OP_SHL, x, ws, w), bin(OP_LSHR, y, s, w), w); return sel(cmp(CS_EQ, s, CV(0), w), y, r, w); }); break;
  case IN_UADDO: { Val x = A(0), y = A(1), r = bin(OP_ADD, x, y, w); R[in.dst] = r; R[in.dst + 1] = cmp(CS_ULT, r, x, w); break; }
  case IN_USUBO: { Val x = A(0), y = A(1); R[in.dst] = bin(OP_SUB, x, y, w); R[in.dst + 1] = cmp(CS_ULT, x, y, w); break; }
  case IN_UMULO: case IN_SMULO: case IN_SADDO: case IN_SSUBO: {
    if (2 * w > 128) fail("wide overflow op"); bool sg = in.sub != IN_UMULO; Expr *x = toE(A(0), w), *y = toE(A(1), w); auto ext = [&](Expr *e) { return sg ? mkSExt(e, 2 * w) : mkZExt(e, 2 * w); };
    Op op = in.sub == IN_SADDO ? OP_ADD : in.sub == IN_SSUBO ? OP_SUB : OP_MUL; Expr *r = mkBin(op, ext(x), ext(y)); Expr *lo = mkExtract(r, 0, w);
    R[in.dst] = EV(lo); R[in.dst + 1] = EV(mkNot(mkCmp(OP_EQ, ext(lo), r))); break; }
  case IN_UADDS: perElt([&](uint32_t i) { Val x = A(0, i), r = bin(OP_ADD, x, A(1, i), w); return sel(cmp(CS_ULT, r, x, w), CV(m64(w)), r, w); }); break;
  case IN_USUBS: perElt([&](uint32_t i) { Val x = A(0, i), y = A(1, i); return sel(cmp(CS_ULT, x, y, w), CV(0), bin(OP_SUB, x, y, w), w); }); break;
  case IN_UMIN: perElt([&](uint32_t i) { return sel(cmp(CS_ULT, A(0, i), A(1, i), w), A(0, i), A(1, i), w); }); break;
  case IN_UMAX: perElt([&](uint32_t i) { return sel(cmp(CS_ULT, A(1, i), A(0, i), w), A(0, i), A(1, i), w); }); break;
  case IN_SMIN: perElt([&](uint32_t i) { return sel(cmp(CS_SLT, A(0, i), A(1, i), w), A(0, i), A(1, i), w); }); break;
  case IN_SMAX: perElt([&](uint32_t i) { return sel(cmp(CS_SLT, A(1, i), A(0, i), w), A(0, i), A(1, i), w); }); break;
  case IN_ABS: perElt([&](uint32_t i) { Val x = A(0, i); return sel(cmp(CS_SLT, x, CV(0), w), bin(OP_SUB, CV(0), x, w), x, w); }); break;
  case IN_TLS: {
    auto *G = (const GlobalVariable *)in.ty; const GlobalVariable *D = G;
    if (G->isDeclaration()) { GlobalValue *g = lookupDef(G->getName().str()); const GlobalObject *o = g ? aliasee(g) : nullptr; if (o && isa<GlobalVariable>(o)) D = cast<GlobalVariable>(o); else end(2, "undefined TLS " + G->getName().str()); }
    auto &t = st->th[st->cur]; auto it = t.tls.find(D);
    if (it == t.tls.end()) { uint64_t sz = std::max<uint64_t>(1, DL->getTypeAllocSize(D->getValueType())), al = D->getAlign() ? D->getAlign()->value() : 16; uint64_t p = halloc(sz, al); hzero(p, sz); if (D->hasInitializer()) initConstInto(p, D->getInitializer()); it = t.tls.emplace(D, p).first; }
    R[in.dst] = CV(it->second); break; }
  case IN_TRAP: violation("panic", st->ctx.empty() ? "panic" : "panic:" + st->ctx, st->model, "trap"); end(3, "trap");
  case IN_PMOVMSKB: { if (in.xn[0] != 16) fail("pmovmskb"); bool s = false; for (int i = 0; i < 16; i++) if (A(0, i).e) s = true; if (!s) { uint64_t r = 0; for (int i = 0; i < 16; i++) r |= ((A(0, i).c >> 7) & 1) << i; R[in.dst] = CV(r); } else { Expr *r = mkExtract(toE(A(0, 0), 8), 7, 1); for (int i = 1; i < 16; i++) r = mkConcat(mkExtract(toE(A(0, i), 8), 7, 1), r); R[in.dst] = EV(mkZExt(r, 32)); } break; }
  case IN_ISCONST: R[in.dst] = CV(0); break;
  case IN_OBJSIZE: R[in.dst] = CV(~0ULL); break;
  case IN_REDOR: red(OP_OR); break; case IN_REDAND: red(OP_AND); break; case IN_REDADD: red(OP_ADD); break; case IN_REDXOR: red(OP_XOR); break;
  case IN_REDUMAX: { Val r = A(0, 0); for (uint32_t i = 1; i < in.xn[0]; i++) r = sel(cmp(CS_ULT, r, A(0, i), w), A(0, i), r, w); R[in.dst] = r; break; }
  case IN_REDUMIN: { Val r = A(0, 0); for (uint32_t i = 1; i < in.xn[0]; i++) r = sel(cmp(CS_ULT, A(0, i), r, w), A(0, i), r, w); R[in.dst] = r; break; }
  case IN_PTRMASK: R[in.dst] = bin(OP_AND, A(0), A(1), 64); break;
  case IN_LOADREL: { Val b = A(0), o = loadAny(bin(OP_ADD, b, A(1), 64), 0, 32); R[in.dst] = bin(OP_ADD, b, o.e ? EV(mkSExt(o.e, 64)) : CV((uint64_t)(int64_t)(int32_t)o.c), 64); break; }
  case IN_FPTOUISAT: case IN_FPTOSISAT: { Val x = A(0); if (x.e) end(2, "symbolic float"); double d = in.w2 == 32 ? [&] { uint32_t u = x.c; float g; memcpy(&g, &u, 4); return (double)g; }() : [&] { double g; memcpy(&g, &x.c, 8); return g; }(); if (std::isnan(d)) { R[in.dst] = CV(0); break; } if (in.sub == IN_FPTOUISAT) { R[in.dst] = CV(d <= 0 ? 0 : d >= ldexp(1.0, w) ? m64(w) : (uint64_t)d); } else { double lo = -ldexp(1.0, w - 1), hi = ldexp(1.0, w - 1); R[in.dst] = CV((d <= lo ? (1ULL << (w - 1)) : d >= hi ? m64(w - 1) : (uint64_t)(int64_t)d) & m64(w)); } break; }
  default: end(2, "unmodelled intrinsic in " + fr->f->dem);
  }
  return advance(in);
}
// ---------------------------------------------------------------- threads
// The current thread cannot continue: pick another one (all choices explored).
Ret Exec::block() {
  std::vector<int> r; runnable(r); r.erase(std::remove(r.begin(), r.end(), st->cur), r.end());
  if (st->th[st->cur].stat == T_RUN) r.push_back(st->cur);
  std::vector<std::pair<int, bool>> ch; for (int i : r) ch.push_back({i, false});
  if (ch.empty()) for (size_t i = 0; i < st->th.size(); i++) if (st->th[i].stat == T_FUTEX && st->th[i].waitTimed) ch.push_back({(int)i, true});
  if (ch.empty()) {
    SH->deadlocks++; str s; for (size_t i = 0; i < st->th.size(); i++) if (st->th[i].stat != T_DONE) { int c = st->cur; st->cur = i; s += "thread " + std::to_string(i) + ": " + stack() + "\n"; st->cur = c; }
    violation("deadlock", st->ctx.empty() ? "deadlock" : "deadlock:" + st->ctx, st->model, s); end(3, "deadlock");
  }
  auto go = [&](std::pair<int, bool> c) {
    if (c.second) { Thread &t = st->th[c.first]; t.stat = T_RUN; st->clock += 3600ULL * 1000000000ULL * 1000; if (!st->errnoAddr) { st->errnoAddr = halloc(16, 16); hzero(st->errnoAddr, 16); } store(st->errnoAddr, 32, CV(110)); if (t.timeoutDst >= 0) t.st.back().R[t.timeoutDst] = CV((uint64_t)-1); }
    switchTo(c.first);
  };
  if (st->schedOn) for (size_t i = 1; i < ch.size(); i++) { SP n = cloneState(); SH->schedForks++; State *s0 = st; st = n.get(); sync(); go(ch[i]); st = s0; WL->push_back(std::move(n)); }
  sync(); go(ch[0]); return SWITCHED;
}
void Exec::yieldPoint() {
  std::vector<int> r; runnable(r); int nx = -1; for (int i : r) if (i > st->cur) { nx = i; break; } if (nx < 0) for (int i : r) if (i != st->cur) { nx = i; break; }
  if (nx >= 0) switchTo(nx);
}
// A point where another thread may run first (bounded number of preemptions). True: the current instruction must be fetched again.
bool Exec::schedPoint() {
  if (!st->schedOn || st->th.size() < 2 || !st->th[st->cur].region) return false;
  if (st->skipYield) { st->skipYield = false; return false; }
  if (st->preempt >= (int)gPreempt) return false;
  std::vector<int> r; runnable(r); bool any = false;
  for (int i : r) if (i != st->cur) { any = true; SP n = cloneState(); SH->schedForks++; State *s0 = st; st = n.get(); st->preempt++; switchTo(i); st = s0; WL->push_back(std::move(n)); }
  sync(); (void)any;
  return false;
}
