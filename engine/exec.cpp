#include "exec.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cmath>
using namespace llvm;
typedef std::string str;
Mem gBase; Mem *Mem::base = &gBase;

// ---------------------------------------------------------------- shared (cross-process) statistics
struct Shared {
  std::atomic<int> workers, maxWorkers; std::atomic<int> stop; std::atomic<uint64_t> paths, assumed, errors, instrs, forks, queries, z3calls, cacheHits, modelHits, z3us, sat, unsat, unknown, viols, recorded, procs, maxdepth, checks, checkQ, incomplete, deadlocks, schedForks;
};
static Shared *SH;
static str gOutDir; static double gDeadline; static uint64_t gMaxSteps = 200000000; static FILE *gOut; static std::set<str> gKnown; static bool gVerbose = false; static uint64_t gSeed = 1; static unsigned gPreempt = 2; static bool gFine = false; static uint64_t gMaxConc = 600; static uint32_t gIterSeed = 0; static unsigned gMaxRec = 64;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::map<str, uint64_t> gReach; static std::map<str, std::pair<uint64_t, uint64_t>> gCheckCnt; static std::set<str> gErrSeen;
static std::vector<str> gObsNames; static std::map<str, uint32_t> gObsId;
static uint64_t gInstr = 0, gForks = 0;

static str jesc(const str &s) { str r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void emit(const str &line) { fputs(line.c_str(), gOut); fputc('\n', gOut); }

// ---------------------------------------------------------------- modules and symbols
static LLVMContext *CTX; static const DataLayout *DL;
static std::vector<std::unique_ptr<Module>> gMods; static std::unordered_map<str, GlobalValue *> gDefs; static std::unordered_map<str, str> gIndex; static std::set<str> gLoaded;
static std::unordered_map<const Function *, FnInfo *> gFn; static std::unordered_map<str, FnInfo *> gFnByName; static std::vector<FnInfo *> gFnByAddr;
static std::unordered_map<const GlobalVariable *, uint64_t> gGV; static std::unordered_map<str, uint64_t> gGVByName; static uint64_t gGlobTop = GLOB_BASE;
struct EngineErr { str m; };
[[noreturn]] static void fail(const str &m) { throw EngineErr{m}; }

static void loadModule(const str &path) {
  if (!gLoaded.insert(path).second) return;
  auto mb = MemoryBuffer::getFile(path); if (!mb) { fprintf(stderr, "cannot read %s\n", path.c_str()); _exit(3); }
  auto m = getOwningLazyBitcodeModule(std::move(*mb), *CTX, false, false);
  if (!m) { fprintf(stderr, "cannot parse %s: %s\n", path.c_str(), toString(m.takeError()).c_str()); _exit(3); }
  Module *M = m->get(); if (!DL) DL = new DataLayout(M->getDataLayoutStr());
  auto add = [&](GlobalValue &g) { if (g.isDeclaration() || g.hasLocalLinkage() || g.hasAvailableExternallyLinkage()) return; auto it = gDefs.find(g.getName().str()); if (it == gDefs.end()) gDefs[g.getName().str()] = &g; else if (it->second->isWeakForLinker() && !g.isWeakForLinker() && !it->second->hasLinkOnceODRLinkage()) it->second = &g; };
  for (auto &f : M->functions()) add(f); for (auto &g : M->globals()) add(g); for (auto &a : M->aliases()) add(a);
  gMods.push_back(std::move(*m));
}
static GlobalValue *lookupDef(const str &n) {
  auto it = gDefs.find(n); if (it != gDefs.end()) return it->second;
  auto ix = gIndex.find(n); if (ix == gIndex.end()) return nullptr;
  loadModule(ix->second); it = gDefs.find(n); return it == gDefs.end() ? nullptr : it->second;
}
static const GlobalObject *aliasee(GlobalValue *g) { while (auto a = dyn_cast<GlobalAlias>(g)) { auto b = dyn_cast<GlobalValue>(a->getAliasee()->stripPointerCasts()); if (!b) fail("alias"); g = b; } return dyn_cast<GlobalObject>(g); }

enum Builtin : int { BI_NONE = 0, BI_UNDEF = 1,
  B_SYM, B_CHOOSE, B_ASSUME, B_CHECK, B_OBS, B_REACH, B_CTX, B_SCHED, B_ITER, B_LOOPS,
  B_ALLOC, B_ALLOCZ, B_DEALLOC, B_REALLOC, B_MALLOC, B_CALLOC, B_FREE, B_CREALLOC, B_MEMALIGN,
  B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_MEMCHR, B_PANICFMT, B_PANIC, B_ABORT, B_GETENV, B_CLOCK, B_SYSCALL, B_ERRNO, B_RET0, B_RETM1, B_WRITE,
  B_GETRANDOM, B_PTSELF, B_PTCREATE, B_PTJOIN, B_SCHEDYIELD, B_AFFINITY, B_SYSCONF, B_KEYCREATE, B_GETSPEC, B_SETSPEC, B_LZ4BOUND, B_LZ4COMP, B_LZ4COMPHC, B_LZ4DEC, B_ZBOUND, B_ZCOMP, B_ZDEC, B_ZISERR, B_PRINT, B_UNWIND, B_MEMRCHR, B_ZCTX, B_CFGSTR, B_ATTRSTACK, B_ATTRGUARD, B_ZCOMPCCTX, B_ZDECDCTX, B_NUMCPUS, B_RDTSC, B_SLEEP };
static const std::unordered_map<str, int> BI = {
  {"vh_sym", B_SYM}, {"vh_choose", B_CHOOSE}, {"vh_assume", B_ASSUME}, {"vh_check", B_CHECK}, {"vh_obs", B_OBS}, {"vh_reach", B_REACH}, {"vh_ctx", B_CTX}, {"vh_sched", B_SCHED}, {"vh_iter", B_ITER}, {"vh_loops", B_LOOPS},
  {"__rust_alloc", B_ALLOC}, {"__rust_alloc_zeroed", B_ALLOCZ}, {"__rust_dealloc", B_DEALLOC}, {"__rust_realloc", B_REALLOC},
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"realloc", B_CREALLOC}, {"posix_memalign", B_MEMALIGN},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR}, {"memrchr", B_MEMRCHR},
  {"rust_begin_unwind", B_PANIC}, {"abort", B_ABORT}, {"getenv", B_GETENV}, {"clock_gettime", B_CLOCK}, {"syscall", B_SYSCALL}, {"__errno_location", B_ERRNO},
  {"write", B_WRITE}, {"writev", B_WRITE}, {"getrandom", B_GETRANDOM}, {"pthread_self", B_PTSELF}, {"pthread_create", B_PTCREATE}, {"pthread_join", B_PTJOIN}, {"sched_yield", B_SCHEDYIELD},
  {"pthread_detach", B_RET0}, {"dlsym", B_RET0}, {"pthread_attr_init", B_RET0}, {"pthread_attr_destroy", B_RET0}, {"pthread_attr_setstacksize", B_RET0}, {"pthread_setname_np", B_RET0}, {"pthread_getattr_np", B_RET0}, {"sigaltstack", B_RET0}, {"sigaction", B_RET0}, {"signal", B_RET0}, {"mprotect", B_RET0}, {"munmap", B_RET0}, {"close", B_RET0}, {"prctl", B_RET0}, {"__cxa_thread_atexit_impl", B_RET0}, {"pthread_atfork", B_RET0}, {"pthread_attr_setguardsize", B_RET0}, {"atexit", B_RET0},
  {"pthread_attr_getstack", B_ATTRSTACK}, {"pthread_attr_getguardsize", B_ATTRGUARD},
  {"open64", B_RETM1}, {"open", B_RETM1}, {"stat64", B_RETM1}, {"fstat64", B_RETM1}, {"readlink", B_RETM1}, {"read", B_RETM1}, {"getcwd", B_RET0}, {"realpath", B_RET0},
  {"sched_getaffinity", B_AFFINITY}, {"sysconf", B_SYSCONF}, {"pthread_key_create", B_KEYCREATE}, {"pthread_key_delete", B_RET0}, {"pthread_getspecific", B_GETSPEC}, {"pthread_setspecific", B_SETSPEC},
  {"LZ4_compressBound", B_LZ4BOUND}, {"LZ4_compress_fast", B_LZ4COMP}, {"LZ4_compress_default", B_LZ4COMP}, {"LZ4_compress_HC", B_LZ4COMPHC}, {"LZ4_decompress_safe", B_LZ4DEC},
  {"ZSTD_compressBound", B_ZBOUND}, {"ZSTD_compressCCtx", B_ZCOMPCCTX}, {"ZSTD_compress2", B_ZCOMP}, {"ZSTD_decompressDCtx", B_ZDECDCTX}, {"ZSTD_isError", B_ZISERR}, {"ZSTD_createCCtx", B_ZCTX}, {"ZSTD_createDCtx", B_ZCTX}, {"ZSTD_freeCCtx", B_RET0}, {"ZSTD_freeDCtx", B_RET0},
  {"ZSTD_CCtx_setParameter", B_RET0}, {"ZSTD_CCtx_loadDictionary", B_RET0}, {"ZSTD_DCtx_loadDictionary", B_RET0}, {"ZSTD_CCtx_reset", B_RET0}, {"ZSTD_DCtx_reset", B_RET0}, {"ZSTD_getErrorName", B_CFGSTR}, {"nanosleep", B_SLEEP}, {"clock_nanosleep", B_SLEEP},
  {"_Unwind_RaiseException", B_UNWIND}, {"_Unwind_Backtrace", B_RET0},
};
static int builtinFor(const str &n, const str &dem) {
  auto it = BI.find(n); if (it != BI.end()) return it->second;
  if (dem.rfind("core::panicking::panic_fmt", 0) == 0) return B_PANICFMT;
  if (dem.rfind("core::panicking::panic_nounwind_fmt", 0) == 0) return B_PANICFMT;
  if (dem.rfind("std::panicking::begin_panic", 0) == 0 || dem.rfind("std::panicking::rust_panic_with_hook", 0) == 0 || dem.rfind("rust_panic", 0) == 0) return B_PANIC;
  if (dem.rfind("std::io::stdio::_print", 0) == 0 || dem.rfind("std::io::stdio::_eprint", 0) == 0) return B_PRINT;
  if (dem.rfind("std::sys::pal::unix::rand::hashmap_random_keys", 0) == 0) return B_GETRANDOM + 1000;
  if (dem.rfind("std::sys::unix::rand::hashmap_random_keys", 0) == 0) return B_GETRANDOM + 1000;
  if (dem.rfind("std::thread::available_parallelism", 0) == 0) return B_NUMCPUS;
  return 0;
}
static str demangleR(const str &n) { str d = demangle(n); size_t p = d.rfind("::h"); if (p != str::npos && d.size() - p == 19) d.resize(p); return d; }
static FnInfo *fnInfo(const Function *F) {
  auto it = gFn.find(F); if (it != gFn.end()) return it->second;
  str n = F->getName().str();
  if (!F->hasLocalLinkage()) { auto k = gFnByName.find(n); if (k != gFnByName.end()) { gFn[F] = k->second; return k->second; } }
  FnInfo *fi = new FnInfo(); fi->F = const_cast<Function *>(F); fi->name = n; fi->dem = demangleR(n); fi->addr = FN_BASE + 16 * gFnByAddr.size(); gFnByAddr.push_back(fi);
  gFn[F] = fi; if (!F->hasLocalLinkage()) gFnByName[n] = fi;
  fi->builtin = builtinFor(n, fi->dem);
  // a harness may bring its own files
  if (fi->builtin == B_RETM1) { GlobalValue *g = F->isDeclaration() && !F->isMaterializable() ? lookupDef(n) : (GlobalValue *)fi->F; if (g && isa<Function>(g)) fi->builtin = 0; }
  return fi;
}
static void resolveFn(FnInfo *fi) {
  if (fi->resolved) return; fi->resolved = true;
  if (fi->builtin) return;
  Function *F = fi->F;
  if (F->isDeclaration() && !F->isMaterializable()) {
    GlobalValue *g = lookupDef(fi->name); const GlobalObject *o = g ? aliasee(g) : nullptr;
    if (o && isa<Function>(o)) { fi->F = const_cast<Function *>(cast<Function>(o)); if (!gFn.count(fi->F)) gFn[fi->F] = fi; }
    else { fi->builtin = BI_UNDEF; return; }
  } else if (F->hasAvailableExternallyLinkage()) { }
  if (fi->F->isMaterializable()) { if (auto e = fi->F->materialize()) fail("materialize " + fi->name); }
}
static void evalConst(const Constant *C, std::vector<Val> &out);
static unsigned bitw(Type *T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; fail("type width"); }
static void leaves0(Type *T, uint64_t off, std::vector<Leaf> &o) {
  if (auto S = dyn_cast<StructType>(T)) { auto L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) leaves0(S->getElementType(i), off + L->getElementOffset(i).getFixedValue(), o); }
  else if (auto A = dyn_cast<ArrayType>(T)) { uint64_t s = DL->getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); i++) leaves0(A->getElementType(), off + i * s, o); }
  else if (auto V = dyn_cast<FixedVectorType>(T)) { unsigned ew = bitw(V->getElementType()); if (ew % 8) { if (V->getNumElements() > 1 && ew != 1) fail("vector of odd ints"); }
    for (unsigned i = 0; i < V->getNumElements(); i++) o.push_back({(uint32_t)(off + (ew % 8 ? i : i * (ew / 8))), (uint16_t)ew}); }
  else if (T->isVoidTy()) {} else o.push_back({(uint32_t)off, (uint16_t)bitw(T)});
}
static std::unordered_map<Type *, std::vector<Leaf> *> gLeaves;
static const std::vector<Leaf> &leavesOf(Type *T) { auto it = gLeaves.find(T); if (it != gLeaves.end()) return *it->second; auto v = new std::vector<Leaf>(); leaves0(T, 0, *v); gLeaves[T] = v; return *v; }
static uint32_t nleaf(Type *T) { return leavesOf(T).size(); }

static bool gRunning = false; static Mem *gInitMem = &gBase;
static void initConst(uint64_t addr, const Constant *C);
static uint64_t gvAddr(const GlobalVariable *G) {
  auto it = gGV.find(G); if (it != gGV.end()) return it->second;
  const GlobalVariable *D = G; str n = G->getName().str();
  if (!G->hasLocalLinkage()) {
    auto k = gGVByName.find(n); if (k != gGVByName.end()) { gGV[G] = k->second; return k->second; }
    if (G->isDeclaration() || G->hasAvailableExternallyLinkage()) { GlobalValue *g = lookupDef(n); const GlobalObject *o = g ? aliasee(g) : nullptr; if (o && isa<GlobalVariable>(o)) D = cast<GlobalVariable>(o); }
  }
  if (D->hasExternalWeakLinkage()) { gGV[G] = 0; return 0; }
  uint64_t sz = std::max<uint64_t>(1, DL->getTypeAllocSize(D->getValueType())), al = std::max<uint64_t>(16, D->getAlign() ? D->getAlign()->value() : 1);
  uint64_t a = (gGlobTop + al - 1) & ~(al - 1);
  if (gRunning && !D->isConstant()) a = (gGlobTop + PS - 1) & ~(uint64_t)(PS - 1);      // never share a page a state may already have copied
  gGlobTop = a + sz; if (gRunning) gGlobTop = (gGlobTop + PS - 1) & ~(uint64_t)(PS - 1);
  if (gGlobTop >= STACK_BASE) fail("globals exhausted");
  gGV[G] = a; gGV[D] = a; if (!G->hasLocalLinkage()) gGVByName[n] = a;
  if (D->hasInitializer()) { Mem *sv = gInitMem; gInitMem = &gBase; initConst(a, D->getInitializer()); gInitMem = sv; }
  else if (n == "__rust_no_alloc_shim_is_unstable" || n == "__rust_alloc_error_handler_should_panic") {}
  else if (n == "environ") {}
  else fprintf(stderr, "[engine] warning: undefined global %s zero-initialised\n", n.c_str());
  return a;
}
static void putBytes(uint64_t a, u128 v, unsigned w) { unsigned nb = (w + 7) / 8; uint8_t b[16]; for (unsigned i = 0; i < nb; i++) b[i] = (uint8_t)(v >> (8 * i)); gInitMem->writeC(a, b, nb); }
static void initConst(uint64_t a, const Constant *C) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto S = dyn_cast<ConstantDataSequential>(C)) { StringRef d = S->getRawDataValues(); gInitMem->writeC(a, (const uint8_t *)d.data(), d.size()); return; }
  if (auto S = dyn_cast<ConstantStruct>(C)) { auto L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initConst(a + L->getElementOffset(i).getFixedValue(), S->getOperand(i)); return; }
  if (auto A = dyn_cast<ConstantArray>(C)) { uint64_t s = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initConst(a + i * s, A->getOperand(i)); return; }
  std::vector<Val> v; evalConst(C, v); auto &ls = leavesOf(C->getType());
  for (size_t i = 0; i < v.size(); i++) putBytes(a + ls[i].off, v[i].e ? v[i].e->c : v[i].c, ls[i].w);
}
static void evalConst(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (auto I = dyn_cast<ConstantInt>(C)) { unsigned w = I->getBitWidth(); if (w > 128) fail("int >128"); const APInt &v = I->getValue(); u128 x = v.getRawData()[0]; if (w > 64) x |= (u128)v.getRawData()[1] << 64; out.push_back(EV(mkConst(x, w))); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(CV(0)); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (auto &l : leavesOf(T)) out.push_back(EV(mkConst(0, l.w))); return; }
  if (auto F = dyn_cast<ConstantFP>(C)) { out.push_back(CV(F->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (auto F = dyn_cast<Function>(C)) { if (F->hasExternalWeakLinkage()) { out.push_back(CV(0)); return; } out.push_back(CV(fnInfo(F)->addr)); return; }
  if (auto G = dyn_cast<GlobalVariable>(C)) { if (G->isThreadLocal()) fail("tls const"); out.push_back(CV(gvAddr(G))); return; }
  if (auto A = dyn_cast<GlobalAlias>(C)) { evalConst(A->getAliasee(), out); return; }
  if (auto S = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < S->getNumElements(); i++) evalConst(S->getElementAsConstant(i), out); return; }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) { for (unsigned i = 0; i < C->getNumOperands(); i++) evalConst(cast<Constant>(C->getOperand(i)), out); return; }
  if (auto X = dyn_cast<ConstantExpr>(C)) {
    std::vector<Val> a, b; auto u = [](Val v) { return v.c; };
    switch (X->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto *G = cast<GEPOperator>(X); if (!G->accumulateConstantOffset(*DL, off)) fail("const gep"); evalConst(X->getOperand(0), a); out.push_back(CV(u(a[0]) + off.getZExtValue())); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: {
      evalConst(X->getOperand(0), a); if (T->isVectorTy() || X->getOperand(0)->getType()->isVectorTy()) fail("const vec cast"); out.push_back(EV(mkConst(toE(a[0], 64)->c, bitw(T)))); return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: {
      evalConst(X->getOperand(0), a); evalConst(X->getOperand(1), b); unsigned w = bitw(T); Op o = X->getOpcode() == Instruction::Add ? OP_ADD : X->getOpcode() == Instruction::Sub ? OP_SUB : X->getOpcode() == Instruction::And ? OP_AND : X->getOpcode() == Instruction::Or ? OP_OR : X->getOpcode() == Instruction::Mul ? OP_MUL : X->getOpcode() == Instruction::Shl ? OP_SHL : X->getOpcode() == Instruction::LShr ? OP_LSHR : OP_XOR;
      out.push_back(EV(mkConst(foldBin(o, toE(a[0], w)->c, toE(b[0], w)->c, w), w))); return; }
    case Instruction::ICmp: { evalConst(X->getOperand(0), a); evalConst(X->getOperand(1), b); auto p = (CmpInst::Predicate)X->getPredicate(); bool r; if (p == CmpInst::ICMP_EQ) r = a[0].c == b[0].c; else if (p == CmpInst::ICMP_NE) r = a[0].c != b[0].c; else if (p == CmpInst::ICMP_ULT) r = a[0].c < b[0].c; else if (p == CmpInst::ICMP_UGT) r = a[0].c > b[0].c; else fail("const icmp"); out.push_back(CV(r)); return; }
    case Instruction::Select: { evalConst(X->getOperand(0), a); evalConst(X->getOperand(a[0].c ? 1 : 2), out); return; }
    default: fail(str("constexpr ") + X->getOpcodeName());
    }
  }
  str s; raw_string_ostream os(s); C->print(os); fail("constant " + os.str());
}

// ---------------------------------------------------------------- decoding
enum CmpSub { CS_EQ, CS_NE, CS_ULT, CS_ULE, CS_UGT, CS_UGE, CS_SLT, CS_SLE, CS_SGT, CS_SGE };
enum IntrId { IN_NONE, IN_MEMCPY, IN_MEMSET, IN_NOP, IN_CTPOP, IN_CTLZ, IN_CTTZ, IN_BSWAP, IN_BITREV, IN_FSHL, IN_FSHR, IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_UADDS, IN_USUBS, IN_SADDS, IN_SSUBS, IN_UMIN, IN_UMAX, IN_SMIN, IN_SMAX, IN_ABS, IN_EXPECT, IN_TLS, IN_TRAP, IN_PMOVMSKB, IN_ASSUME, IN_ISCONST, IN_OBJSIZE, IN_REDOR, IN_REDAND, IN_REDADD, IN_REDXOR, IN_VASTART, IN_FPTOUISAT, IN_FPTOSISAT, IN_FLOOR, IN_CEIL, IN_FABS, IN_PTRMASK, IN_REDUMAX, IN_REDUMIN, IN_LOADREL };
static CmpSub cmpSub(CmpInst::Predicate p) { switch (p) { case CmpInst::ICMP_EQ: return CS_EQ; case CmpInst::ICMP_NE: return CS_NE; case CmpInst::ICMP_ULT: return CS_ULT; case CmpInst::ICMP_ULE: return CS_ULE; case CmpInst::ICMP_UGT: return CS_UGT; case CmpInst::ICMP_UGE: return CS_UGE; case CmpInst::ICMP_SLT: return CS_SLT; case CmpInst::ICMP_SLE: return CS_SLE; case CmpInst::ICMP_SGT: return CS_SGT; default: return CS_SGE; } }
static int intrId(Intrinsic::ID id) {
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return IN_MEMCPY; case Intrinsic::memset: return IN_MEMSET;
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::x86_sse2_pause: case Intrinsic::vaend: return IN_NOP;
  case Intrinsic::ctpop: return IN_CTPOP; case Intrinsic::ctlz: return IN_CTLZ; case Intrinsic::cttz: return IN_CTTZ; case Intrinsic::bswap: return IN_BSWAP; case Intrinsic::bitreverse: return IN_BITREV; case Intrinsic::fshl: return IN_FSHL; case Intrinsic::fshr: return IN_FSHR;
  case Intrinsic::uadd_with_overflow: return IN_UADDO; case Intrinsic::usub_with_overflow: return IN_USUBO; case Intrinsic::umul_with_overflow: return IN_UMULO; case Intrinsic::sadd_with_overflow: return IN_SADDO; case Intrinsic::ssub_with_overflow: return IN_SSUBO; case Intrinsic::smul_with_overflow: return IN_SMULO;
  case Intrinsic::uadd_sat: return IN_UADDS; case Intrinsic::usub_sat: return IN_USUBS; case Intrinsic::sadd_sat: return IN_SADDS; case Intrinsic::ssub_sat: return IN_SSUBS; case Intrinsic::umin: return IN_UMIN; case Intrinsic::umax: return IN_UMAX; case Intrinsic::smin: return IN_SMIN; case Intrinsic::smax: return IN_SMAX; case Intrinsic::abs: return IN_ABS;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability: return IN_EXPECT; case Intrinsic::threadlocal_address: return IN_TLS; case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return IN_TRAP;
  case Intrinsic::x86_sse2_pmovmskb_128: return IN_PMOVMSKB; case Intrinsic::assume: return IN_ASSUME; case Intrinsic::is_constant: return IN_ISCONST; case Intrinsic::objectsize: return IN_OBJSIZE;
  case Intrinsic::vector_reduce_or: return IN_REDOR; case Intrinsic::vector_reduce_and: return IN_REDAND; case Intrinsic::vector_reduce_add: return IN_REDADD; case Intrinsic::vector_reduce_xor: return IN_REDXOR; case Intrinsic::vector_reduce_umax: return IN_REDUMAX; case Intrinsic::vector_reduce_umin: return IN_REDUMIN;
  case Intrinsic::fptoui_sat: return IN_FPTOUISAT; case Intrinsic::fptosi_sat: return IN_FPTOSISAT; case Intrinsic::floor: return IN_FLOOR; case Intrinsic::ceil: return IN_CEIL; case Intrinsic::fabs: return IN_FABS; case Intrinsic::ptrmask: return IN_PTRMASK; case Intrinsic::load_relative: return IN_LOADREL;
  default: return IN_NONE;
  }
}
struct Decoder {
  FnInfo &fi; Function &F; std::unordered_map<const Value *, int32_t> slot; std::unordered_map<const Constant *, int32_t> cmap; std::unordered_map<const BasicBlock *, uint32_t> bpc; std::vector<std::pair<const BasicBlock *, const BasicBlock *>> edgeReq; std::map<std::pair<const BasicBlock *, const BasicBlock *>, int32_t> edgeId;
  Decoder(FnInfo &f) : fi(f), F(*f.F) {}
  bool inPhi = false; std::unordered_map<const Constant *, int32_t> phiTls;
  static const GlobalVariable *tlsBase(const Constant *C) {
    if (auto G = dyn_cast<GlobalVariable>(C)) return G->isThreadLocal() ? G : nullptr;
    if (auto X = dyn_cast<ConstantExpr>(C)) for (auto &o : X->operands()) if (auto r = tlsBase(cast<Constant>(o.get()))) return r;
    return nullptr;
  }
  int32_t newSlots(uint32_t n) { int32_t s = fi.nslots; fi.nslots += n; return s; }
  int32_t opnd(const Value *V) {
    if (auto C = dyn_cast<Constant>(V)) {
      if (auto T = tlsBase(C)) {   // address of a thread-local: computed by an inserted instruction
        if (inPhi) { auto it = phiTls.find(C); if (it == phiTls.end()) fail("thread-local address in phi"); return it->second; }
        APInt off(64, 0); if (C != T) { auto *G = dyn_cast<GEPOperator>(C); if (!G || G->getPointerOperand() != T || !G->accumulateConstantOffset(*DL, off)) fail("thread-local constant expression"); }
        Inst x; x.op = I_INTR; x.sub = IN_TLS; x.ty = (Type *)T; x.dst = newSlots(1); int32_t d = x.dst; fi.code.push_back(x);
        if (off != 0) { Inst g; g.op = I_GEP; g.a = d; g.imm = off.getSExtValue(); g.dst = newSlots(1); d = g.dst; fi.code.push_back(g); }
        return d;
      }
      auto it = cmap.find(C); if (it != cmap.end()) return it->second;
      int32_t s = -(int32_t)fi.consts.size() - 1; std::vector<Val> o; evalConst(C, o); if (o.empty()) o.push_back(CV(0));
      // constants are laid out so that element i of constant at s is consts[-s-1+i]
      for (auto &v : o) fi.consts.push_back(v); cmap[C] = s; return s;
    }
    auto it = slot.find(V); if (it == slot.end()) fail("operand"); return it->second;
  }
  int32_t edge(const BasicBlock *p, const BasicBlock *s) { auto k = std::make_pair(p, s); auto it = edgeId.find(k); if (it != edgeId.end()) return it->second; int32_t id = edgeReq.size(); edgeReq.push_back(k); edgeId[k] = id; return id; }
  void run() {
    for (auto &A : F.args()) { uint32_t n = nleaf(A.getType()); int32_t s = newSlots(n); slot[&A] = s; fi.params.push_back({s, n}); if (A.hasByValAttr()) fail("byval argument"); }
    for (auto &B : F) for (auto &P : B.phis()) for (auto &u : P.incoming_values()) if (auto C = dyn_cast<Constant>(u.get())) if (tlsBase(C) && !phiTls.count(C)) { int32_t d = opnd(C); phiTls[C] = d; }   // computed on entry
    for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) { if (I.getType()->isTokenTy() || I.getType()->isMetadataTy()) continue; if (isa<LandingPadInst>(I)) { slot[&I] = newSlots(2); continue; } slot[&I] = newSlots(nleaf(I.getType())); }
    for (auto &B : F) {
      bpc[&B] = fi.code.size();
      for (auto &I : B) { if (isa<PHINode>(I)) continue; Inst in; in.op = I_UNSUP; try { decode(I, in); } catch (EngineErr &e) { in = Inst(); in.op = I_UNSUP; in.msg = e.m; } if (in.op == I_FENCE) continue; fi.code.push_back(std::move(in)); }
    }
    inPhi = true; fi.edges.resize(edgeReq.size());
    for (size_t i = 0; i < edgeReq.size(); i++) {
      auto [p, s] = edgeReq[i]; Edge &E = fi.edges[i]; E.pc = bpc[s];
      for (auto &I : *s) { auto P = dyn_cast<PHINode>(&I); if (!P) break; E.mv.push_back({slot[P], opnd(P->getIncomingValueForBlock(p)), nleaf(P->getType())}); }
    }
  }
  void decode(Instruction &I, Inst &in) {
    Type *T = I.getType(); if (slot.count(&I)) in.dst = slot[&I];
    auto vecw = [&](Type *t) { in.n = 1; if (auto V = dyn_cast<FixedVectorType>(t)) { in.n = V->getNumElements(); t = V->getElementType(); } in.w = bitw(t); };
    if (auto B = dyn_cast<BinaryOperator>(&I)) {
      vecw(T); in.a = opnd(B->getOperand(0)); in.b = opnd(B->getOperand(1)); in.op = I_BIN;
      switch (B->getOpcode()) {
      case Instruction::Add: in.sub = OP_ADD; break; case Instruction::Sub: in.sub = OP_SUB; break; case Instruction::Mul: in.sub = OP_MUL; break; case Instruction::UDiv: in.sub = OP_UDIV; break; case Instruction::SDiv: in.sub = OP_SDIV; break; case Instruction::URem: in.sub = OP_UREM; break; case Instruction::SRem: in.sub = OP_SREM; break;
      case Instruction::And: in.sub = OP_AND; break; case Instruction::Or: in.sub = OP_OR; break; case Instruction::Xor: in.sub = OP_XOR; break; case Instruction::Shl: in.sub = OP_SHL; break; case Instruction::LShr: in.sub = OP_LSHR; break; case Instruction::AShr: in.sub = OP_ASHR; break;
      default: in.op = I_FOP; in.sub = B->getOpcode(); }
      return;
    }
    switch (I.getOpcode()) {
    case Instruction::ICmp: { auto &C = cast<ICmpInst>(I); vecw(C.getOperand(0)->getType()); in.op = I_CMP; in.sub = cmpSub(C.getPredicate()); in.a = opnd(C.getOperand(0)); in.b = opnd(C.getOperand(1)); return; }
    case Instruction::FCmp: { auto &C = cast<FCmpInst>(I); vecw(C.getOperand(0)->getType()); in.op = I_FCMP; in.sub = C.getPredicate(); in.a = opnd(C.getOperand(0)); in.b = opnd(C.getOperand(1)); return; }
    case Instruction::FNeg: vecw(T); in.op = I_FNEG; in.a = opnd(I.getOperand(0)); return;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      vecw(I.getOperand(0)->getType()); in.w2 = in.w; vecw(T); in.a = opnd(I.getOperand(0)); // w = dest, w2 = src
      in.op = I.getOpcode() == Instruction::SExt ? I_SEXT : in.w > in.w2 ? I_ZEXT : in.w < in.w2 ? I_TRUNC : I_MOV; return; }
    case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPExt: case Instruction::FPTrunc: vecw(I.getOperand(0)->getType()); in.w2 = in.w; vecw(T); in.a = opnd(I.getOperand(0)); in.op = I_FCAST; in.sub = I.getOpcode(); return;
    case Instruction::BitCast: { in.a = opnd(I.getOperand(0)); auto &la = leavesOf(I.getOperand(0)->getType()); auto &lb = leavesOf(T); if (la.size() == lb.size()) { in.op = I_MOV; in.n = la.size(); return; } in.op = I_BITCAST; in.n = la.size(); in.w = la[0].w; in.imm = lb.size(); in.w2 = lb[0].w; if (la[0].w * la.size() > 128) { unsigned m = std::max(in.w, in.w2), l = std::min(in.w, in.w2); if (m % l || m > 128) fail("wide bitcast"); } return; }
    case Instruction::AddrSpaceCast: in.op = I_MOV; in.a = opnd(I.getOperand(0)); return;
    case Instruction::Freeze: in.op = I_MOV; in.n = nleaf(T); in.a = opnd(I.getOperand(0)); return;
    case Instruction::GetElementPtr: {
      auto &G = cast<GetElementPtrInst>(I); if (T->isVectorTy()) fail("vector gep"); in.op = I_GEP; in.a = opnd(G.getPointerOperand());
      for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
        Value *ix = gi.getOperand();
        if (auto S = gi.getStructTypeOrNull()) in.imm += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()).getFixedValue();
        else { int64_t sc = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue(); if (auto C = dyn_cast<ConstantInt>(ix)) in.imm += C->getSExtValue() * sc; else in.gs.push_back({opnd(ix), (uint16_t)bitw(ix->getType()), sc}); }
      }
      return; }
    case Instruction::Load: { auto &L = cast<LoadInst>(I); in.op = I_LOAD; in.a = opnd(L.getPointerOperand()); in.leaves = &leavesOf(T); in.n = in.leaves->size(); in.sub = L.isAtomic(); for (auto &l : *in.leaves) if (l.w == 1 && T->isVectorTy()) fail("load <n x i1>"); return; }
    case Instruction::Store: { auto &S = cast<StoreInst>(I); in.op = I_STORE; in.a = opnd(S.getPointerOperand()); in.b = opnd(S.getValueOperand()); in.leaves = &leavesOf(S.getValueOperand()->getType()); in.n = in.leaves->size(); in.sub = S.isAtomic(); for (auto &l : *in.leaves) if (l.w == 1 && S.getValueOperand()->getType()->isVectorTy()) fail("store <n x i1>"); return; }
    case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(A.getAllocatedType()); in.b = A.getAlign().value(); if (auto C = dyn_cast<ConstantInt>(A.getArraySize())) in.imm *= C->getZExtValue(); else fail("dynamic alloca"); return; }
    case Instruction::Br: { auto &B = cast<BranchInst>(I); if (B.isConditional()) { in.op = I_CBR; in.a = opnd(B.getCondition()); in.b = edge(I.getParent(), B.getSuccessor(0)); in.c = edge(I.getParent(), B.getSuccessor(1)); } else { in.op = I_BR; in.b = edge(I.getParent(), B.getSuccessor(0)); } return; }
    case Instruction::Switch: { auto &S = cast<SwitchInst>(I); in.op = I_SWITCH; in.a = opnd(S.getCondition()); in.w = bitw(S.getCondition()->getType()); in.b = edge(I.getParent(), S.getDefaultDest()); for (auto &c : S.cases()) { const APInt &v = c.getCaseValue()->getValue(); u128 x = v.getRawData()[0]; if (in.w > 64) x |= (u128)v.getRawData()[1] << 64; in.cases.push_back({x, edge(I.getParent(), c.getCaseSuccessor())}); } return; }
    case Instruction::Ret: in.op = I_RET; if (I.getNumOperands()) { in.a = opnd(I.getOperand(0)); in.n = nleaf(I.getOperand(0)->getType()); } else in.n = 0; return;
    case Instruction::Unreachable: in.op = I_UNREACH; return;
    case Instruction::Fence: in.op = I_FENCE; return;
    case Instruction::Select: { in.op = I_SELECT; in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1)); in.c = opnd(I.getOperand(2)); in.leaves = &leavesOf(T); in.n = in.leaves->size(); in.sub = I.getOperand(0)->getType()->isVectorTy(); return; }
    case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); in.op = I_MOV; Type *t = E.getAggregateOperand()->getType(); uint32_t off = 0; for (unsigned ix : E.indices()) { off += aggOff(t, ix); t = aggTy(t, ix); } in.n = nleaf(t); int32_t a = opnd(E.getAggregateOperand()); in.a = a >= 0 ? a + (int32_t)off : a - (int32_t)off; return; }
    case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); in.op = I_INSVAL; Type *t = E.getAggregateOperand()->getType(); in.imm = nleaf(t); uint32_t off = 0; for (unsigned ix : E.indices()) { off += aggOff(t, ix); t = aggTy(t, ix); } in.n = nleaf(t); in.a = opnd(E.getAggregateOperand()); in.b = opnd(E.getInsertedValueOperand()); in.c = off; return; }
    case Instruction::ExtractElement: { in.op = I_EXTELT; in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1)); in.n = nleaf(I.getOperand(0)->getType()); return; }
    case Instruction::InsertElement: { in.op = I_INSELT; in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1)); in.c = opnd(I.getOperand(2)); in.n = nleaf(T); return; }
    case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); in.op = I_SHUF; in.a = opnd(S.getOperand(0)); in.b = opnd(S.getOperand(1)); in.n = nleaf(S.getOperand(0)->getType()); for (int m : S.getShuffleMask()) in.xs.push_back(m); return; }
    case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); in.op = I_RMW; in.sub = A.getOperation(); in.a = opnd(A.getPointerOperand()); in.b = opnd(A.getValOperand()); in.w = bitw(T); return; }
    case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); in.op = I_CMPXCHG; in.a = opnd(A.getPointerOperand()); in.b = opnd(A.getCompareOperand()); in.c = opnd(A.getNewValOperand()); in.w = bitw(A.getNewValOperand()->getType()); return; }
    case Instruction::Call: case Instruction::Invoke: {
      auto &CB = cast<CallBase>(I);
      if (auto II = dyn_cast<InvokeInst>(&I)) in.eNorm = edge(I.getParent(), II->getNormalDest());
      in.ty = T;
      if (CB.isInlineAsm()) { auto A = cast<InlineAsm>(CB.getCalledOperand()); if (A->getAsmString().empty()) { if (T->isVoidTy()) { in.op = I_FENCE; return; } in.op = I_MOV; in.n = nleaf(T); in.a = opnd(CB.getArgOperand(0)); return; } if (A->getAsmString().find("cpuid") != std::string::npos) { in.op = I_MOV; in.n = nleaf(T); in.a = opnd(Constant::getNullValue(T)); return; } fail("inline asm: " + A->getAsmString()); }
      Function *cf = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
      if (!cf) if (auto GA = dyn_cast<GlobalAlias>(CB.getCalledOperand())) { auto o = aliasee(GA); cf = const_cast<Function *>(dyn_cast_or_null<Function>(o)); }
      if (cf && cf->isIntrinsic()) {
        int id = intrId(cf->getIntrinsicID()); if (!id) fail("intrinsic " + cf->getName().str());
        if (id == IN_NOP) { if (!T->isVoidTy() && in.dst >= 0) { in.op = I_MOV; in.n = 1; std::vector<Val> z{CV(0)}; fi.consts.push_back(CV(0)); in.a = -(int32_t)fi.consts.size(); return; } in.op = I_FENCE; return; }
        if (id == IN_ASSUME) { in.op = I_FENCE; return; }
        in.op = I_INTR; in.sub = id;
        if (id == IN_TLS) { auto G = cast<GlobalVariable>(CB.getArgOperand(0)); in.ty = (Type *)G; return; }
        for (auto &A : CB.args()) { in.xs.push_back(opnd(A.get())); in.xn.push_back(nleaf(A->getType())); }
        if (CB.arg_size()) { Type *t0 = CB.getArgOperand(0)->getType(); if (!t0->isAggregateType()) { vecw(t0); in.w2 = in.w; } }
        if ((id == IN_FPTOUISAT || id == IN_FPTOSISAT)) in.w = bitw(T);
        return;
      }
      for (auto &A : CB.args()) { if (A->getType()->isMetadataTy()) continue; in.xs.push_back(opnd(A.get())); in.xn.push_back(nleaf(A->getType())); }
      for (unsigned i = 0; i < CB.arg_size(); i++) if (CB.isByValArgument(i)) fail("byval call");
      in.n = T->isVoidTy() ? 0 : nleaf(T);
      if (cf) { in.op = I_CALL; in.callee = fnInfo(cf); } else { in.op = I_ICALL; in.a = opnd(CB.getCalledOperand()); }
      return; }
    case Instruction::LandingPad: case Instruction::Resume: in.op = I_UNSUP; in.msg = "landingpad"; return;
    case Instruction::VAArg: fail("va_arg");
    default: fail(str("opcode ") + I.getOpcodeName());
    }
  }
  static uint32_t aggOff(Type *t, unsigned ix) { if (auto S = dyn_cast<StructType>(t)) { uint32_t o = 0; for (unsigned i = 0; i < ix; i++) o += nleaf(S->getElementType(i)); return o; } return ix * nleaf(cast<ArrayType>(t)->getElementType()); }
  static Type *aggTy(Type *t, unsigned ix) { if (auto S = dyn_cast<StructType>(t)) return S->getElementType(ix); return cast<ArrayType>(t)->getElementType(); }
};
static void decodeFn(FnInfo *f) { if (f->decoded) return; resolveFn(f); if (f->builtin) { f->decoded = true; return; } Decoder d(*f); d.run(); f->decoded = true; }

// ---------------------------------------------------------------- executor
typedef std::unique_ptr<State> SP;
static std::deque<SP> *WL;
enum Ret { CONT, REEXEC, DEAD, SWITCHED };
struct PathEnd { int kind; str msg; };   // 0 ok 1 assume-killed 2 error
static void flushStats();

struct Exec {
  State *st; Frame *fr; Val *R;
  void sync() { auto &s = st->th[st->cur].st; if (s.empty()) { fr = nullptr; R = nullptr; return; } fr = &s.back(); R = fr->R.data(); }
  inline Val get(int32_t o, uint32_t i = 0) { return o >= 0 ? R[o + i] : fr->f->consts[-o - 1 + i]; }
  [[noreturn]] void end(int k, const str &m) { throw PathEnd{k, m}; }
  // ---- constraints
  void addPC(Expr *c) {
    if (isTrue(c)) return;
    if (c->op == OP_AND && c->w == 1) { addPC(c->k[0]); addPC(c->k[1]); return; }
    for (auto e : st->pc) if (e == c) return;
    st->pc.push_back(c);
  }
  int inPC(Expr *c) { Expr *n = mkNot(c); for (auto e : st->pc) { if (e == c) return 1; if (e == n) return -1; } return 0; }
  Sat sat(Expr *q, Assign *out) {
    Sat r = solveSat(st->pc, q, st->model, out);
    if (r == Sat::UNKNOWN) { SH->incomplete = 1; end(2, "solver returned unknown"); }
    if (r == Sat::SAT && out && !evalExpr(q, *out)) { fprintf(stderr, "engine/solver disagreement on model\n"); end(2, "model does not satisfy query"); }
    return r;
  }
  SP cloneState() { gForks++; SP n(new State(*st)); n->depth++; return n; }
  bool tryOffload() {
    // move the oldest pending state to a fresh process when a worker slot is free
    if (WL->empty()) return false;
    if (SH->workers.load() >= SH->maxWorkers.load()) return false;
    int w = SH->workers.fetch_add(1); if (w >= SH->maxWorkers.load()) { SH->workers.fetch_sub(1); return false; }
    fflush(gOut); fflush(stderr); fflush(stdout);
    pid_t p = fork();
    if (p < 0) { SH->workers.fetch_sub(1); return false; }
    if (p == 0) { throw (int)1; }
    WL->pop_front(); return true;
  }
  // branch on a symbolic condition; returns the direction this state takes, forking the other if feasible.
  // `other` is run on the clone for the other direction.
  template <class Fn> bool branch(Expr *c, Fn other) {
    if (isConst(c)) return c->c;
    int ip = inPC(c); if (ip) return ip > 0;
    bool dir = evalExpr(c, st->model) != 0;
    Expr *oc = dir ? mkNot(c) : c; Assign m;
    if (sat(oc, &m) == Sat::SAT) {
      SP n = cloneState(); n->model = std::move(m);
      State *s0 = st; st = n.get(); sync(); addPC(oc); other(!dir); st = s0; sync();
      WL->push_back(std::move(n));
    }
    addPC(dir ? c : mkNot(c));
    return dir;
  }
  // make a value concrete: forks a re-execution of the current instruction for the other values
  uint64_t conc(Val v, unsigned w) {
    if (!v.e) return v.c;
    auto it = st->known.find(v.e->id); if (it != st->known.end()) return it->second;
    uint64_t x = (uint64_t)evalExpr(v.e, st->model);
    Expr *eq = mkCmp(OP_EQ, v.e, mkConst(x, w)); Assign m;
    if (sat(mkNot(eq), &m) == Sat::SAT) {
      if (st->known.size() > gMaxConc) end(2, "too many concretisations in " + fr->f->dem);
      SP n = cloneState(); n->model = std::move(m);
      State *s0 = st; st = n.get(); sync(); addPC(mkNot(eq)); st = s0; sync();
      WL->push_back(std::move(n));
    }
    addPC(eq); st->known[v.e->id] = x; return x;
  }
  // ---- memory
  void chk(uint64_t a, uint64_t n) { if (a < GLOB_BASE || a + n > ADDR_MAX || (a >= HEAP_BASE && a + n > st->heap)) { char b[96]; snprintf(b, 96, "invalid memory access at 0x%lx size %lu", (long)a, (long)n); end(2, str(b) + " in " + fr->f->dem); } }
  Val load(uint64_t a, unsigned w) {
    unsigned nb = (w + 7) / 8; chk(a, nb);
    if (w <= 64 && (a & (PS - 1)) + nb <= PS) {
      const Page *p = st->mem.rd(a); if (!p) return CV(0);
      unsigned o = a & (PS - 1); bool sym = false;
      if (p->s) for (unsigned i = 0; i < nb; i++) if (p->s[o + i]) { sym = true; break; }
      if (!sym) { uint64_t v = 0; memcpy(&v, p->d + o, nb); return CV(v & m64(w)); }
    }
    Expr *e = st->mem.exprAt(a);
    for (unsigned i = 1; i < nb; i++) e = mkConcat(st->mem.exprAt(a + i), e);
    if (e->w > w) e = mkExtract(e, 0, w);
    return EV(e);
  }
  void store(uint64_t a, unsigned w, Val v) {
    unsigned nb = (w + 7) / 8; chk(a, nb);
    if (!v.e) { uint64_t x = v.c & m64(w); if (uint8_t *p = st->mem.wrC(a, nb)) memcpy(p, &x, nb); else st->mem.writeC(a, (uint8_t *)&x, nb); return; }
    Expr *e = v.e; if (e->w < nb * 8) e = mkZExt(e, nb * 8);
    for (unsigned i = 0; i < nb; i++) st->mem.setSym(a + i, mkExtract(e, 8 * i, 8));
  }
  // feasible values of a symbolic address
  void enumVals(Expr *e, unsigned lim, std::vector<uint64_t> &vs) {
    Expr *ex = mkConst(1, 1); uint64_t v0 = evalExpr(e, st->model); vs.push_back(v0); ex = mkNot(mkCmp(OP_EQ, e, mkConst(v0, e->w)));
    for (;;) { Assign m; if (sat(ex, &m) != Sat::SAT) return; uint64_t v = evalExpr(e, m); vs.push_back(v); if (vs.size() > lim) end(2, "symbolic address with too many values in " + fr->f->dem); ex = mkBin(OP_AND, ex, mkNot(mkCmp(OP_EQ, e, mkConst(v, e->w)))); }
  }
  Val loadAny(Val p, uint32_t off, unsigned w) {
    if (!p.e) return load(p.c + off, w);
    auto it = st->known.find(p.e->id); if (it != st->known.end()) return load(it->second + off, w);
    std::vector<uint64_t> vs; enumVals(p.e, 300, vs); std::sort(vs.begin(), vs.end());
    if (vs.size() == 1) { st->known[p.e->id] = vs[0]; return load(vs[0] + off, w); }
    Expr *r = toE(load(vs.back() + off, w), w);
    for (int i = (int)vs.size() - 2; i >= 0; i--) r = mkIte(mkCmp(OP_EQ, p.e, mkConst(vs[i], 64)), toE(load(vs[i] + off, w), w), r);
    return EV(r);
  }
  str cstr(uint64_t p, uint64_t n) { str s(n, 0); st->mem.readC(p, (uint8_t *)&s[0], n); return s; }
  uint64_t halloc(uint64_t sz, uint64_t al) { if (al < 16) al = 16; uint64_t a = (st->heap + 16 + al - 1) & ~(al - 1); if (sz > 512 << 20 || a + sz + 64 > ADDR_MAX) end(2, "heap exhausted / huge allocation"); st->heap = (a + sz + 15) & ~15ULL; uint64_t x = sz; st->mem.writeC(a - 16, (uint8_t *)&x, 8); return a; }
  uint64_t hsize(uint64_t a) { uint64_t x; st->mem.readC(a - 16, (uint8_t *)&x, 8); return x; }
  void hzero(uint64_t a, uint64_t n) { std::vector<uint8_t> z(n, 0); st->mem.writeC(a, z.data(), n); }
  // ---- arithmetic
  Val bin(Op op, Val a, Val b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
      uint64_t m = m64(w), x = a.c, y = b.c;
      switch (op) {
      case OP_ADD: return CV((x + y) & m); case OP_SUB: return CV((x - y) & m); case OP_MUL: return CV((x * y) & m); case OP_AND: return CV(x & y); case OP_OR: return CV(x | y); case OP_XOR: return CV(x ^ y);
      case OP_SHL: return CV(y >= w ? 0 : (x << y) & m); case OP_LSHR: return CV(y >= w ? 0 : x >> y);
      default: return CV((uint64_t)foldBin(op, x, y, w));
      }
    }
    return EV(mkBin(op, toE(a, w), toE(b, w)));
  }
  Val cmp(int s, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) {
      uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)(w >= 64 ? x : (x << (64 - w))), sy = (int64_t)(w >= 64 ? y : (y << (64 - w)));
      switch (s) { case CS_EQ: return CV(x == y); case CS_NE: return CV(x != y); case CS_ULT: return CV(x < y); case CS_ULE: return CV(x <= y); case CS_UGT: return CV(x > y); case CS_UGE: return CV(x >= y); case CS_SLT: return CV(sx < sy); case CS_SLE: return CV(sx <= sy); case CS_SGT: return CV(sx > sy); default: return CV(sx >= sy); }
    }
    Expr *p = toE(a, w), *q = toE(b, w);
    switch (s) { case CS_EQ: return EV(mkCmp(OP_EQ, p, q)); case CS_NE: return EV(mkNot(mkCmp(OP_EQ, p, q))); case CS_ULT: return EV(mkCmp(OP_ULT, p, q)); case CS_ULE: return EV(mkCmp(OP_ULE, p, q)); case CS_UGT: return EV(mkCmp(OP_ULT, q, p)); case CS_UGE: return EV(mkCmp(OP_ULE, q, p)); case CS_SLT: return EV(mkCmp(OP_SLT, p, q)); case CS_SLE: return EV(mkCmp(OP_SLE, p, q)); case CS_SGT: return EV(mkCmp(OP_SLT, q, p)); default: return EV(mkCmp(OP_SLE, q, p)); }
  }
  Val sel(Val c, Val a, Val b, unsigned w) { if (!c.e) return c.c ? a : b; return EV(mkIte(c.e, toE(a, w), toE(b, w))); }
  // ---- control
  void takeEdge(int32_t id) {
    const Edge &E = fr->f->edges[id];
    if (E.mv.size() == 1) { auto &m = E.mv[0]; if (m.n == 1) R[m.dst] = get(m.src); else { Val t[64]; if (m.n > 64) fail("phi"); for (uint32_t i = 0; i < m.n; i++) t[i] = get(m.src, i); for (uint32_t i = 0; i < m.n; i++) R[m.dst + i] = t[i]; } }
    else if (!E.mv.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto &m : E.mv) for (uint32_t i = 0; i < m.n; i++) tmp.push_back(get(m.src, i)); size_t k = 0; for (auto &m : E.mv) for (uint32_t i = 0; i < m.n; i++) R[m.dst + i] = tmp[k++]; }
    fr->pc = E.pc;
  }
  void pushFrame(FnInfo *f, const std::vector<Val> &args, int32_t retDst, uint32_t retN, int32_t retEdge) {
    Thread &t = st->th[st->cur]; if (t.st.size() > 900) end(2, "call depth");
    t.st.emplace_back(); Frame &n = t.st.back(); n.f = f; n.pc = 0; n.sp = t.sp; n.retDst = retDst; n.retN = retN; n.retEdge = retEdge; n.R.resize(f->nslots, CV(0));
    size_t k = 0; for (auto &p : f->params) for (uint32_t i = 0; i < p.second; i++) { if (k < args.size()) n.R[p.first + i] = args[k++]; }
    f->calls++; sync();
  }
  str stack() { str s; auto &t = st->th[st->cur].st; int n = 0; for (int i = (int)t.size() - 1; i >= 0 && n < 24; i--, n++) { if (n) s += " < "; s += t[i].f->dem; } return s; }
  str inputsJson(const Assign &m) { str s = "["; bool f = true; for (auto &i : st->ins) { if (!f) s += ","; f = false; uint64_t v = (i.var < m.size() ? m[i.var] : 0) & m64(i.w); s += "[" + jesc(i.name) + "," + std::to_string(i.w) + "," + std::to_string(v) + "]"; } return s + "]"; }
  str schedJson() { str s = "["; for (size_t i = 0; i < st->sched.size(); i++) { if (i) s += ","; s += std::to_string(st->sched[i]); } return s + "]"; }
  void violation(const str &kind, const str &id, const Assign &m, const str &info) {
    bool known = gKnown.count(id);
    static std::map<str, int> cnt; int c = cnt[kind + id]++;
    if (c < 3) { emit("{\"t\":\"viol\",\"kind\":" + jesc(kind) + ",\"id\":" + jesc(id) + ",\"info\":" + jesc(info) + ",\"stack\":" + jesc(stack()) + ",\"inputs\":" + inputsJson(m) + ",\"sched\":" + schedJson() + "}"); fflush(gOut); }
    if (!known) { SH->viols++; SH->stop = 1; }
  }
  Ret call(FnInfo *f, Inst &in, const std::vector<Val> &args);
  Ret builtin(FnInfo *f, Inst &in, const std::vector<Val> &a);
  Ret intr(Inst &in);
  void retv(Inst &in, Val v, unsigned i = 0) { if (in.dst >= 0) R[in.dst + i] = v; }
  Ret advance(Inst &in) { if (in.eNorm >= 0) takeEdge(in.eNorm); else fr->pc++; return CONT; }
  // byte-range equality / ordering
  Expr *memEq(uint64_t a, uint64_t b, uint64_t n) {
    Expr *r = mkConst(1, 1); uint64_t i = 0;
    while (i < n) { unsigned k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1; Val x = load(a + i, k * 8), y = load(b + i, k * 8); Expr *e = toE(cmp(CS_EQ, x, y, k * 8), 1); if (isFalse(e)) return e; r = mkBin(OP_AND, r, e); i += k; }
    return r;
  }
  Val memCmp(uint64_t a, uint64_t b, uint64_t n) {
    if (!st->mem.anySym(a, n) && !st->mem.anySym(b, n)) { for (uint64_t i = 0; i < n; i++) { int x = st->mem.byteAt(a + i), y = st->mem.byteAt(b + i); if (x != y) return CV((uint32_t)(x < y ? -1 : 1)); } return CV(0); }
    Expr *r = mkConst(0, 32); std::vector<std::pair<uint64_t, unsigned>> ch; uint64_t i = 0;
    while (i < n) { unsigned k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1; ch.push_back({i, k}); i += k; }
    for (int j = (int)ch.size() - 1; j >= 0; j--) {
      unsigned k = ch[j].second; auto be = [&](uint64_t p) { Expr *e = st->mem.exprAt(p); for (unsigned q = 1; q < k; q++) e = mkConcat(e, st->mem.exprAt(p + q)); return e; };
      Expr *x = toE(load(a + ch[j].first, 8 * k), 8 * k), *y = toE(load(b + ch[j].first, 8 * k), 8 * k);
      r = mkIte(mkCmp(OP_EQ, x, y), r, mkIte(mkCmp(OP_ULT, be(a + ch[j].first), be(b + ch[j].first)), mkConst(0xffffffff, 32), mkConst(1, 32)));
    }
    return EV(r);
  }
  void memcpyV(Val d, Val s, Val n) {
    uint64_t len = conc(n, 64); if (!len) return; uint64_t dd = conc(d, 64);
    if (s.e) { // symbolic source: bytewise ite
      uint64_t ss = conc(s, 64); chk(ss, len); chk(dd, len); st->mem.copy(dd, ss, len); return; }
    chk(dd, len); chk(s.c, len); st->mem.copy(dd, s.c, len);
  }
  void memsetV(Val d, Val v, Val n) {
    uint64_t len = conc(n, 64), dd = conc(d, 64); if (!len) return; chk(dd, len);
    if (v.e) { for (uint64_t i = 0; i < len; i++) st->mem.setSym(dd + i, v.e); return; }
    while (len) { uint64_t k = std::min<uint64_t>(len, PS - (dd & (PS - 1))); memset(st->mem.wrC(dd, k), (int)v.c, k); dd += k; len -= k; }
  }
  void runnable(std::vector<int> &r) { for (size_t i = 0; i < st->th.size(); i++) { auto &t = st->th[i]; if (t.stat == T_RUN) r.push_back(i); else if (t.stat == T_JOIN && st->th[t.waitAddr].stat == T_DONE) r.push_back(i); } }
  void switchTo(int i) { st->cur = i; auto &t = st->th[i]; if (t.stat == T_JOIN) t.stat = T_RUN; st->sched.push_back(i); sync(); }
  // blocking switch: current thread cannot run
  Ret block();
  bool schedPoint();
  void yieldPoint();
  void initConstInto(uint64_t p, const Constant *c) { gInitMem = &st->mem; try { initConst(p, c); } catch (...) { gInitMem = &gBase; throw; } gInitMem = &gBase; }
  void step();
  void run();
  void finish();
};
#include "builtins.inc"

Ret Exec::call(FnInfo *f, Inst &in, const std::vector<Val> &args) {
  if (!f->decoded) decodeFn(f);
  if (f->builtin) return builtin(f, in, args);
  pushFrame(f, args, in.dst, in.n, in.eNorm);
  return SWITCHED;
}
static double asD(uint64_t c, unsigned w) { if (w == 32) { uint32_t x = c; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t c; memcpy(&c, &d, 8); return c; }

void Exec::run() {
  sync();
  std::vector<Val> args;
  for (;;) {
    Inst &in = fr->f->code[fr->pc];
    gInstr++;
    if ((++st->steps & 0xfff) == 0) {
      if (st->steps > gMaxSteps) end(2, "step limit in " + fr->f->dem);
      if (SH->stop.load()) end(3, "stopped");
      if (now() > gDeadline) { SH->incomplete = 1; SH->stop = 2; end(3, "deadline"); }
      if ((st->steps & 0xffff) == 0) { while (tryOffload()) {} }
    }
    switch (in.op) {
    case I_BIN:
      if (in.n == 1) R[in.dst] = bin((Op)in.sub, get(in.a), get(in.b), in.w);
      else for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = bin((Op)in.sub, get(in.a, i), get(in.b, i), in.w);
      fr->pc++; break;
    case I_CMP:
      if (in.n == 1) R[in.dst] = cmp(in.sub, get(in.a), get(in.b), in.w);
      else for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = cmp(in.sub, get(in.a, i), get(in.b, i), in.w);
      fr->pc++; break;
    case I_ZEXT: for (uint32_t i = 0; i < in.n; i++) { Val v = get(in.a, i); R[in.dst + i] = (!v.e && in.w <= 64) ? v : EV(mkZExt(toE(v, in.w2), in.w)); } fr->pc++; break;
    case I_SEXT: for (uint32_t i = 0; i < in.n; i++) { Val v = get(in.a, i); if (!v.e && in.w <= 64) R[in.dst + i] = CV((uint64_t)sextw(v.c, in.w2) & m64(in.w)); else R[in.dst + i] = EV(mkSExt(toE(v, in.w2), in.w)); } fr->pc++; break;
    case I_TRUNC: for (uint32_t i = 0; i < in.n; i++) { Val v = get(in.a, i); R[in.dst + i] = v.e ? EV(mkExtract(v.e, 0, in.w)) : CV(v.c & m64(in.w)); } fr->pc++; break;
    case I_MOV: if (in.n == 1) R[in.dst] = get(in.a); else { for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = get(in.a, i); } fr->pc++; break;
    case I_BITCAST: { // in groups of at most 128 bits
      uint32_t total = in.n * in.w, g = total <= 128 ? total : std::max<uint32_t>(in.w, in.w2), na = g / in.w, nb = g / in.w2; std::vector<Val> src; for (uint32_t i = 0; i < in.n; i++) src.push_back(get(in.a, i));
      for (uint32_t k = 0; k < total / g; k++) {
        Expr *e = toE(src[k * na], in.w); for (uint32_t i = 1; i < na; i++) e = mkConcat(toE(src[k * na + i], in.w), e);
        for (uint32_t i = 0; i < nb; i++) R[in.dst + k * nb + i] = EV(mkExtract(e, i * in.w2, in.w2));
      }
      fr->pc++; break; }
    case I_INSVAL: { Val tmp[64]; uint32_t N = in.imm; if (N > 64) { for (uint32_t i = 0; i < N; i++) R[in.dst + i] = get(in.a, i); for (uint32_t i = 0; i < in.n; i++) R[in.dst + in.c + i] = get(in.b, i); fr->pc++; break; }
      for (uint32_t i = 0; i < N; i++) tmp[i] = get(in.a, i); for (uint32_t i = 0; i < in.n; i++) tmp[in.c + i] = get(in.b, i); for (uint32_t i = 0; i < N; i++) R[in.dst + i] = tmp[i]; fr->pc++; break; }
    case I_GEP: {
      Val p = get(in.a); uint64_t off = in.imm; bool sym = p.e != nullptr; Expr *se = nullptr;
      for (auto &g : in.gs) { Val v = get(g.slot); if (!v.e) off += (uint64_t)((int64_t)sextw(v.c, g.w) * g.scale); else { Expr *x = g.w < 64 ? mkSExt(v.e, 64) : v.e; x = mkBin(OP_MUL, x, mkConst((u128)(uint64_t)g.scale, 64)); se = se ? mkBin(OP_ADD, se, x) : x; sym = true; } }
      if (!sym) R[in.dst] = CV(p.c + off);
      else { Expr *e = toE(p, 64); if (se) e = mkBin(OP_ADD, e, se); R[in.dst] = EV(mkBin(OP_ADD, e, mkConst(off, 64))); }
      fr->pc++; break; }
    case I_LOAD: {
      Val p = get(in.a);
      if (in.sub && gFine && schedPoint()) continue;
      if (!p.e && in.n == 1) R[in.dst] = load(p.c, (*in.leaves)[0].w);
      else { std::vector<Val> t(in.n); for (uint32_t i = 0; i < in.n; i++) t[i] = loadAny(p, (*in.leaves)[i].off, (*in.leaves)[i].w); for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = t[i]; }
      fr->pc++; break; }
    case I_STORE: {
      if (in.sub && gFine && schedPoint()) continue;
      uint64_t a = conc(get(in.a), 64);
      for (uint32_t i = 0; i < in.n; i++) store(a + (*in.leaves)[i].off, (*in.leaves)[i].w, get(in.b, i));
      fr->pc++; break; }
    case I_ALLOCA: { Thread &t = st->th[st->cur]; uint64_t al = std::max<uint64_t>(16, in.b); uint64_t a = (t.sp + al - 1) & ~(al - 1); t.sp = a + in.imm; if (t.sp >= STACK_BASE + (uint64_t)(st->cur + 1) * STACK_SZ) end(2, "stack overflow"); R[in.dst] = CV(a); fr->pc++; break; }
    case I_BR: takeEdge(in.b); break;
    case I_CBR: {
      Val c = get(in.a);
      if (!c.e) { takeEdge(c.c & 1 ? in.b : in.c); break; }
      size_t before = WL->size();
      bool d = branch(c.e, [&](bool o) { takeEdge(o ? in.b : in.c); });
      takeEdge(d ? in.b : in.c);
      if (WL->size() != before) while (tryOffload()) {}
      break; }
    case I_SWITCH: {
      Val v = get(in.a);
      if (!v.e) { int32_t e = in.b; for (auto &c : in.cases) if ((uint64_t)c.first == v.c) { e = c.second; break; } takeEdge(e); break; }
      // group by target
      std::map<int32_t, Expr *> g; Expr *def = mkConst(1, 1);
      for (auto &c : in.cases) { Expr *q = mkCmp(OP_EQ, v.e, mkConst(c.first, in.w)); auto it = g.find(c.second); if (it == g.end()) g[c.second] = q; else it->second = mkBin(OP_OR, it->second, q); def = mkBin(OP_AND, def, mkNot(q)); }
      { auto it = g.find(in.b); if (it == g.end()) g[in.b] = def; else it->second = mkBin(OP_OR, it->second, def); }
      int32_t mine = -1; Expr *mc = nullptr;
      for (auto &kv : g) {
        if (isFalse(kv.second)) continue;
        if (mine < 0 && evalExpr(kv.second, st->model)) { mine = kv.first; mc = kv.second; continue; }
        Assign m; if (sat(kv.second, &m) == Sat::SAT) { SP n = cloneState(); n->model = std::move(m); State *s0 = st; st = n.get(); sync(); addPC(kv.second); takeEdge(kv.first); st = s0; sync(); WL->push_back(std::move(n)); }
      }
      addPC(mc); takeEdge(mine); while (tryOffload()) {}
      break; }
    case I_RET: {
      Thread &t = st->th[st->cur]; std::vector<Val> rv(in.n); for (uint32_t i = 0; i < in.n; i++) rv[i] = get(in.a, i);
      t.sp = fr->sp; int32_t rd = fr->retDst, re = fr->retEdge; int special = fr->special; t.st.pop_back();
      if (t.st.empty()) { if (st->cur == 0 && !special) { finish(); return; } t.stat = T_DONE; if (in.n) t.ret = rv[0]; if (block() == DEAD) return; continue; }
      sync(); if (rd >= 0) for (uint32_t i = 0; i < rv.size(); i++) R[rd + i] = rv[i];
      if (re >= 0) takeEdge(re); else fr->pc++;
      break; }
    case I_CALL: case I_ICALL: {
      args.clear(); for (size_t i = 0; i < in.xs.size(); i++) for (uint32_t k = 0; k < in.xn[i]; k++) args.push_back(get(in.xs[i], k));
      FnInfo *f = in.callee;
      if (in.op == I_ICALL) { uint64_t a = conc(get(in.a), 64); uint64_t ix = (a - FN_BASE) / 16; if (a < FN_BASE || ix >= gFnByAddr.size() || (a & 15)) end(2, "bad function pointer in " + fr->f->dem); f = gFnByAddr[ix]; }
      call(f, in, args);
      break; }
    case I_INTR: intr(in); break;
    case I_SELECT:
      if (in.n == 1) { R[in.dst] = sel(get(in.a), get(in.b), get(in.c), (*in.leaves)[0].w); }
      else { std::vector<Val> t(in.n); for (uint32_t i = 0; i < in.n; i++) t[i] = sel(get(in.a, in.sub ? i : 0), get(in.b, i), get(in.c, i), (*in.leaves)[i].w); for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = t[i]; }
      fr->pc++; break;
    case I_EXTELT: { uint64_t i = conc(get(in.b), 64); R[in.dst] = i < in.n ? get(in.a, i) : CV(0); fr->pc++; break; }
    case I_INSELT: { uint64_t x = conc(get(in.c), 64); std::vector<Val> t(in.n); for (uint32_t i = 0; i < in.n; i++) t[i] = get(in.a, i); if (x < in.n) t[x] = get(in.b); for (uint32_t i = 0; i < in.n; i++) R[in.dst + i] = t[i]; fr->pc++; break; }
    case I_SHUF: { std::vector<Val> t(in.xs.size()); for (size_t i = 0; i < in.xs.size(); i++) { int m = in.xs[i]; t[i] = m < 0 ? CV(0) : (uint32_t)m < in.n ? get(in.a, m) : get(in.b, m - in.n); } for (size_t i = 0; i < t.size(); i++) R[in.dst + i] = t[i]; fr->pc++; break; }
    case I_RMW: {
      if ((gFine || (in.w == 32 && in.sub == AtomicRMWInst::Add)) && schedPoint()) continue;
      uint64_t a = conc(get(in.a), 64); Val o = load(a, in.w), v = get(in.b), n; unsigned w = in.w;
      switch (in.sub) {
      case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = bin(OP_ADD, o, v, w); break; case AtomicRMWInst::Sub: n = bin(OP_SUB, o, v, w); break; case AtomicRMWInst::And: n = bin(OP_AND, o, v, w); break; case AtomicRMWInst::Or: n = bin(OP_OR, o, v, w); break; case AtomicRMWInst::Xor: n = bin(OP_XOR, o, v, w); break;
      case AtomicRMWInst::UMax: n = sel(cmp(CS_UGT, o, v, w), o, v, w); break; case AtomicRMWInst::UMin: n = sel(cmp(CS_ULT, o, v, w), o, v, w); break; case AtomicRMWInst::Max: n = sel(cmp(CS_SGT, o, v, w), o, v, w); break; case AtomicRMWInst::Min: n = sel(cmp(CS_SLT, o, v, w), o, v, w); break;
      default: fail("rmw op"); }
      store(a, w, n); R[in.dst] = o; fr->pc++; break; }
    case I_CMPXCHG: {
      if (schedPoint()) continue;
      uint64_t a = conc(get(in.a), 64); Val o = load(a, in.w); Val eq = cmp(CS_EQ, o, get(in.b), in.w); Val nv = get(in.c);
      store(a, in.w, sel(eq, nv, o, in.w)); R[in.dst] = o; R[in.dst + 1] = eq; fr->pc++; break; }
    case I_FOP: for (uint32_t i = 0; i < in.n; i++) { Val a = get(in.a, i), b = get(in.b, i); if (a.e || b.e) end(2, "symbolic float"); double x = asD(a.c, in.w), y = asD(b.c, in.w), r; switch (in.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } R[in.dst + i] = CV(fromD(r, in.w)); } fr->pc++; break;
    case I_FNEG: for (uint32_t i = 0; i < in.n; i++) { Val a = get(in.a, i); if (a.e) end(2, "symbolic float"); R[in.dst + i] = CV(fromD(-asD(a.c, in.w), in.w)); } fr->pc++; break;
    case I_FCMP: for (uint32_t i = 0; i < in.n; i++) { Val a = get(in.a, i), b = get(in.b, i); if (a.e || b.e) end(2, "symbolic float"); double x = asD(a.c, in.w), y = asD(b.c, in.w); bool un = std::isnan(x) || std::isnan(y); bool r = false; int p = in.sub; bool base = (p & 1 && x == y) || (p & 2 && x > y) || (p & 4 && x < y); r = un ? (p & 8) != 0 : base; R[in.dst + i] = CV(r); } fr->pc++; break;
    case I_FCAST: for (uint32_t i = 0; i < in.n; i++) { Val a = get(in.a, i); if (a.e) end(2, "symbolic float"); uint64_t r; switch (in.sub) { case Instruction::FPToUI: r = (uint64_t)asD(a.c, in.w2); break; case Instruction::FPToSI: r = (uint64_t)(int64_t)asD(a.c, in.w2); break; case Instruction::UIToFP: r = fromD((double)a.c, in.w); break; case Instruction::SIToFP: r = fromD((double)(int64_t)sextw(a.c, in.w2), in.w); break; default: r = fromD(asD(a.c, in.w2), in.w); } R[in.dst + i] = CV(r & m64(in.w)); } fr->pc++; break;
    case I_UNREACH: end(2, "unreachable executed in " + fr->f->dem);
    case I_UNSUP: end(2, "unsupported instruction (" + in.msg + ") in " + fr->f->dem);
    default: end(2, "bad op");
    }
  }
}
void Exec::finish() {
  // completed path: record a sample with its model
  uint64_t n = SH->paths.load();
  uint64_t k = std::max<uint64_t>(1, n / gMaxRec);
  if (n % k == 0 && SH->recorded.fetch_add(1) < gMaxRec * 8) {
    str s = "{\"t\":\"path\",\"inputs\":" + inputsJson(st->model) + ",\"sched\":" + schedJson() + ",\"obs\":[";
    bool f = true; for (auto &o : st->obs) { if (!f) s += ","; f = false; uint64_t v = o.second.e ? (uint64_t)evalExpr(o.second.e, st->model) : o.second.c; s += "[" + jesc(gObsNames[o.first]) + "," + std::to_string(v) + "]"; }
    emit(s + "]}");
  }
  end(0, "");
}
static void flushStats() {
  SH->instrs += gInstr; SH->forks += gForks; SH->queries += gSS.queries; SH->z3calls += gSS.z3calls; SH->cacheHits += gSS.cacheHits; SH->modelHits += gSS.modelHits; SH->z3us += (uint64_t)(gSS.z3time * 1e6); SH->sat += gSS.sat; SH->unsat += gSS.unsat; SH->unknown += gSS.unknown; SH->procs++;
  for (auto &r : gReach) emit("{\"t\":\"reach\",\"id\":" + jesc(r.first) + ",\"n\":" + std::to_string(r.second) + "}");
  for (auto &r : gCheckCnt) emit("{\"t\":\"check\",\"id\":" + jesc(r.first) + ",\"n\":" + std::to_string(r.second.first) + ",\"sym\":" + std::to_string(r.second.second) + "}");
  str s = "{\"t\":\"fns\",\"names\":["; bool f = true; for (auto fi : gFnByAddr) if (fi->calls && !fi->builtin) { if (!f) s += ","; f = false; s += jesc(fi->dem); } emit(s + "]}");
  fclose(gOut);
}
static void runAll(const str &harness) {
  // main loop with process-level parallelism
  bool child = false;
  std::deque<SP> wl; WL = &wl;
  FnInfo *f = nullptr; auto g = lookupDef(harness); if (!g) { fprintf(stderr, "no harness %s\n", harness.c_str()); _exit(3); }
  f = fnInfo(cast<Function>(aliasee(g))); try { decodeFn(f); } catch (EngineErr &e) { fprintf(stderr, "decode: %s\n", e.m.c_str()); _exit(3); }
  if (f->builtin) { fprintf(stderr, "harness %s is a declaration\n", harness.c_str()); _exit(3); }
  SP s0(new State()); s0->th.emplace_back(); s0->th[0].sp = STACK_BASE + 4096; s0->th[0].pthread = 0x7001;;
  { Exec ex; ex.st = s0.get(); ex.pushFrame(f, {}, -1, 0, -1); }
  wl.push_back(std::move(s0)); gRunning = true;
  while (true) {
    if (wl.empty() || SH->stop.load()) break;
    SP s = std::move(wl.back()); wl.pop_back();
    Exec ex; ex.st = s.get();
    try { ex.run(); }
    catch (PathEnd &p) {
      if (p.kind == 0) SH->paths++; else if (p.kind == 1) SH->assumed++; else if (p.kind == 3) { }
      else { SH->errors++; if (gErrSeen.size() < 20 && gErrSeen.insert(p.msg).second) { emit("{\"t\":\"err\",\"msg\":" + jesc(p.msg) + ",\"stack\":" + jesc(ex.stack()) + ",\"inputs\":" + ex.inputsJson(ex.st->model) + "}"); } }
      if (s->depth > SH->maxdepth) SH->maxdepth = s->depth;
    }
    catch (EngineErr &e) { SH->errors++; if (gErrSeen.insert(e.m).second) emit("{\"t\":\"err\",\"msg\":" + jesc(e.m) + ",\"stack\":" + jesc(ex.stack()) + "}"); }
    catch (int) {
      // we are a new worker process: keep only the oldest pending state
      SP keep = std::move(wl.front()); wl.clear(); wl.push_back(std::move(keep)); child = true;
      gInstr = gForks = 0; gSS = SolverStats(); gReach.clear(); gCheckCnt.clear(); for (auto fi : gFnByAddr) fi->calls = 0; gErrSeen.clear();
      gOut = fopen((gOutDir + "/w" + std::to_string(getpid()) + ".jsonl").c_str(), "w");
      (void)s.release();   // avoid freeing shared structures' copies needlessly
    }
  }
  flushStats();
  SH->workers--;
  if (child) _exit(0);
  for (;;) { int stt; pid_t p = waitpid(-1, &stt, 0); if (p < 0) { if (errno == ECHILD) break; if (errno == EINTR) continue; break; } if (WIFSIGNALED(stt) || (WIFEXITED(stt) && WEXITSTATUS(stt) != 0)) { SH->errors++; fprintf(stderr, "worker died: status %x\n", stt); SH->incomplete = 1; } }
}
static void buildIndex(const str &out, const std::vector<str> &files) {
  std::ofstream o(out);
  for (auto &p : files) {
    auto mb = MemoryBuffer::getFile(p); if (!mb) continue;
    auto m = getOwningLazyBitcodeModule(std::move(*mb), *CTX, true, false); if (!m) { consumeError(m.takeError()); fprintf(stderr, "skip %s\n", p.c_str()); continue; }
    for (auto &g : (*m)->global_values()) if (!g.isDeclaration() && !g.hasLocalLinkage() && !g.hasAvailableExternallyLinkage()) o << g.getName().str() << "\t" << p << "\n";
  }
}
int main(int argc, char **argv) {
  CTX = new LLVMContext(); str harness, index; std::vector<str> roots, files; double tl = 600; int jobs = 8; str mkidx;
  for (int i = 1; i < argc; i++) { str a = argv[i]; auto nx = [&] { return str(argv[++i]); };
    if (a == "--root") roots.push_back(nx()); else if (a == "--index") index = nx(); else if (a == "--harness") harness = nx(); else if (a == "--out") gOutDir = nx(); else if (a == "--time") tl = atof(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--known") gKnown.insert(nx()); else if (a == "--mkindex") mkidx = nx(); else if (a == "--steps") gMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--preempt") gPreempt = atoi(nx().c_str()); else if (a == "--fine") gFine = true; else if (a == "--iterseed") gIterSeed = atoi(nx().c_str()); else if (a == "--rec") gMaxRec = atoi(nx().c_str()); else if (a == "-v") gVerbose = true; else files.push_back(a); }
  if (!mkidx.empty()) { buildIndex(mkidx, files); return 0; }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (SH) Shared(); SH->workers = 1; SH->maxWorkers = jobs;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  double t0 = now(); gDeadline = t0 + tl;
  if (!index.empty()) { std::ifstream f(index); str l; while (std::getline(f, l)) { size_t t = l.find('\t'); if (t != str::npos) gIndex.emplace(l.substr(0, t), l.substr(t + 1)); } }
  for (auto &r : roots) loadModule(r);
  gOut = fopen((gOutDir + "/w" + std::to_string(getpid()) + ".jsonl").c_str(), "w"); if (!gOut) { perror("out"); return 3; }
  runAll(harness);
  FILE *s = fopen((gOutDir + "/summary.json").c_str(), "w");
  fprintf(s, "{\"harness\":\"%s\",\"paths\":%lu,\"assumed\":%lu,\"errors\":%lu,\"instrs\":%lu,\"forks\":%lu,\"queries\":%lu,\"z3calls\":%lu,\"cache_hits\":%lu,\"model_hits\":%lu,\"solver_s\":%.3f,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"viols\":%lu,\"procs\":%lu,\"maxdepth\":%lu,\"incomplete\":%lu,\"stop\":%d,\"wall_s\":%.3f,\"sched_forks\":%lu}\n", harness.c_str(), SH->paths.load(), SH->assumed.load(), SH->errors.load(), SH->instrs.load(), SH->forks.load(), SH->queries.load(), SH->z3calls.load(), SH->cacheHits.load(), SH->modelHits.load(), SH->z3us.load() / 1e6, SH->sat.load(), SH->unsat.load(), SH->unknown.load(), SH->viols.load(), SH->procs.load(), SH->maxdepth.load(), SH->incomplete.load(), SH->stop.load(), now() - t0, SH->schedForks.load());
  fclose(s); fflush(stdout); _exit(0);
}
