#pragma once
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <chrono>

struct Val { uint64_t c; Expr *e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }
inline Val EV(Expr *e) { if (e->op == OP_CONST && e->w <= 64) return Val{(uint64_t)e->c, nullptr}; return Val{0, e}; }
inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

enum IOp : uint16_t {
  I_UNSUP, I_BIN, I_CMP, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_BITCAST, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET,
  I_CALL, I_ICALL, I_INTR, I_SELECT, I_EXTELT, I_INSELT, I_SHUF, I_RMW, I_CMPXCHG, I_UNREACH, I_FOP, I_FCMP, I_FCAST, I_FREEZE, I_FENCE, I_INSVAL, I_FNEG,
};
struct Leaf { uint32_t off; uint16_t w; };
struct GepStep { int32_t slot; uint16_t w; int64_t scale; };
struct Inst {
  IOp op; uint16_t sub = 0; uint16_t w = 0, w2 = 0; uint32_t n = 1; int32_t dst = -1; int32_t a = 0, b = 0, c = 0; int64_t imm = 0;
  struct FnInfo *callee = nullptr;
  std::vector<int32_t> xs; std::vector<uint32_t> xn; const std::vector<Leaf> *leaves = nullptr; std::vector<GepStep> gs;
  std::vector<std::pair<u128, int32_t>> cases;
  llvm::Type *ty = nullptr; int32_t eNorm = -1; std::string msg;
};
struct Move { int32_t dst, src; uint32_t n; };
struct Edge { uint32_t pc; std::vector<Move> mv; };
struct FnInfo {
  llvm::Function *F = nullptr; std::string name, dem; uint64_t addr = 0; bool decoded = false, resolved = false; int builtin = 0;
  uint32_t nslots = 0; std::vector<Inst> code; std::vector<Val> consts; std::vector<std::pair<int32_t, uint32_t>> params; std::vector<Edge> edges; uint64_t calls = 0; bool isDecl = false; bool cold = false;
};
struct Frame { FnInfo *f; uint32_t pc; uint64_t sp; int32_t retDst; uint32_t retN; int32_t retEdge; std::vector<Val> R; int special = 0; };
enum TStat : uint8_t { T_RUN, T_FUTEX, T_JOIN, T_DONE };
struct Thread { std::vector<Frame> st; uint64_t sp; TStat stat = T_RUN; uint64_t waitAddr = 0; bool waitTimed = false, region = false; Val ret{0, nullptr}; std::map<const llvm::GlobalVariable *, uint64_t> tls; uint64_t pthread = 0; std::map<uint64_t, uint64_t> keys; int32_t timeoutDst = -1; };
struct SymIn { uint32_t var; std::string name; unsigned w; };
struct State {
  Mem mem; std::vector<Thread> th; int cur = 0; std::vector<Expr *> pc; Assign model; uint64_t heap = HEAP_BASE;
  std::vector<std::pair<uint32_t, Val>> obs; std::map<uint32_t, uint64_t> known; std::vector<SymIn> ins; uint64_t steps = 0; uint32_t depth = 0; uint64_t clock = 0; uint32_t rnd = 0;
  std::map<uint64_t, std::pair<std::string, Val>> namedCache; int preempt = 0; std::vector<uint8_t> sched; bool schedOn = false; bool skipYield = false; std::string ctx; uint64_t errnoAddr = 0, emptyStr = 0, nkeys = 0;
  State() {} State(const State &o) = default;
};
