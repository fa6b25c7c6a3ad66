// symx: a bounded symbolic executor for LLVM bitcode of the code under test.
// See DESIGN.md for what it decides and how.
#include <malloc.h>
#include "expr.hpp"
#include "solver.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <csignal>
#include <sys/resource.h>

using llvm::Function; using llvm::BasicBlock; using llvm::Instruction; using llvm::Value; using llvm::Constant; using llvm::Type;
using llvm::isa; using llvm::cast; using llvm::dyn_cast; using llvm::DenseMap;
using std::string; using std::vector;

static ExprCtx X;
static Solver *SV;
static Expr *const UNINIT = (Expr *)1;

struct Val { Expr *e = nullptr; u64 c = 0; };
static inline Val VC(u64 c) { Val v; v.c = c; return v; }
static inline Val VE(Expr *e) { Val v; if (e->k == K_CONST) v.c = e->val; else v.e = e; return v; }
static inline Expr *EX(const Val &v, unsigned w) { return v.e ? v.e : X.C(v.c, w); }

// ---------------------------------------------------------------- configuration
struct Config {
  double timeLimit = 600; u64 maxInstrPerPath = 40000000; u64 maxPaths = 10000000; unsigned muxLimit = 4096;
  int maxPreempt = 2; bool races = true; bool ifconv = true; bool verbose = false; size_t maxErrors = 24; size_t maxSamples = 8; size_t memLimitMB = 6000;
  bool stopOnError = false; u64 seed = 1; bool kindCheck = true;
} CFG;

// ---------------------------------------------------------------- memory
enum OKind : u8 { OK_GLOBAL, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_EXTERN, OK_EXC };
static const char *OKN[] = {"global", "stack", "malloc'd block", "new'd block", "new[]'d block", "external object", "exception object"};
struct Obj {
  int refs = 1; u32 size; OKind kind; bool freed = false, ro = false; u64 base; u8 *data; u8 *st = nullptr; Expr **sym = nullptr; u32 serial = 0;
  std::shared_ptr<struct Shadow> sh; std::shared_ptr<struct Lazy> lazy;
};
struct Lazy { Expr *v; int kind; u64 off; bool resize; }; // text of a number, produced when first read; kind 0 unsigned decimal, 1 signed decimal, 2 unknown text
static const int MAXT = 8; // threads the race detector can tell apart
struct Acc { int8_t wt = -1; bool watomic = false, ratomic = false; u8 nrd = 0; u32 wc = 0; u32 rc[MAXT] = {}; };
struct AccPage { Acc a[16]; };
struct Shadow { vector<std::shared_ptr<AccPage>> pg; Acc &at(u64 i) { if (i / 16 >= pg.size()) pg.resize(i / 16 + 1); auto &p = pg[i / 16]; if (!p) p = std::make_shared<AccPage>(); else if (p.use_count() > 1) p = std::make_shared<AccPage>(*p); return p->a[i % 16]; } };
static u64 liveObjBytes = 0;
static void derefObj(Obj *o) { if (--o->refs == 0) { liveObjBytes -= o->size; free(o->data); free(o->st); free(o->sym); delete o; } }
static Obj *cloneObj(Obj *o) {
  Obj *n = new Obj(*o); n->refs = 1; n->data = (u8 *)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size);
  if (o->st) { n->st = (u8 *)malloc(o->size ? o->size : 1); memcpy(n->st, o->st, o->size); }
  if (o->sym) { n->sym = (Expr **)malloc(sizeof(Expr *) * (o->size ? o->size : 1)); memcpy(n->sym, o->sym, sizeof(Expr *) * o->size); }
  n->sh = o->sh;
  liveObjBytes += n->size; return n;
}
static const u64 MBASE = 0x100000000000ULL; static const unsigned SLOTB = 20; static const unsigned CH = 128;
struct Chunk { int refs = 1; Obj *o[CH] = {}; };
struct Mem {
  vector<Chunk *> ch;
  Mem() {} Mem(const Mem &m) : ch(m.ch) { for (Chunk *c : ch) if (c) c->refs++; }
  ~Mem() { for (Chunk *c : ch) drop(c); }
  static void drop(Chunk *c) { if (c && --c->refs == 0) { for (Obj *o : c->o) if (o) derefObj(o); delete c; } }
  Obj *get(u64 slot) const { u64 ci = slot / CH; if (ci >= ch.size() || !ch[ci]) return nullptr; return ch[ci]->o[slot % CH]; }
  Chunk *own(u64 ci) {
    if (ci >= ch.size()) ch.resize(ci + 1, nullptr);
    Chunk *&c = ch[ci];
    if (!c) c = new Chunk(); else if (c->refs > 1) { Chunk *n = new Chunk(); memcpy(n->o, c->o, sizeof n->o); for (Obj *o : n->o) if (o) o->refs++; c->refs--; c = n; }
    return c;
  }
  void put(u64 slot, Obj *o) { Chunk *c = own(slot / CH); Obj *&r = c->o[slot % CH]; if (r) derefObj(r); r = o; }
  Obj *writable(u64 slot) { Chunk *c = own(slot / CH); Obj *&r = c->o[slot % CH]; if (r->refs > 1) { Obj *n = cloneObj(r); r->refs--; r = n; } return r; }
};

// ---------------------------------------------------------------- lowered code
enum Op : u16 {
  O_NOP, O_BIN /*aux=EK*/, O_ICMP /*aux=pred*/, O_FCMP, O_FNEG, O_CAST /*aux=opcode*/, O_SELECT, O_MOV, O_LDSLOT, O_STSLOT,
  O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_BR, O_CONDBR, O_SWITCH, O_RET, O_CALL, O_UNREACHABLE, O_LANDINGPAD, O_RESUME, O_COPYN, O_INSERTN,
  O_CMPXCHG, O_RMW, O_FENCE, O_FREEZE, O_VEXTRACT, O_VINSERT, O_UNSUPPORTED, O_INDIRECTBR
};
struct Ins { u16 op; u8 w = 0, w2 = 0; int dst = -1; int a = 0, b = 0, c = 0; u32 aux = 0; u32 n = 1; const Instruction *I = nullptr; };
struct GepInfo { i64 off; vector<std::tuple<int, unsigned, u64>> idx; };
struct CallArg { int op; unsigned n; Type *ty; };
struct CallInfo { const Function *callee = nullptr; int fop = 0; vector<CallArg> args; bool invoke = false; int normalBB = -1, unwindBB = -1; unsigned retN = 0; const llvm::CallBase *CB; int builtin = -1; struct FnInfo *target = nullptr; bool varargs = false; unsigned nfixed = 0; unsigned byvalMask = 0; };
struct SwitchInfo { vector<std::pair<u64, int>> cases; int def; };
struct LPad { vector<std::pair<int /*0 catch,1 filter*/, u64>> clauses; bool cleanup; };
struct Edge { vector<std::pair<int, int>> copies; };
struct Spec { bool tried = false, ok = false; int join = -1; vector<int> order; };
struct FnInfo {
  const Function *F; vector<Ins> code; vector<int> bbStart; vector<Val> consts; unsigned nslots = 0; vector<u8> slotW;
  vector<GepInfo> geps; vector<CallInfo> calls; vector<SwitchInfo> switches; vector<LPad> lpads;
  std::map<std::pair<int, int>, Edge> edges; vector<const BasicBlock *> bbs; vector<unsigned> argSlot, argN; bool hasPhi = false;
  string name, dem, file; u64 count = 0; bool lowered = false; vector<bool> covered; bool inRepo = false, sizeArg = false; vector<Spec> spec; int builtinAddr = -1;
};

// ---------------------------------------------------------------- state
struct Frame {
  FnInfo *fn; int ip = 0; int bb = 0; int prevbb = -1; vector<Val> L; vector<u64> stackSlots; int callIns = -1; // in caller
  u64 va = 0; int special = 0; // 1: destructor call made by __cxa_end_catch, 2: thread start routine, 3: global ctor / main
};
struct Caught { u64 exc; u64 adj; };
struct Thread {
  vector<Frame> st; bool done = false; int waitKind = 0; u64 waitObj = 0; u64 waitMtx = 0; // waitKind 1 mutex, 2 cond, 3 join, 4 timed cond, 5 timed mutex
  bool timedOut = false; bool notified = false; vector<Caught> caught; u64 curExc = 0; vector<u32> vc, pend, relF; int yields = 0; bool midOp = false; u64 spinAt = 0; int spins = 0, spinGiveUps = 0;
};
struct ExcInfo { u64 ti = 0, dtor = 0; int handlers = 0; u64 adj = 0; u64 size = 0; };
struct Input { string name; unsigned w; Expr *e; u64 c; };
struct Obs { string label; unsigned w; Val v; };
struct Subst { std::unordered_map<Expr *, u64> known; std::unordered_map<Expr *, Expr *> memo; VarSet vars; }; // facts e == constant implied by the path condition
struct State {
  std::shared_ptr<Subst> sub;
  Mem mem; vector<Thread> th; int cur = 0; vector<Expr *> pc; ModelP model; u64 nextSlot; u64 stackTop; vector<u64> freeStack; u64 instrs = 0; u32 id; u32 depth = 0;
  std::map<u64, ExcInfo> exc; vector<Input> inputs; vector<Obs> obs; i64 heapLive = 0; vector<string> reached; u32 serial = 0; int preempt = 0; bool schedOn = true;
  std::map<std::pair<int, u64>, u64> tls; // (thread, variable) -> its instance; the creator uses the variable itself
  std::map<u64, std::pair<int, int>> mtx; // mutex -> owner+1, count
  std::map<u64, vector<u32>> relClk; vector<std::pair<int,int>> schedule; bool approx = false; string approxWhy; u64 clock = 1600000000000000000ULL; bool justSwitched = false, raced = false; u32 syncCount = 0; u32 nUninit = 0; u64 heapPeak = 0; u32 phase = 0; bool completed = false; std::unordered_map<u64, u64> ufCache;
  Frame &fr() { return th[cur].st.back(); }
};
struct PathEnd { };
struct SwitchThread { };

// ---------------------------------------------------------------- results
struct ErrRec { string kind, label, loc, func, msg; vector<string> stack; vector<Input> inputs; vector<u64> values; vector<std::pair<int,int>> schedule; bool approx; vector<string> trace; };
static vector<ErrRec> errors; static std::map<string, int> errKeys;
static std::map<string, u64> assertChecked, reachedCount, unsupportedCount, bounds;
typedef int32_t i32;
static std::map<string, u64> assertProved;
static std::set<string> noteSet;
static u64 nPaths = 0, nForks = 0, nInstr = 0, nKilled = 0, nAssertQ = 0, nErrPaths = 0, nUnknownBranch = 0, nBoundHit = 0, nMaxStates = 0, nSpecOk = 0, nSpecFail = 0, nSchedPoints = 0;
struct Sample { vector<Input> inputs; vector<u64> values; vector<std::pair<string, u64>> obs; vector<std::pair<int,int>> schedule; };
static vector<Sample> samples; static u64 sampleSeen = 0;
static bool incomplete = false; static std::set<string> incompleteWhy;
static double T0;

static llvm::LLVMContext LC; static std::unique_ptr<llvm::Module> M; static const llvm::DataLayout *DL;
static std::unordered_map<const Function *, FnInfo *> fnInfos; static std::unordered_map<string, FnInfo *> fnByName; static vector<FnInfo *> fnList;
static const u64 FBASE = 0x200000000000ULL;
static DenseMap<const llvm::GlobalValue *, u64> gaddr; static std::unordered_map<u64, const llvm::GlobalVariable *> gvByAddr; static std::unordered_map<u64, string> externName;
static vector<State *> work; static u32 nextStateId = 1;
static u64 rngState = 88172645463325252ULL; static u64 rnd() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }

static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80; return 0;
}
static unsigned flatN(Type *t) {
  if (auto *s = dyn_cast<llvm::StructType>(t)) { unsigned n = 0; for (Type *e : s->elements()) n += flatN(e); return n; }
  if (auto *a = dyn_cast<llvm::ArrayType>(t)) return a->getNumElements() * flatN(a->getElementType());
  if (auto *v = dyn_cast<llvm::FixedVectorType>(t)) return v->getNumElements();
  if (t->isVoidTy()) return 0; return 1;
}
static void flatTypes(Type *t, vector<std::pair<Type *, u64>> &out, u64 off) {
  if (auto *s = dyn_cast<llvm::StructType>(t)) { auto *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatTypes(s->getElementType(i), out, off + sl->getElementOffset(i)); return; }
  if (auto *a = dyn_cast<llvm::ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatTypes(a->getElementType(), out, off + i * es); return; }
  if (auto *v = dyn_cast<llvm::FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); i++) out.push_back({v->getElementType(), off + i * es}); return; }
  if (t->isVoidTy()) return; out.push_back({t, off});
}
static unsigned flatIndex(Type *t, llvm::ArrayRef<unsigned> idx) {
  unsigned r = 0;
  for (unsigned i : idx) {
    if (auto *s = dyn_cast<llvm::StructType>(t)) { for (unsigned k = 0; k < i; k++) r += flatN(s->getElementType(k)); t = s->getElementType(i); }
    else { Type *e = cast<llvm::ArrayType>(t)->getElementType(); r += i * flatN(e); t = e; }
  }
  return r;
}

#include "core.hpp"
#include "lower.hpp"
#include "exec.hpp"
#include "builtins.hpp"
#include "main.hpp"
