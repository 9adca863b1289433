// Symbolic execution of LLVM IR: generates the obligations of a harness.
//
// Execution is guarded: every basic block runs once per loop iteration under
// a path condition, stores are conditional updates, joins merge values by
// if-then-else.  No loop is cut off: a loop ends when its back edge condition
// is the constant false.
#pragma once
#include "bits.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include <set>
#include <memory>

typedef llvm::SmallVector<Lit, 8> OffBits;
struct Alt { Lit g; int obj; int64_t off; OffBits sym; };   // sym: 64 literals if the offset is symbolic
typedef llvm::SmallVector<Alt, 1> PtrV;
struct Val {
  enum K : uint8_t { NONE, BITS, PTR, AGG } k = NONE;
  Bits b; PtrV p; std::vector<Val> agg;
  static Val bits(Bits x) { Val v; v.k = BITS; v.b = std::move(x); return v; }
  static Val ptr(int o, int64_t off) { Val v; v.k = PTR; v.p.push_back({TRUE_, o, off, {}}); return v; }
};
static const int O_NULL = -1, O_FUNC = -2, O_BAD = -3;
static const Lit PTRBYTE = 0xfffffffeu;

struct PC {
  Lit lit = TRUE_; llvm::SmallVector<std::pair<int, Lit>, 4> doms; llvm::SmallVector<Lit, 4> lits;
  bool trivial() const { return lit == TRUE_; }
};

struct ArrLayer { int kind; OffBits off; uint64_t n = 0; Bits val; Lit g = TRUE_; Bits len, t; std::vector<Lit> key; std::string fn; };   // 0 store, 1 key stream, 2 invariant of a loop
struct Obj {
  bool arr = false; std::vector<ArrLayer> L;
  std::string name; uint64_t cap = 0; Bits symSize; uint64_t align = 1;
  bool ro = false, dead = false, heap = false, global = false, prot = false, ext = false, stack = false;
  Lit allocPc = TRUE_;
  std::vector<Lit> m; std::unordered_map<uint64_t, Val> ptrs; bool anyPtr = false;
  uint64_t limit = 0; Bits addr; std::string allocfn;
};

struct LoopRec { const llvm::BasicBlock *header = nullptr; LoopRec *parent = nullptr; llvm::DenseMap<const llvm::BasicBlock *, char> blocks; unsigned depth = 0; };
struct FnInfo {
  llvm::Function *F; llvm::DenseMap<const llvm::Value *, unsigned> num; unsigned n = 0;
  std::vector<const llvm::BasicBlock *> rpo; llvm::DenseMap<const llvm::BasicBlock *, unsigned> idx;
  std::vector<int> ipdom, idom;             // by rpo index; -1 none
  std::vector<LoopRec *> loopOf;            // innermost loop
  std::vector<std::unique_ptr<LoopRec>> loops;
  std::vector<LoopRec *> headerLoop;        // loop headed by this block
};

struct Edge { int from; PC pc; std::vector<Val> phis; Val ret; };
struct Frame { FnInfo *fi; std::vector<Val> env; std::vector<int> allocas; std::vector<std::vector<Edge>> in; std::vector<PC> pcAt; std::vector<PC> loopPc; std::vector<char> ran; };

struct OpaqueFn { unsigned nin, inbits, nout, outbits; void (*native)(const uint8_t *, uint8_t *); };

struct Obligation { std::string kind, loc, name; Lit bad; };
struct Failure { std::string kind, loc, name, status, cex; };
struct Group { std::string name; unsigned bits; uint32_t firstVar; };
typedef std::vector<std::pair<int, Lit>> Restr;     // finite-domain variable, its condition

struct Exec {
  llvm::Module &M; const llvm::DataLayout &DL; Dag D; BV bv; bool BE; unsigned PS;
  std::vector<Obj> objs; std::vector<llvm::Function *> funcs;
  llvm::DenseMap<const llvm::GlobalVariable *, int> gvObj;
  llvm::DenseMap<const llvm::Function *, std::unique_ptr<FnInfo>> fis;
  llvm::DenseMap<const llvm::Constant *, Val> constCache;
  llvm::DenseMap<const llvm::Function *, std::string> fnBase;
  std::vector<Group> groups;
  std::map<std::string, OpaqueFn> opaqueDefs; std::set<std::string> opaqueOn;
  std::map<std::string, long> params;
  std::set<std::string> contractsOn, contractsUsed;
  std::map<std::string, std::map<std::string, uint64_t>> counts;
  std::map<std::string, uint64_t> fnInstr;
  int maxFail = 6; bool enough(const std::string &); std::vector<Obligation> pending; std::vector<Failure> failures; std::set<std::string> notes;
  std::set<std::tuple<Lit, std::string, std::string>> seenObl;
  uint64_t ninstr = 0, instrLimit = 400000000ULL;
  bool frameOn = false; int depth = 0; unsigned mallocCount = 0; int allocFail = -1;
  std::vector<std::tuple<std::string, uint64_t, uint64_t>> allocLog;
  uint64_t satCalls = 0; double satTime = 0; double satLimit = 60;
  Restr restricts; std::string curFn; const llvm::Instruction *curI = nullptr; std::string tag;
  std::vector<std::string> results;

  Exec(llvm::Module &m);
  // running
  Val call(llvm::Function *F, std::vector<Val> args, const PC &pc);
  void runLoop(Frame &fr, LoopRec *L, std::vector<Edge> entry);
  void runBlocks(Frame &fr, LoopRec *L);
  void execBlock(Frame &fr, int bi, std::vector<Edge> in, const PC &pc);
  bool splitCases(Frame &fr, std::vector<Val> &phis, const PC &pc, std::vector<PC> &out);
  PC mergePc(Frame &fr, int bi, const std::vector<Edge> &in);
  void addEdge(Frame &fr, int from, const llvm::BasicBlock *to, const PC &pc);
  void step(Frame &fr, const llvm::Instruction &I, const PC &pc);
  Val doCall(Frame &fr, const llvm::CallBase &CB, const PC &pc);
  bool builtin(const std::string &n, const llvm::CallBase *CB, llvm::Function *F, std::vector<Val> &a, const PC &pc, Val &r);
  Val operand(Frame &fr, const llvm::Value *v);
  Val constant(const llvm::Constant *c);
  FnInfo *info(llvm::Function *F);
  std::string baseName(const llvm::Function *F);
  llvm::Function *findFn(const std::string &base);
  // values
  Val mergeVal(Lit c, const Val &a, const Val &b);
  Val undefOf(llvm::Type *T);
  Bits freshUndef(unsigned w) { Bits b(w); for (unsigned i = 0; i < w; i++) b[i] = D.var(-1, 0); return b; }
  Val gep(const std::function<Val(const llvm::Value *)> &get, const llvm::GEPOperator *G);
  PtrV addOff(const PtrV &p, int64_t c, const Bits *sym);
  Bits offBits(const Alt &a) { return a.sym.empty() ? BV::cst((uint64_t)a.off, 64) : Bits(a.sym.begin(), a.sym.end()); }
  Lit distinctEq(const Alt &x, const Alt &y); std::map<std::pair<int, int>, Lit> adjacent;
  Lit ptrEq(const PtrV &a, const PtrV &b);
  Bits ptrAddr(const PtrV &p);
  unsigned tyBits(llvm::Type *T);
  Val fromBits(llvm::Type *T, const Bits &b);
  // path conditions
  PC pcAdd(const PC &pc, Lit c);
  PC pcOr(const PC &a, const PC &b);
  Lit relative(const PC &, const PC &); int decided(const PC &pc, Lit c);
  Lit simp(Lit l, const PC &pc);
  void simpBits(Bits &b, const PC &pc) { if (pc.trivial()) return; for (auto &l : b) if (l > 1) l = simp(l, pc); }
  void simpPtr(PtrV &p, const PC &pc);
  // memory
  int newObj(const std::string &name, uint64_t cap, uint64_t align);
  void need(Obj &o, uint64_t upto);
  typedef std::function<void(int obj, int64_t off, Lit g)> AccFn;
  void access(const PtrV &p, uint64_t size, uint64_t align, const PC &pc, bool store, const AccFn &fn);
  bool checkAcc(int obj, int64_t off, uint64_t size, uint64_t align, Lit bad, bool store);
  bool offCases(const Bits &off, const PC &pc, std::vector<std::pair<int64_t, Lit>> &cases);
  Bits loadMem(const PtrV &p, uint64_t size, uint64_t align, const PC &pc);
  void putBits(int obj, int64_t off, const Bits &b, Lit g);
  Bits getBits(int obj, int64_t off, uint64_t size);
  Val load(const PtrV &p, llvm::Type *T, uint64_t align, const PC &pc);
  void store(const PtrV &p, const Val &v, llvm::Type *T, uint64_t align, const PC &pc);
  void memcpySym(const PtrV &d, const PtrV &s, const Bits &n, const PC &pc, bool move);
  void memcpyConst(const PtrV &d, const PtrV &s, uint64_t n, const PC &pc, bool move);
  Bits toMem(llvm::Type *T, const Bits &v); Bits fromMem(llvm::Type *T, const Bits &v);
  void initGlobal(int o, uint64_t off, const llvm::Constant *c);
  void clobberPtrs(Obj &o, uint64_t off, uint64_t n);
  Lit guardFor(const Obj &o, const PC &pc) { return pc.lit == o.allocPc ? TRUE_ : pc.lit; }
  // obligations
  void oblige(Lit bad, const char *kind, const std::string &name = "");
  std::string loc();
  void discharge(Obligation &ob);
  void dischargeAll();
  // terms
  Lit cofactor(Lit l, const Restr &rs);
  void cofactorAll(std::vector<Lit> &ls, const Restr &rs, const std::unordered_map<uint32_t, Lit> *subst = nullptr);
  void evaluate(const std::vector<Lit> &ls, std::vector<uint8_t> &out, std::vector<uint8_t> &varVal, std::vector<unsigned> &domVal);
  uint64_t rng = 0x1234567; uint64_t rnd(); unsigned pickDom(int d);
  bool findCex(Lit bad, int tries, std::string &cex);
  int sat(Lit bad, std::string &cex, bool &spurious);
  uint64_t domValue(int d, const std::vector<uint8_t> &varVal, const std::vector<unsigned> &domVal);
  std::string cexJson(const std::vector<uint8_t> &varVal, const std::vector<unsigned> &domVal);
  void eqObligation(const std::vector<Lit> &a, const std::vector<Lit> &b, const std::string &kind, const std::string &name);
  bool isoMatch(const std::vector<Lit> &a, const std::vector<Lit> &b, std::unordered_map<uint32_t, uint32_t> &varMap, std::unordered_map<int, int> &domMap, std::unordered_map<uint32_t, uint32_t> &seen);
  bool controlLeft = false, controlFirst = false; std::vector<Lit> domClasses(const std::vector<Lit> &a, const std::vector<Lit> &b, int d); bool controlConst(std::vector<Lit> &a, std::vector<Lit> &b); void fraigEq(std::vector<Lit> &a, std::vector<Lit> &b);
  void callSpec(const std::string &fn, const std::vector<Lit> &in, std::vector<Lit> &out, const PC &pc, bool opaque);
  std::vector<Lit> memLits(const Val &p, uint64_t nbytes);
  std::string cstr(const Val &v);
  uint64_t cint(const Val &v, const char *what);
  int ptrObj(const Val &v, int64_t *off = nullptr);
  // loops.cpp
  bool satMode = false, inCut = false; int cutTimeouts = 0; std::map<std::pair<Lit, Lit>, int> decided_; std::vector<std::vector<uint8_t>> models; std::vector<uint8_t> lastModel; std::vector<unsigned> lastDoms; std::map<std::string, std::vector<Bits>> repsOf;
  std::vector<std::string> loopInvs; std::map<std::string, std::string> loopHint; struct Snap; std::set<int> ptrStored;
  std::shared_ptr<Snap> newSnap(Frame &fr);
  Bits wordVar(const std::string &nm, unsigned bits); int decideLit(Lit c, const PC &pc); Bits canonIndex(const std::string &nm, const Bits &x, const PC &pc);
  std::vector<Lit> wordFn(const std::string &nm, const std::vector<Lit> &key, const Bits &x, unsigned bits, const PC &pc);
  Bits callAt(const std::string &fn, const Bits &t, const Bits &x, int prove, const PC &pc); Bits arrByte(int ob, size_t n, const Bits &x, const PC &pc);
  void arrCheck(int ob, const Bits &off, uint64_t size, uint64_t align, const PC &pc, bool st); bool arrPtr(const PtrV &p, int &ob, Bits &off);
  Bits arrLoad(int ob, const Bits &off, uint64_t size, uint64_t align, const PC &pc); void arrStore(int ob, const Bits &off, const Bits &v, uint64_t align, const PC &pc);
  void save(Snap &s, Frame &fr); void restore(const Snap &s, Frame &fr); std::vector<Edge> runBody(Frame &fr, LoopRec *L, std::vector<Val> phis, const PC &pc);
  std::vector<size_t> differing(std::vector<Lit> a, std::vector<Lit> b, const PC &pc, bool useSat, const char *what);
  bool tryCut(Frame &fr, LoopRec *L, const PC &pc0, const Snap &S0, const std::vector<Val> &phis0, std::set<std::pair<int, uint64_t>> cells, const std::string &cand, std::string &why);
  std::vector<Bits> entryOffsets(int ob, const PC &pc); size_t topLayer(int ob, const PC &pc); void cutLoop(Frame &fr, LoopRec *L, const PC &pc0, const Snap &S0, const std::vector<Val> &phis0, const std::vector<Obj> &after);
  std::string json(const std::string &harness, double t, const std::string &status);
};
