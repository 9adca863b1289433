#include "exec.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Support/raw_ostream.h"
#include <unistd.h>
#include <chrono>
using namespace llvm;

Exec::Exec(Module &m) : M(m), DL(m.getDataLayout()), bv(D), BE(m.getDataLayout().isBigEndian()), PS(m.getDataLayout().getPointerSize()) {}

// ---------------------------------------------------------------- functions
std::string Exec::baseName(const Function *F) {
  auto it = fnBase.find(F); if (it != fnBase.end()) return it->second;
  std::string n = F->getName().str();
  if (F->hasLocalLinkage()) { size_t p = n.rfind('.'); if (p != std::string::npos && p + 1 < n.size() && n.find_first_not_of("0123456789", p + 1) == std::string::npos) n = n.substr(0, p); }
  fnBase[F] = n; return n;
}
Function *Exec::findFn(const std::string &b) { for (auto &F : M) if (!F.isDeclaration() && baseName(&F) == b) return &F; return nullptr; }

FnInfo *Exec::info(Function *F) {
  auto &slot = fis[F]; if (slot) return slot.get();
  slot = std::make_unique<FnInfo>(); FnInfo *fi = slot.get(); fi->F = F;
  for (auto &A : F->args()) fi->num[&A] = fi->n++;
  ReversePostOrderTraversal<Function *> R(F);
  for (auto *BB : R) { fi->idx[BB] = fi->rpo.size(); fi->rpo.push_back(BB); for (auto &I : *BB) fi->num[&I] = fi->n++; }
  int n = fi->rpo.size();
  // blocks that can reach a return
  std::vector<std::vector<int>> succ(n), pred(n);
  for (int i = 0; i < n; i++) for (auto *S : successors(fi->rpo[i])) { succ[i].push_back(fi->idx[S]); pred[fi->idx[S]].push_back(i); }
  std::vector<char> good(n, 0); std::vector<int> wl, exits;
  for (int i = 0; i < n; i++) if (isa<ReturnInst>(fi->rpo[i]->getTerminator())) { good[i] = 1; wl.push_back(i); exits.push_back(i); }
  while (!wl.empty()) { int b = wl.back(); wl.pop_back(); for (int p : pred[b]) if (!good[p]) { good[p] = 1; wl.push_back(p); } }
  // post dominators on the reverse graph (virtual exit n)
  std::vector<int> order; std::vector<char> seen(n + 1, 0);
  std::function<void(int)> dfs = [&](int b) { seen[b] = 1; if (b == n) { for (int e : exits) if (!seen[e]) dfs(e); } else for (int p : pred[b]) if (good[p] && !seen[p]) dfs(p); order.push_back(b); };
  dfs(n); std::vector<int> po(n + 1, -1); for (size_t i = 0; i < order.size(); i++) po[order[i]] = i;
  std::vector<int> ip(n + 1, -1); ip[n] = n; bool ch = true;
  while (ch) { ch = false;
    for (int k = (int)order.size() - 2; k >= 0; k--) { int b = order[k]; int nw = -1;
      auto upd = [&](int s) { if (ip[s] < 0) return; if (nw < 0) { nw = s; return; } int x = s, y = nw; while (x != y) { while (po[x] < po[y]) x = ip[x]; while (po[y] < po[x]) y = ip[y]; } nw = x; };
      if (succ[b].empty()) upd(n); else for (int s : succ[b]) if (good[s]) upd(s);
      if (nw != ip[b]) { ip[b] = nw; ch = true; } } }
  fi->ipdom.assign(n, -1); for (int i = 0; i < n; i++) fi->ipdom[i] = (ip[i] >= 0 && ip[i] < n) ? ip[i] : -1;
  DominatorTree DT(*F); LoopInfo LI(DT);
  fi->idom.assign(n, -1); fi->loopOf.assign(n, nullptr); fi->headerLoop.assign(n, nullptr);
  for (int i = 1; i < n; i++) { auto *N = DT.getNode(fi->rpo[i]); if (N && N->getIDom()) fi->idom[i] = fi->idx[N->getIDom()->getBlock()]; }
  std::function<void(Loop *, LoopRec *)> addL = [&](Loop *L, LoopRec *par) {
    auto r = std::make_unique<LoopRec>(); r->header = L->getHeader(); r->parent = par; r->depth = L->getLoopDepth(); for (auto *B : L->blocks()) r->blocks[B] = 1;
    LoopRec *p = r.get(); fi->loops.push_back(std::move(r)); for (auto *B : L->blocks()) fi->loopOf[fi->idx[B]] = p;
    fi->headerLoop[fi->idx[p->header]] = p; for (auto *S : L->getSubLoops()) addL(S, p); };
  for (auto *L : LI) addL(L, nullptr);
  return fi;
}

// ---------------------------------------------------------------- path conditions
PC Exec::pcAdd(const PC &pc, Lit c) {
  if (c == TRUE_) return pc; PC r = pc; 
  std::vector<Lit> cs; D.conj(c, cs);
  for (Lit l : cs) {
    if (D.isDom(l)) { int d = D.N[nd(l)].a; bool f = false; for (auto &x : r.doms) if (x.first == d) { x.second = D.domAnd(x.second, l); f = true; if (x.second == FALSE_) { r.lit = FALSE_; return r; } } if (!f) r.doms.push_back({d, l}); }
    else { bool f = false; for (Lit x : r.lits) { if (x == l) f = true; if (x == NOT(l)) { r.lit = FALSE_; return r; } } if (!f) r.lits.push_back(l); }
  }
  Lit l = TRUE_; for (Lit x : r.lits) l = D.AND(l, x); for (auto &x : r.doms) l = D.AND(l, x.second); r.lit = l; return r;
}
PC Exec::pcOr(const PC &a, const PC &b) {
  if (a.lit == FALSE_) return b; if (b.lit == FALSE_) return a; if (a.lit == b.lit) return a;
  if (D.implies(a.lit, b.lit)) return b; if (D.implies(b.lit, a.lit)) return a;
  PC base; std::vector<Lit> ra, rb; std::vector<std::pair<int, Lit>> common;
  auto conj = [&](const PC &p) { std::vector<Lit> v(p.lits.begin(), p.lits.end()); for (auto &d : p.doms) v.push_back(d.second); return v; };
  auto va = conj(a), vb = conj(b); Lit com = TRUE_;
  for (Lit l : va) if (std::find(vb.begin(), vb.end(), l) != vb.end()) com = D.AND(com, l), base = pcAdd(base, l); else ra.push_back(l);
  for (Lit l : vb) if (std::find(va.begin(), va.end(), l) == va.end()) rb.push_back(l);
  if (ra.size() == 1 && rb.size() == 1) { Lit m; if (D.orMerge(ra[0], rb[0], m)) return pcAdd(base, m); }
  Lit x = TRUE_, y = TRUE_; for (Lit l : ra) x = D.AND(x, l); for (Lit l : rb) y = D.AND(y, l);
  Lit o = D.OR(x, y); return pcAdd(base, o);
}
// l where pc holds; gives up (soundly, with l itself) after a number of steps
Lit Exec::simp(Lit l, const PC &pc) {
  static thread_local int depth = 0, fuel = 0;
  if (l <= 1 || pc.trivial()) return l;
  if (depth == 0) fuel = 40;
  struct Up { ~Up() { depth--; } } up; depth++;
  for (int it = 0; it < 2000; it++) {
    if (l <= 1) return l;
    if (--fuel < 0 && depth > 1) return l;
    if (l == pc.lit) return TRUE_; if (l == NOT(pc.lit)) return FALSE_;
    for (Lit x : pc.lits) { if (x == l) return TRUE_; if (x == NOT(l)) return FALSE_; }
    const Node n = D.N[nd(l)];
    if (n.t == N_DOM) { for (auto &x : pc.doms) if (x.first == (int)n.a) { if (D.domAnd(l, x.second) == FALSE_) return FALSE_; if (D.domAnd(NOT(l), x.second) == FALSE_) return TRUE_; } return l; }
    if (n.t == N_ITE) { Lit c = simp(n.a, pc); if (c == TRUE_) { l = n.b ^ (l & 1); continue; } if (c == FALSE_) { l = n.c ^ (l & 1); continue; } return l; }
    if (n.t == N_AND) { if (pc.doms.empty() && pc.lits.empty()) return l;
      // only conditions: both sides cheap
      uint8_t ta = D.N[nd(n.a)].t, tb = D.N[nd(n.b)].t; if (ta == N_DOM || tb == N_DOM || ta == N_AND || tb == N_AND) {
        static thread_local int dep = 0; if (dep > 8) return l; dep++; Lit x = simp(n.a, pc); Lit y = x == FALSE_ ? FALSE_ : simp(n.b, pc); dep--; if (x != n.a || y != n.b) return D.AND(x, y) ^ (l & 1); }
      else if (!pc.lits.empty()) { for (Lit x : pc.lits) { if (x == n.a) { Lit o = n.b; for (Lit y : pc.lits) if (y == o) return TRUE_ ^ (l & 1); else if (y == NOT(o)) return FALSE_ ^ (l & 1); return o ^ (l & 1); } if (x == n.b) return n.a ^ (l & 1); if (x == NOT(n.a) || x == NOT(n.b)) return FALSE_ ^ (l & 1); } }
      return l; }
    return l;
  }
  return l;
}
// the condition e where pc is known to hold
Lit Exec::relative(const PC &e, const PC &pc) {
  if (pc.trivial()) return e.lit;
  Lit r = TRUE_;
  for (Lit l : e.lits) if (std::find(pc.lits.begin(), pc.lits.end(), l) == pc.lits.end()) r = D.AND(r, l);
  for (auto &d : e.doms) if (std::find(pc.doms.begin(), pc.doms.end(), d) == pc.doms.end()) r = D.AND(r, d.second);
  return r;
}
int Exec::decided(const PC &pc, Lit c) { Lit s = pc.trivial() ? c : simp(c, pc); return s == TRUE_ ? 1 : s == FALSE_ ? 0 : -1; }

// ---------------------------------------------------------------- values
unsigned Exec::tyBits(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; if (T->isX86_MMXTy()) return 64;
  if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * tyBits(V->getElementType());
  fail("type without bits");
}
Val Exec::fromBits(Type *T, const Bits &b) { (void)T; return Val::bits(b); }
Val Exec::undefOf(Type *T) {
  if (T->isPointerTy()) return Val::ptr(O_BAD, 0);
  if (auto *S = dyn_cast<StructType>(T)) { Val v; v.k = Val::AGG; for (auto *E : S->elements()) v.agg.push_back(undefOf(E)); return v; }
  if (auto *A = dyn_cast<ArrayType>(T)) { Val v; v.k = Val::AGG; for (uint64_t i = 0; i < A->getNumElements(); i++) v.agg.push_back(undefOf(A->getElementType())); return v; }
  return Val::bits(freshUndef(tyBits(T)));
}
Val Exec::mergeVal(Lit c, const Val &a, const Val &b) {
  if (c == TRUE_) return a; if (c == FALSE_) return b;
  if (a.k == Val::NONE) return b; if (b.k == Val::NONE) return a;
  if (a.k != b.k) fail("merge of different kinds");
  Val r; r.k = a.k;
  if (a.k == Val::BITS) { r.b = bv.ite(c, a.b, b.b); return r; }
  if (a.k == Val::AGG) { for (size_t i = 0; i < a.agg.size(); i++) r.agg.push_back(mergeVal(c, a.agg[i], b.agg[i])); return r; }
  for (auto &x : a.p) { Alt y = x; y.g = D.AND(c, x.g); if (y.g != FALSE_) r.p.push_back(y); }
  for (auto &x : b.p) { Lit g = D.AND(NOT(c), x.g); if (g == FALSE_) continue; bool f = false;
    for (auto &y : r.p) if (y.obj == x.obj && y.sym.empty() && x.sym.empty() && y.off == x.off) { y.g = D.OR(y.g, g); Lit m; if (x.g == TRUE_ && r.p.size() == 1 && a.p.size() == 1 && a.p[0].g == TRUE_) y.g = TRUE_; else if (D.orMerge(D.AND(c, a.p.size() == 1 ? a.p[0].g : TRUE_), g, m) && a.p.size() == 1) y.g = m; f = true; break; }
    if (!f) { Alt y = x; y.g = g; r.p.push_back(y); } }
  return r;
}
void Exec::simpPtr(PtrV &p, const PC &pc) {
  if (p.size() == 1 && p[0].g == TRUE_) return;
  PtrV r; for (auto &a : p) { Lit g = pc.trivial() ? a.g : simp(a.g, pc); if (g == FALSE_) continue; Alt b = a; b.g = g; r.push_back(b); if (g == TRUE_) break; }
  if (r.size() == 1) r[0].g = TRUE_;      // some alternative holds on every path
  p = r;
}
PtrV Exec::addOff(const PtrV &p, int64_t c, const Bits *sym) {
  PtrV r = p;
  for (auto &a : r) {
    a.off += c;
    if (!a.sym.empty() && c) { Bits s = bv.add(Bits(a.sym.begin(), a.sym.end()), BV::cst(c, 64)); a.sym.assign(s.begin(), s.end()); }
    if (sym) { Bits s = bv.add(offBits(a), *sym); uint64_t v; if (BV::val(s, v)) { a.off = v; a.sym.clear(); } else { a.off = 0; a.sym.assign(s.begin(), s.end()); } }
  }
  return r;
}
// pointers into two objects: equal only if one points behind the end of its object and the other to the start of the
// next (or an object is gone, and its place reused)
Lit Exec::distinctEq(const Alt &x, const Alt &y) {
  if (x.obj < 0 || y.obj < 0) return (x.obj == O_NULL || y.obj == O_NULL || (x.obj >= 0) != (y.obj >= 0)) ? ((x.obj == O_BAD || y.obj == O_BAD) ? D.var(-1, 0) : FALSE_) : D.var(-1, 0);
  auto once = [&](int a, int b) -> Lit { auto k = std::make_pair(a, b); auto it = adjacent.find(k); if (it != adjacent.end()) return it->second; return adjacent[k] = D.var(-1, 0); };
  if (objs[x.obj].dead || objs[y.obj].dead) return once(std::min(x.obj, y.obj), -1 - std::max(x.obj, y.obj));
  Lit r = FALSE_;
  for (int s = 0; s < 2; s++) { const Alt &a = s ? y : x, &b = s ? x : y;
    if (objs[a.obj].stack || objs[b.obj].stack || objs[a.obj].ext != objs[b.obj].ext) continue;
    Bits sz = objs[a.obj].symSize.empty() ? BV::cst(objs[a.obj].cap, 64) : bv.zext(objs[a.obj].symSize, 64);
    Lit e = D.AND(bv.eq(offBits(a), sz), bv.eq(offBits(b), BV::cst(0, 64))); if (e == FALSE_) continue;
    r = D.OR(r, D.AND(e, once(a.obj, b.obj))); }
  return r;
}
Lit Exec::ptrEq(const PtrV &a, const PtrV &b) {
  Lit r = FALSE_;
  for (auto &x : a) for (auto &y : b) { Lit g = D.AND(x.g, y.g); if (g == FALSE_) continue; Lit e;
    if (x.obj != y.obj) e = distinctEq(x, y); else if (x.obj == O_NULL) e = TRUE_; else if (x.obj == O_BAD) e = D.var(-1, 0); else e = bv.eq(offBits(x), offBits(y));
    r = D.OR(r, D.AND(g, e)); }
  return r;
}
Bits Exec::ptrAddr(const PtrV &p) {
  Bits r = BV::cst(0, 64);
  for (size_t i = p.size(); i-- > 0;) { const Alt &a = p[i]; Bits v;
    if (a.obj == O_NULL) v = offBits(a); else if (a.obj < 0) v = freshUndef(64);
    else { Obj &o = objs[a.obj]; if (o.addr.empty()) { o.addr = freshUndef(64); unsigned k = 0; while ((2u << k) <= o.align) k++; for (unsigned j = 0; j < k; j++) o.addr[j] = FALSE_; for (unsigned j = 56; j < 64; j++) o.addr[j] = FALSE_; }
      v = bv.add(o.addr, offBits(a)); }
    r = (i + 1 == p.size()) ? v : bv.ite(a.g, v, r); }
  return r;
}
Val Exec::constant(const Constant *c) {
  auto it = constCache.find(c); if (it != constCache.end()) return it->second;
  Val v;
  if (auto *I = dyn_cast<ConstantInt>(c)) { const APInt &x = I->getValue(); Bits b(x.getBitWidth()); for (unsigned i = 0; i < b.size(); i++) b[i] = x[i]; v = Val::bits(b); }
  else if (auto *Fp = dyn_cast<ConstantFP>(c)) { APInt x = Fp->getValueAPF().bitcastToAPInt(); Bits b(x.getBitWidth()); for (unsigned i = 0; i < b.size(); i++) b[i] = x[i]; v = Val::bits(b); }
  else if (isa<ConstantPointerNull>(c)) v = Val::ptr(O_NULL, 0);
  else if (isa<UndefValue>(c)) return undefOf(c->getType());
  else if (auto *F = dyn_cast<Function>(c)) { funcs.push_back(const_cast<Function *>(F)); v = Val::ptr(O_FUNC, funcs.size() - 1); }
  else if (auto *G = dyn_cast<GlobalVariable>(c)) {
    auto gi = gvObj.find(G); int o;
    if (gi != gvObj.end()) o = gi->second;
    else { o = newObj(G->getName().str(), DL.getTypeAllocSize(G->getValueType()), std::max<uint64_t>(G->getAlign().valueOrOne().value(), 1)); gvObj[G] = o; objs[o].global = true; objs[o].ro = G->isConstant();
      if (!G->hasInitializer()) { if (!G->isConstant()) notes.insert("external global " + G->getName().str()); } else { need(objs[o], objs[o].cap); initGlobal(o, 0, G->getInitializer()); } }
    v = Val::ptr(o, 0);
  }
  else if (auto *CE = dyn_cast<ConstantExpr>(c)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) v = gep([&](const Value *x) { return constant(cast<Constant>(x)); }, G);
    else if (CE->getOpcode() == Instruction::BitCast || CE->getOpcode() == Instruction::AddrSpaceCast) v = constant(CE->getOperand(0));
    else fail("constant expression");
  }
  else if (c->getType()->isVectorTy()) { auto *V = cast<FixedVectorType>(c->getType()); Bits b; for (unsigned i = 0; i < V->getNumElements(); i++) { Val e = constant(c->getAggregateElement(i)); b.append(e.b.begin(), e.b.end()); } v = Val::bits(b); }
  else if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataArray>(c)) {
    v.k = Val::AGG; unsigned n = isa<StructType>(c->getType()) ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements(); for (unsigned i = 0; i < n; i++) v.agg.push_back(constant(c->getAggregateElement(i)));
  }
  else if (c->getType()->isX86_MMXTy() && c->isNullValue()) v = Val::bits(BV::cst(0, 64));
  else fail("constant kind");
  constCache[c] = v; return v;
}
void Exec::initGlobal(int o, uint64_t off, const Constant *c) {
  Type *T = c->getType();
  if (isa<UndefValue>(c)) return;
  if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t s = DL.getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); i++) initGlobal(o, off + i * s, c->getAggregateElement(i)); return; }
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) initGlobal(o, off + L->getElementOffset(i), c->getAggregateElement(i)); return; }
  Val v = constant(c);
  if (v.k == Val::PTR) { objs[o].ptrs[off] = v; objs[o].anyPtr = true; for (int i = 0; i < (int)PS * 8; i++) objs[o].m[off * 8 + i] = PTRBYTE; return; }
  Bits b = toMem(T, v.b); for (size_t i = 0; i < b.size(); i++) objs[o].m[off * 8 + i] = b[i];
}
Val Exec::gep(const std::function<Val(const Value *)> &get, const GEPOperator *G) {
  Val base = get(G->getPointerOperand()); if (base.k != Val::PTR) fail("gep base");
  int64_t c = 0; Bits sym; bool hs = false;
  for (auto gi = gep_type_begin(G), e = gep_type_end(G); gi != e; ++gi) {
    const Value *ix = gi.getOperand();
    if (StructType *S = gi.getStructTypeOrNull()) { c += DL.getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
    uint64_t sz = DL.getTypeAllocSize(gi.getIndexedType()); Val v = get(ix); uint64_t k;
    if (v.k != Val::BITS) fail("gep index");
    if (BV::val(v.b, k)) { c += BV::sext64(k, v.b.size()) * (int64_t)sz; continue; }
    Bits x = v.b.size() < 64 ? bv.sext(v.b, 64) : bv.trunc(v.b, 64); x = bv.mul(x, BV::cst(sz, 64)); sym = hs ? bv.add(sym, x) : x; hs = true;
  }
  base.p = addOff(base.p, c, hs ? &sym : nullptr); return base;
}
Val Exec::operand(Frame &fr, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  auto it = fr.fi->num.find(v); if (it == fr.fi->num.end()) fail("operand");
  return fr.env[it->second];
}

// ---------------------------------------------------------------- memory
int Exec::newObj(const std::string &name, uint64_t cap, uint64_t align) { Obj o; o.name = name; o.cap = cap; o.limit = cap; o.align = align; objs.push_back(std::move(o)); return objs.size() - 1; }
void Exec::need(Obj &o, uint64_t upto) { if (upto > o.limit) upto = o.limit; if (o.m.size() < upto * 8) o.m.resize(std::min<uint64_t>(o.limit, std::max<uint64_t>(upto, 64)) * 8 < upto * 8 ? upto * 8 : std::max<uint64_t>(upto, std::min<uint64_t>(o.limit, upto * 2)) * 8, UNINIT); }
Bits Exec::toMem(Type *T, const Bits &v) {
  Bits r = v; unsigned w = v.size();
  if (auto *V = dyn_cast<FixedVectorType>(T)) { if (!BE) return r; unsigned ew = tyBits(V->getElementType()); for (unsigned e = 0; e * ew < w; e++) for (unsigned i = 0; i < ew; i++) r[e * ew + (ew / 8 - 1 - i / 8) * 8 + i % 8] = v[e * ew + i]; return r; }
  unsigned by = (w + 7) / 8; r.resize(by * 8, FALSE_); if (!BE) return r;
  Bits q(by * 8); for (unsigned i = 0; i < by * 8; i++) q[(by - 1 - i / 8) * 8 + i % 8] = r[i]; return q;
}
Bits Exec::fromMem(Type *T, const Bits &v) {
  unsigned w = tyBits(T);
  if (!BE || (isa<FixedVectorType>(T) && tyBits(cast<FixedVectorType>(T)->getElementType()) == 8)) { Bits r = v; r.resize(w); return r; }
  if (isa<FixedVectorType>(T)) return toMem(T, v);
  unsigned by = v.size() / 8; Bits q(v.size()); for (unsigned i = 0; i < v.size(); i++) q[(by - 1 - i / 8) * 8 + i % 8] = v[i]; q.resize(w); return q;
}
std::string Exec::loc() {
  std::string s = curFn; if (curI) if (auto &d = curI->getDebugLoc()) { s += " "; auto f = d->getFilename(); size_t p = f.rfind('/'); s += (p == StringRef::npos ? f : f.substr(p + 1)).str() + ":" + std::to_string(d.getLine()); }
  return s;
}
void Exec::oblige(Lit bad, const char *kind, const std::string &name) {
  if (curI && strcmp(kind, "postcondition") && !curI->getFunction()->getSubprogram())   // not the library's own code
    kind = curI->getFunction()->getName().starts_with("contract__") ? "precondition" : "harness";
  auto &c = counts[kind];
  if (bad == FALSE_) { c["structural"]++; return; }
  std::string l = loc(); std::string nm = tag.empty() ? name : tag + (name.empty() ? "" : ": " + name);
  if (!restricts.empty()) { bad = cofactor(bad, restricts); if (bad == FALSE_) { c["structural"]++; return; } }
  if (!seenObl.insert({bad, kind, l}).second) { c["repeated"]++; return; }
  pending.push_back({kind, l, nm, bad});
}
bool Exec::checkAcc(int obj, int64_t off, uint64_t size, uint64_t align, Lit g, bool store) {
  if (obj >= 0 && objs[obj].arr) fail("access of this kind to a payload of any length");
  if (obj < 0) { oblige(g, obj == O_BAD ? "uninitialised-pointer" : "null-pointer"); return false; }
  Obj &o = objs[obj];
  if (off < 0 || (uint64_t)off + size > o.cap) { oblige(g, "bounds", o.name); return false; }
  oblige(FALSE_, "bounds");
  if (!o.symSize.empty()) oblige(D.AND(g, bv.ult(o.symSize, BV::cst(off + size, 64))), "bounds", o.name);
  if (o.dead) { oblige(g, "lifetime", o.name); return false; }
  if (store && o.ro) { oblige(g, "read-only", o.name); return false; }
  if (store && frameOn && (o.prot || (o.global && !o.stack))) oblige(g, "frame", "store to " + o.name); else if (store) oblige(FALSE_, "frame");
  if (align > 1) { bool bad = (o.align % align) != 0 || (off % (int64_t)align) != 0; oblige(bad ? g : FALSE_, "alignment", o.name); }
  if ((uint64_t)off + size > o.limit) { if (store) oblige(g, "frame", "store beyond the modelled part of " + o.name); notes.insert("access beyond the modelled part of " + o.name); need(o, o.limit); return false; }
  need(o, off + size); return true;
}
// possible values of a symbolic offset
bool Exec::offCases(const Bits &off, const PC &pc, std::vector<std::pair<int64_t, Lit>> &cases) {
  Bits b = off; simpBits(b, pc); uint64_t v; if (BV::val(b, v)) { cases.push_back({(int64_t)v, TRUE_}); return true; }
  int d = -1; bool dom = true; std::vector<Lit> unk;
  for (Lit l : b) if (l > 1) { if (std::find(unk.begin(), unk.end(), l & ~1u) == unk.end()) unk.push_back(l & ~1u); if (!D.isDom(l)) dom = false; else { int e = D.N[nd(l)].a; if (d >= 0 && d != e) dom = false; d = e; } }
  if (dom) {
    std::vector<uint64_t> vals(D.domSize(d), 0);
    for (size_t i = 0; i < b.size(); i++) { if (b[i] == FALSE_) continue; if (b[i] == TRUE_) { for (auto &x : vals) x |= 1ULL << i; continue; } auto s = D.litSet(b[i]); for (unsigned j = 0; j < vals.size(); j++) if ((s[j >> 6] >> (j & 63)) & 1) vals[j] |= 1ULL << i; }
    std::map<uint64_t, std::vector<uint64_t>> grp; std::vector<uint64_t> ok = D.fullSet(d); for (auto &x : pc.doms) if (x.first == d) ok = D.litSet(x.second);
    for (unsigned j = 0; j < vals.size(); j++) if ((ok[j >> 6] >> (j & 63)) & 1) { auto &s = grp[vals[j]]; s.resize(ok.size(), 0); s[j >> 6] |= 1ULL << (j & 63); }
    for (auto &g : grp) cases.push_back({(int64_t)g.first, grp.size() == 1 ? TRUE_ : D.domLit(d, g.second)}); return true;
  }
  if (unk.size() > 12) return false;
  for (unsigned c = 0; c < (1u << unk.size()); c++) {
    Lit g = TRUE_; for (size_t i = 0; i < unk.size(); i++) g = D.AND(g, (c >> i) & 1 ? unk[i] : NOT(unk[i])); if (g == FALSE_) continue;
    uint64_t x = 0; for (size_t i = 0; i < b.size(); i++) { unsigned bit; if (b[i] <= 1) bit = b[i]; else { size_t j = std::find(unk.begin(), unk.end(), b[i] & ~1u) - unk.begin(); bit = ((c >> j) & 1) ^ (b[i] & 1); } if (bit && i < 64) x |= 1ULL << i; }
    cases.push_back({(int64_t)x, g}); }
  return true;
}
void Exec::access(const PtrV &p0, uint64_t size, uint64_t align, const PC &pc, bool store, const AccFn &fn) {
  PtrV p = p0; simpPtr(p, pc);
  for (auto &a : p) {
    Lit g = D.AND(pc.lit, a.g); if (g == FALSE_) continue;
    if (a.sym.empty()) { if (checkAcc(a.obj, a.off, size, align, g, store)) fn(a.obj, a.off, a.g); continue; }
    if (a.obj < 0) { checkAcc(a.obj, 0, size, align, g, store); continue; }
    PC q = a.g == TRUE_ ? pc : pcAdd(pc, a.g);
    std::vector<std::pair<int64_t, Lit>> cs; if (!offCases(offBits(a), q, cs)) fail("symbolic address into " + objs[a.obj].name + " at " + loc());
    for (auto &c : cs) if (checkAcc(a.obj, c.first, size, align, D.AND(g, c.second), store)) fn(a.obj, c.first, D.AND(a.g, c.second));
  }
}
Bits Exec::getBits(int obj, int64_t off, uint64_t size) {
  Obj &o = objs[obj]; Bits r(size * 8);
  for (uint64_t i = 0; i < size * 8; i++) {
    Lit l = o.m[off * 8 + i];
    if (l == UNINIT) { l = D.var(-1, 0); objs[obj].m[off * 8 + i] = l; }
    else if (l == PTRBYTE) { uint64_t by = off + i / 8; uint64_t s = by; for (int k = 0; k < 8; k++, s--) { if (objs[obj].ptrs.count(s)) break; if (!s) break; } auto it = objs[obj].ptrs.find(s); if (it == objs[obj].ptrs.end()) fail("pointer bytes"); Bits a = bv.trunc(ptrAddr(it->second.p), PS * 8); Bits mm = toMem(Type::getIntNTy(M.getContext(), PS * 8), a); l = mm[(by - s) * 8 + i % 8]; }
    r[i] = l;
  }
  return r;
}
Bits Exec::loadMem(const PtrV &p0, uint64_t size, uint64_t align, const PC &pc) {
  PtrV p = p0; simpPtr(p, pc);
  { int ob; Bits off; if (arrPtr(p, ob, off)) return arrLoad(ob, off, size, align, pc); }
  // constant tables
  if (p.size() == 1 && !p[0].sym.empty() && p[0].obj >= 0 && objs[p[0].obj].ro && objs[p[0].obj].global) {
    int ob = p[0].obj; Bits off = offBits(p[0]); simpBits(off, pc); std::vector<Lit> unk; bool dom = true;
    for (Lit l : off) if (l > 1) { if (std::find(unk.begin(), unk.end(), l & ~1u) == unk.end()) unk.push_back(l & ~1u); if (!D.isDom(l)) dom = false; }
    if (!dom && unk.size() <= 12) {
      unsigned k = unk.size(), W = ((1u << k) + 63) / 64; std::vector<std::vector<uint64_t>> tt(size * 8, std::vector<uint64_t>(W, 0)); std::vector<uint64_t> oob(W, 0), mis(W, 0); bool anyO = false, anyM = false;
      Obj &o = objs[ob]; need(o, o.cap);
      for (unsigned c = 0; c < (1u << k); c++) {
        uint64_t x = 0; for (size_t i = 0; i < off.size(); i++) { unsigned bit; if (off[i] <= 1) bit = off[i]; else { size_t j = std::find(unk.begin(), unk.end(), off[i] & ~1u) - unk.begin(); bit = ((c >> j) & 1) ^ (off[i] & 1); } if (bit) x |= 1ULL << i; }
        int64_t so = x; if (so < 0 || (uint64_t)so + size > o.cap) { oob[c >> 6] |= 1ULL << (c & 63); anyO = true; continue; }
        if (align > 1 && so % (int64_t)align) { mis[c >> 6] |= 1ULL << (c & 63); anyM = true; }
        for (unsigned i = 0; i < size * 8; i++) { Lit l = o.m[so * 8 + i]; if (l > 1) fail("table of non-constants"); if (l) tt[i][c >> 6] |= 1ULL << (c & 63); }
      }
      oblige(anyO ? D.AND(pc.lit, D.LUT(oob, unk)) : FALSE_, "bounds", o.name);
      if (align > 1) oblige((anyM || o.align % align) ? D.AND(pc.lit, o.align % align ? TRUE_ : D.LUT(mis, unk)) : FALSE_, "alignment", o.name);
      Bits r(size * 8); for (unsigned i = 0; i < size * 8; i++) r[i] = D.LUT(tt[i], unk); return r;
    }
  }
  Bits r; bool first = true;
  access(p, size, align, pc, false, [&](int o, int64_t off, Lit g) { Bits b = getBits(o, off, size); if (first) { r = b; first = false; } else r = bv.ite(g, b, r); });
  if (first) r = freshUndef(size * 8);
  simpBits(r, pc); return r;
}
void Exec::clobberPtrs(Obj &o, uint64_t off, uint64_t n) {
  if (!o.anyPtr) return;
  for (uint64_t s = off >= PS - 1 ? off - (PS - 1) : 0; s < off + n; s++) { auto it = o.ptrs.find(s); if (it == o.ptrs.end()) continue; o.ptrs.erase(it); for (unsigned i = 0; i < PS * 8; i++) if (o.m[s * 8 + i] == PTRBYTE) o.m[s * 8 + i] = UNINIT; }
}
void Exec::putBits(int obj, int64_t off, const Bits &b, Lit g) {
  Obj &o = objs[obj]; if (o.anyPtr) clobberPtrs(o, off, b.size() / 8);
  Lit *m = &o.m[off * 8];
  if (g == TRUE_) { for (size_t i = 0; i < b.size(); i++) m[i] = b[i]; return; }
  for (size_t i = 0; i < b.size(); i++) { Lit old = m[i]; if (old == UNINIT) old = D.var(-1, 0); m[i] = D.ITE(g, b[i], old); }
}
Val Exec::load(const PtrV &p, Type *T, uint64_t align, const PC &pc) {
  if (T->isPointerTy()) {
    Val r; access(p, PS, align, pc, false, [&](int ob, int64_t off, Lit g) {
      Obj &o = objs[ob]; Val v; auto it = o.ptrs.find(off);
      if (it != o.ptrs.end()) v = it->second;
      else { Bits b(64); bool un = false, z = true; for (int i = 0; i < (int)PS * 8; i++) { Lit l = o.m[off * 8 + i]; if (l == UNINIT || l == PTRBYTE) un = true; else if (l != FALSE_) z = false; } if (!un && z) v = Val::ptr(O_NULL, 0); else v = Val::ptr(O_BAD, 0); }
      r = r.k == Val::NONE ? v : mergeVal(g, v, r); });
    if (r.k == Val::NONE) r = Val::ptr(O_BAD, 0);
    simpPtr(r.p, pc); return r;
  }
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S); Val v; v.k = Val::AGG; for (unsigned i = 0; i < S->getNumElements(); i++) v.agg.push_back(load(addOff(p, L->getElementOffset(i), nullptr), S->getElementType(i), 1, pc)); return v; }
  if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t s = DL.getTypeAllocSize(A->getElementType()); Val v; v.k = Val::AGG; for (unsigned i = 0; i < A->getNumElements(); i++) v.agg.push_back(load(addOff(p, i * s, nullptr), A->getElementType(), 1, pc)); return v; }
  return Val::bits(fromMem(T, loadMem(p, DL.getTypeStoreSize(T), align, pc)));
}
void Exec::store(const PtrV &p, const Val &v, Type *T, uint64_t align, const PC &pc) {
  if (v.k == Val::AGG) {
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) store(addOff(p, L->getElementOffset(i), nullptr), v.agg[i], S->getElementType(i), 1, pc); }
    else { auto *A = cast<ArrayType>(T); uint64_t s = DL.getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) store(addOff(p, i * s, nullptr), v.agg[i], A->getElementType(), 1, pc); }
    return;
  }
  if (v.k == Val::PTR) {
    access(p, PS, align, pc, true, [&](int ob, int64_t off, Lit g) {
      ptrStored.insert(ob);
      Obj &o = objs[ob]; g = D.AND(g, guardFor(o, pc)); Val old = Val::ptr(O_BAD, 0); auto it = o.ptrs.find(off);
      if (it != o.ptrs.end()) old = it->second; else { bool z = true; for (int i = 0; i < (int)PS * 8; i++) if (o.m[off * 8 + i] != FALSE_) z = false; if (z) old = Val::ptr(O_NULL, 0); }
      Val nv = mergeVal(g, v, old); clobberPtrs(o, off, PS); o.ptrs[off] = nv; o.anyPtr = true; for (int i = 0; i < (int)PS * 8; i++) o.m[off * 8 + i] = PTRBYTE; });
    return;
  }
  Bits b = toMem(T, v.b);
  { int ob; Bits off; PtrV q = p; simpPtr(q, pc); if (arrPtr(q, ob, off)) { arrStore(ob, off, b, align, pc); return; } }
  access(p, b.size() / 8, align, pc, true, [&](int ob, int64_t off, Lit g) { putBits(ob, off, b, D.AND(g, guardFor(objs[ob], pc))); });
}
void Exec::memcpyConst(const PtrV &d, const PtrV &s, uint64_t n, const PC &pc, bool move) {
  if (!n) return;
  { PtrV dd = d, ss = s; simpPtr(dd, pc); simpPtr(ss, pc); int od, os; Bits fd, fs; bool ad = arrPtr(dd, od, fd), as = arrPtr(ss, os, fs);
    if (ad || as) {
      if (ad && as && !move) { Bits x = bv.sub(fd, fs), y = bv.sub(fs, fd); if (od == os) oblige(D.AND(pc.lit, D.AND(NOT(bv.eq(fd, fs)), D.OR(bv.ult(x, BV::cst(n, 64)), bv.ult(y, BV::cst(n, 64))))), "memcpy-overlap", objs[od].name); }
      Bits v = loadMem(ss, n, 1, pc);
      if (ad) arrStore(od, fd, v, 1, pc); else access(dd, n, 1, pc, true, [&](int ob, int64_t off, Lit g) { putBits(ob, off, v, D.AND(g, guardFor(objs[ob], pc))); });
      return; } }
  if (!move) for (auto &a : d) for (auto &b : s) if (a.obj == b.obj && a.obj >= 0 && a.sym.empty() && b.sym.empty() && a.off != b.off && std::llabs(a.off - b.off) < (long long)n) oblige(D.AND(pc.lit, D.AND(a.g, b.g)), "memcpy-overlap", objs[a.obj].name);
  Bits v = Bits(); bool first = true; std::map<uint64_t, Val> pv;
  bool anyp = false; for (auto &b : s) if (b.obj >= 0 && objs[b.obj].anyPtr) anyp = true;
  if (anyp) { PtrV q = s; simpPtr(q, pc); if (q.size() == 1 && q[0].sym.empty()) for (auto &e : objs[q[0].obj].ptrs) if ((int64_t)e.first >= q[0].off && e.first + PS <= q[0].off + n) pv[e.first - q[0].off] = e.second; }
  access(s, n, 1, pc, false, [&](int ob, int64_t off, Lit g) {
    Bits b(n * 8); for (uint64_t i = 0; i < n * 8; i++) { Lit l = objs[ob].m[off * 8 + i]; if (l == PTRBYTE) { bool in = false; for (auto &e : pv) if (i / 8 >= e.first && i / 8 < e.first + PS) in = true; l = in ? FALSE_ : UNINIT; } b[i] = l; }
    if (first) { v = b; first = false; } else for (uint64_t i = 0; i < n * 8; i++) { if (v[i] == UNINIT) v[i] = D.var(-1, 0); if (b[i] == UNINIT) b[i] = D.var(-1, 0); v[i] = D.ITE(g, b[i], v[i]); } });
  if (first) v = freshUndef(n * 8);
  access(d, n, 1, pc, true, [&](int ob, int64_t off, Lit g) {
    g = D.AND(g, guardFor(objs[ob], pc)); if (g != TRUE_) for (auto &l : v) if (l == UNINIT) l = D.var(-1, 0); putBits(ob, off, v, g); });
  for (auto &e : pv) store(addOff(d, e.first, nullptr), e.second, PointerType::get(M.getContext(), 0), 1, pc);
}
void Exec::memcpySym(const PtrV &d0, const PtrV &s0, const Bits &n0, const PC &pc, bool move) {
  Bits n = n0; simpBits(n, pc); uint64_t c; if (BV::val(n, c)) { memcpyConst(d0, s0, c, pc, move); return; }
  PtrV d = d0, s = s0; simpPtr(d, pc); simpPtr(s, pc);
  if (d.size() != 1 || s.size() != 1 || !d[0].sym.empty() || !s[0].sym.empty()) {
    Bits w = n.size() < 64 ? bv.zext(n, 64) : n; std::vector<std::pair<int64_t, Lit>> cs; if (!offCases(w, pc, cs)) fail("copy of symbolic size between symbolic addresses");
    for (auto &c : cs) if (c.first) { PC q = pcAdd(pc, c.second); if (q.lit != FALSE_) memcpyConst(d, s, c.first, q, move); }
    return; }
  for (auto &z : {d[0], s[0]}) if (z.obj >= 0 && objs[z.obj].arr) fail("copy of symbolic size of a payload");
  Alt &a = d[0], &b = s[0]; Lit nz = FALSE_; for (Lit l : n) nz = D.OR(nz, l);
  if (a.obj < 0 || b.obj < 0) { oblige(D.AND(pc.lit, nz), "null-pointer"); return; }
  Obj *od = &objs[a.obj], *os = &objs[b.obj]; Bits w = n.size() < 64 ? bv.zext(n, 64) : n;
  auto chk = [&](Obj &o, int64_t off, bool st) {
    if (off < 0 || (uint64_t)off > o.cap) { oblige(D.AND(pc.lit, nz), "bounds", o.name); return; }
    oblige(D.AND(pc.lit, bv.ult(BV::cst(o.cap - off, 64), w)), "bounds", o.name);
    if (!o.symSize.empty()) oblige(D.AND(pc.lit, D.AND(nz, bv.ult(o.symSize, bv.add(w, BV::cst(off, 64))))), "bounds", o.name);
    if (o.dead) oblige(pc.lit, "lifetime", o.name);
    if (st && o.ro) oblige(D.AND(pc.lit, nz), "read-only", o.name);
    if (st && frameOn && (o.prot || (o.global && !o.stack))) oblige(D.AND(pc.lit, nz), "frame", "store to " + o.name); };
  chk(*od, a.off, true); chk(*os, b.off, false);
  if (a.obj == b.obj && !move && a.off != b.off) oblige(D.AND(pc.lit, bv.ult(BV::cst(std::llabs(a.off - b.off), 64), w)), "memcpy-overlap", od->name);
  uint64_t md = od->limit - std::min<uint64_t>(od->limit, a.off), ms = os->limit - std::min<uint64_t>(os->limit, b.off), K = std::min(md, ms);
  // largest possible size
  std::vector<std::pair<int64_t, Lit>> cs; bool enumd = offCases(w, pc, cs);
  uint64_t mx = 0; if (enumd) { for (auto &x : cs) mx = std::max<uint64_t>(mx, x.first); } else mx = K;
  if (mx > K) { mx = K; if (md < ms || md == K) { if (od->limit < od->cap) oblige(D.AND(pc.lit, bv.ult(BV::cst(K, 64), w)), "frame", "store beyond the modelled part of " + od->name); } if (ms < md && os->limit < os->cap) notes.insert("copy beyond the modelled part of " + os->name); }
  need(*od, a.off + mx); need(*os, b.off + mx);
  if (os->anyPtr) fail("copy of symbolic size of an object with pointers");
  Lit gd = guardFor(*od, pc); std::vector<Bits> src(mx); for (uint64_t k = 0; k < mx; k++) src[k] = getBits(b.obj, b.off + k, 1);
  od = &objs[a.obj];
  if (enumd) std::sort(cs.begin(), cs.end(), [](auto &x, auto &y) { return (uint64_t)x.first > (uint64_t)y.first; });
  Lit g = FALSE_; size_t ci = 0;
  for (uint64_t k = mx; k-- > 0;) {
    if (enumd) { while (ci < cs.size() && (uint64_t)cs[ci].first > k) { g = D.isDom(g) || g == FALSE_ ? D.OR(g, cs[ci].second) : D.OR(g, cs[ci].second); ci++; } }
    else g = bv.ult(BV::cst(k, 64), w);
    if (ci == cs.size() && enumd) g = TRUE_;
    putBits(a.obj, a.off + k, src[k], D.AND(gd, g));
  }
}

// ---------------------------------------------------------------- control flow
PC Exec::mergePc(Frame &fr, int bi, const std::vector<Edge> &in) {
  FnInfo *fi = fr.fi; int Dm = fi->idom[bi];
  if (Dm >= 0 && in.size() >= 1) {
    const BasicBlock *J = fi->rpo[bi]; LoopRec *L = fi->loopOf[Dm]; LoopRec *out = nullptr;
    while (L && !L->blocks.count(J)) { out = L; L = L->parent; }
    if (!out) { if (fi->ipdom[Dm] == bi) return fr.pcAt[Dm]; }
    else { int h = fi->idx[out->header]; if (fi->ipdom[h] == bi) return fr.loopPc[h]; }
  }
  PC r = in[0].pc; for (size_t i = 1; i < in.size(); i++) r = pcOr(r, in[i].pc);
  return r;
}
static Val *envAt(Frame &fr, const Value *v) { return &fr.env[fr.fi->num[v]]; }

void Exec::addEdge(Frame &fr, int from, const BasicBlock *to, const PC &pc) {
  if (pc.lit == FALSE_) return;
  Edge e; e.from = from; e.pc = pc; const BasicBlock *fb = fr.fi->rpo[from];
  for (auto &P : to->phis()) { Val v = operand(fr, P.getIncomingValueForBlock(fb)); if (v.k == Val::BITS) simpBits(v.b, pc); else if (v.k == Val::PTR) simpPtr(v.p, pc); e.phis.push_back(std::move(v)); }
  fr.in[fr.fi->idx[to]].push_back(std::move(e));
}
void Exec::execBlock(Frame &fr, int bi, std::vector<Edge> in, const PC &pc) {
  FnInfo *fi = fr.fi; const BasicBlock *bb = fi->rpo[bi]; fr.pcAt[bi] = pc; fr.ran[bi] = 1;
  size_t np = in.empty() ? 0 : in[0].phis.size();
  if (np) {
    std::vector<Lit> sel(in.size()); for (size_t i = 1; i < in.size(); i++) sel[i] = relative(in[i].pc, pc);
    size_t j = 0; for (auto &P : bb->phis()) { Val v = std::move(in[0].phis[j]); for (size_t i = 1; i < in.size(); i++) v = mergeVal(sel[i], in[i].phis[j], v); if (in.size() > 1) { if (v.k == Val::BITS) simpBits(v.b, pc); else if (v.k == Val::PTR) simpPtr(v.p, pc); } fr.env[fi->num[&P]] = std::move(v); j++; }
  }
  for (auto &I : *bb) {
    if (isa<PHINode>(I)) continue;
    curI = &I; if (++ninstr > instrLimit) fail("instruction limit");
    if (I.isTerminator()) {
      if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isUnconditional()) { addEdge(fr, bi, B->getSuccessor(0), pc); return; }
        Val c = operand(fr, B->getCondition()); Lit l = c.b[0]; if (!pc.trivial() && l > 1) l = simp(l, pc); if (satMode && l > 1) { int d = decideLit(l, pc); if (d >= 0) l = d; }
        if (l == TRUE_) addEdge(fr, bi, B->getSuccessor(0), pc); else if (l == FALSE_) addEdge(fr, bi, B->getSuccessor(1), pc);
        else { addEdge(fr, bi, B->getSuccessor(0), pcAdd(pc, l)); if (B->getSuccessor(0) == B->getSuccessor(1)) fail("branch"); addEdge(fr, bi, B->getSuccessor(1), pcAdd(pc, NOT(l))); }
        return;
      }
      if (isa<ReturnInst>(I)) { Edge e; e.from = bi; e.pc = pc; if (I.getNumOperands()) e.ret = operand(fr, I.getOperand(0)); fr.in.back().push_back(std::move(e)); return; }
      if (isa<UnreachableInst>(I)) { return; }
      fail("terminator " + std::string(I.getOpcodeName()));
    }
    step(fr, I, pc);
  }
}
bool Exec::splitCases(Frame &fr, std::vector<Val> &phis, const PC &pc, std::vector<PC> &out) {
  int d = -1; std::vector<Lit> lits;
  auto add = [&](Lit l) { if (l <= 1) return true; if (!D.isDom(l)) return false; int e = D.N[nd(l)].a; if (d >= 0 && e != d) return false; d = e; if (std::find(lits.begin(), lits.end(), l & ~1u) == lits.end()) lits.push_back(l & ~1u); return true; };
  for (auto &v : phis) {
    std::vector<Lit> t; if (v.k == Val::BITS) { if (v.b.size() > 64) continue; t.assign(v.b.begin(), v.b.end()); } else if (v.k == Val::PTR) for (auto &a : v.p) { t.push_back(a.g); t.insert(t.end(), a.sym.begin(), a.sym.end()); }
    int od = d; size_t os = lits.size(); bool ok = true; for (Lit l : t) if (!add(l)) { ok = false; break; } if (!ok) { d = od; lits.resize(os); }
  }
  if (d < 0 || lits.empty()) return false;
  std::vector<uint64_t> ok = D.fullSet(d); for (auto &x : pc.doms) if (x.first == d) ok = D.litSet(x.second);
  std::vector<std::vector<uint64_t>> sets; for (Lit l : lits) sets.push_back(D.litSet(l));
  std::map<std::vector<bool>, std::vector<uint64_t>> grp;
  for (unsigned j = 0; j < D.domSize(d); j++) if ((ok[j >> 6] >> (j & 63)) & 1) { std::vector<bool> k; for (auto &s : sets) k.push_back((s[j >> 6] >> (j & 63)) & 1); auto &g = grp[k]; g.resize(ok.size(), 0); g[j >> 6] |= 1ULL << (j & 63); }
  if (grp.size() < 2 || grp.size() > 600) return false;
  for (auto &g : grp) { PC q = pcAdd(pc, D.domLit(d, g.second)); if (q.lit != FALSE_) out.push_back(q); }
  return true;
}
void Exec::runLoop(Frame &fr, LoopRec *L, std::vector<Edge> entry) {
  int hi = fr.fi->idx[L->header]; PC pc0 = mergePc(fr, hi, entry); fr.loopPc[hi] = pc0;
  std::vector<Val> phis = std::move(entry[0].phis); for (size_t i = 1; i < entry.size(); i++) for (size_t j = 0; j < phis.size(); j++) phis[j] = mergeVal(entry[i].pc.lit, entry[i].phis[j], phis[j]);
  std::vector<PC> cases; if (!splitCases(fr, phis, pc0, cases)) cases.assign(1, pc0);
  for (auto &c : cases) {
    std::vector<Edge> in(1); in[0].from = -1; in[0].pc = c; in[0].phis = phis;
    if (cases.size() > 1) for (auto &v : in[0].phis) { if (v.k == Val::BITS) simpBits(v.b, c); else if (v.k == Val::PTR) { simpPtr(v.p, c); for (auto &a : v.p) if (!a.sym.empty()) { Bits s(a.sym.begin(), a.sym.end()); simpBits(s, c); uint64_t x; if (BV::val(s, x)) { a.off = x; a.sym.clear(); } else a.sym.assign(s.begin(), s.end()); } } }
    PC pc = c;
    for (uint64_t it = 0;; it++) {
      if (it > 2000000) fail("loop at " + loc() + " does not end");
      bool lib = !loopInvs.empty() && in.size() == 1 && fr.fi->F->getSubprogram(); std::shared_ptr<Snap> S0; std::vector<Val> ph; PC was = pc; if (lib) { S0 = newSnap(fr); ph = in[0].phis; }
      execBlock(fr, hi, std::move(in), pc);
      runBlocks(fr, L);
      in = std::move(fr.in[hi]); fr.in[hi].clear();
      if (in.empty()) break;
      pc = in[0].pc; for (size_t i = 1; i < in.size(); i++) pc = pcOr(pc, in[i].pc);
      if (lib && pc.lit != was.lit) { std::vector<Obj> after = objs; restore(*S0, fr); cutLoop(fr, L, was, *S0, ph, after); break; }
    }
  }
}
void Exec::runBlocks(Frame &fr, LoopRec *L) {
  FnInfo *fi = fr.fi; int n = fi->rpo.size(); int start = L ? fi->idx[L->header] + 1 : 0;
  for (int b = start; b < n; b++) {
    if (fr.in[b].empty()) continue;
    LoopRec *lb = fi->loopOf[b]; if (L && !L->blocks.count(fi->rpo[b])) continue;
    if (lb == L) { std::vector<Edge> in = std::move(fr.in[b]); fr.in[b].clear(); PC pc = in[0].from < 0 ? in[0].pc : mergePc(fr, b, in); execBlock(fr, b, std::move(in), pc); }
    else { LoopRec *c = fi->headerLoop[b]; if (!c || c->parent != L) fail("irreducible control flow in " + fi->F->getName().str()); std::vector<Edge> in = std::move(fr.in[b]); fr.in[b].clear(); runLoop(fr, c, std::move(in)); }
  }
}
Val Exec::call(Function *F, std::vector<Val> args, const PC &pc) {
  std::string bn = baseName(F); std::string saved = curFn; const Instruction *savedI = curI;
  if (opaqueOn.count(bn)) { auto &o = opaqueDefs[bn]; std::vector<Lit> in, out; 
    Bits ib = loadMem(args[0].p, o.nin, 1, pc); for (unsigned i = 0; i < o.nin; i++) for (unsigned j = 0; j < 8; j++) { if (j < o.inbits) in.push_back(ib[i * 8 + j]); else if (ib[i * 8 + j] != FALSE_) fail("argument of " + bn + " out of range"); }
    out.resize(o.nout * o.outbits); D.UF(D.ufId(bn), in.data(), in.size(), out.data(), out.size());
    Bits ob(o.nout * 8, FALSE_); for (unsigned i = 0; i < o.nout; i++) for (unsigned j = 0; j < o.outbits; j++) ob[i * 8 + j] = out[i * o.outbits + j];
    access(args[1].p, o.nout, 1, pc, true, [&](int x, int64_t off, Lit g) { putBits(x, off, ob, D.AND(g, guardFor(objs[x], pc))); }); return Val(); }
  if (contractsOn.count(bn)) { Function *S = M.getFunction("contract__" + bn); if (S && !S->isDeclaration() && S->getFunctionType() == F->getFunctionType()) { contractsUsed.insert(bn); F = S; bn = "contract__" + bn; } else notes.insert("contract of " + bn + " does not fit its signature"); }
  if (F->isDeclaration()) fail("call of undefined " + bn);
  if (++depth > 200) fail("recursion in " + bn);
  FnInfo *fi = info(F); Frame fr; fr.fi = fi; fr.env.resize(fi->n); int nb = fi->rpo.size(); fr.in.resize(nb + 1); fr.pcAt.resize(nb); fr.loopPc.resize(nb); fr.ran.assign(nb, 0);
  unsigned i = 0; for (auto &A : F->args()) { if (A.hasByValAttr()) { Type *T = A.getParamByValType(); int o = newObj("byval", DL.getTypeAllocSize(T), 16); objs[o].stack = true; objs[o].allocPc = pc.lit; fr.allocas.push_back(o); need(objs[o], objs[o].cap); Val np = Val::ptr(o, 0); memcpyConst(np.p, args[i].p, objs[o].cap, pc, false); fr.env[fi->num[&A]] = np; } else fr.env[fi->num[&A]] = std::move(args[i]); i++; }
  curFn = bn; uint64_t n0 = ninstr;
  Edge e; e.from = -1; e.pc = pc; fr.in[0].push_back(std::move(e));
  if (fi->headerLoop[0]) fail("loop at function entry"); runBlocks(fr, nullptr);
  fnInstr[bn] += ninstr - n0;
  for (int o : fr.allocas) { objs[o].dead = true; std::vector<Lit>().swap(objs[o].m); objs[o].ptrs.clear(); }
  depth--; curFn = saved; curI = savedI;
  Val r; auto &rets = fr.in[nb]; if (rets.empty()) { if (pc.lit != FALSE_) { if (counts.count("assert") == 0 && counts.count("unreachable") == 0) notes.insert(bn + " does not return"); } if (!F->getReturnType()->isVoidTy()) return undefOf(F->getReturnType()); return r; }
  r = std::move(rets[0].ret); for (size_t k = 1; k < rets.size(); k++) r = mergeVal(rets[k].pc.lit, rets[k].ret, r);
  return r;
}

// ---------------------------------------------------------------- instructions
void Exec::step(Frame &fr, const Instruction &I, const PC &pc) {
  Val &R = *envAt(fr, &I);
  auto op = [&](unsigned i) { return operand(fr, I.getOperand(i)); };
  Type *T = I.getType(); unsigned ew = 0, ne = 1; bool isv = false;
  if (auto *V = dyn_cast<FixedVectorType>(T)) { isv = true; ne = V->getNumElements(); ew = V->getElementType()->isPointerTy() ? 64 : tyBits(V->getElementType()); } else if (T->isIntegerTy()) ew = T->getIntegerBitWidth();
  auto lane = [&](const Bits &b, unsigned e, unsigned w) { return Bits(b.begin() + e * w, b.begin() + (e + 1) * w); };
  switch (I.getOpcode()) {
  case Instruction::Alloca: {
    auto &A = cast<AllocaInst>(I); uint64_t n = 1; if (A.isArrayAllocation()) { Val v = op(0); if (!BV::val(v.b, n)) fail("variable length array"); }
    int o = newObj(I.hasName() ? I.getName().str() : "local", DL.getTypeAllocSize(A.getAllocatedType()) * n, A.getAlign().value()); objs[o].stack = true; objs[o].allocPc = pc.lit; fr.allocas.push_back(o); R = Val::ptr(o, 0); return; }
  case Instruction::Load: { auto &L = cast<LoadInst>(I); if (L.isAtomic()) fail("atomic"); Val p = op(0); Val v = load(p.p, T, L.getAlign().value(), pc); R = std::move(v); return; }
  case Instruction::Store: { auto &S = cast<StoreInst>(I); if (S.isAtomic()) fail("atomic"); Val v = op(0), p = op(1); store(p.p, v, S.getValueOperand()->getType(), S.getAlign().value(), pc); return; }
  case Instruction::GetElementPtr: R = gep([&](const Value *x) { return operand(fr, x); }, cast<GEPOperator>(&I)); return;
  case Instruction::Call: { Val v = doCall(fr, cast<CallBase>(I), pc); *envAt(fr, &I) = std::move(v); return; }
  case Instruction::And: { Val a = op(0), b = op(1); R = Val::bits(bv.band(a.b, b.b)); return; }
  case Instruction::Or: { Val a = op(0), b = op(1); R = Val::bits(bv.bor(a.b, b.b)); return; }
  case Instruction::Xor: { Val a = op(0), b = op(1); R = Val::bits(bv.bxor(a.b, b.b)); return; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    Val a = op(0), b = op(1); Bits out; unsigned opc = I.getOpcode();
    bool nsw = false, nuw = false; if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { nsw = O->hasNoSignedWrap(); nuw = O->hasNoUnsignedWrap(); }
    for (unsigned e = 0; e < ne; e++) {
      Bits x = isv ? lane(a.b, e, ew) : a.b, y = isv ? lane(b.b, e, ew) : b.b, r;
      uint64_t cx, cy; bool cc = ew <= 64 && BV::val(x, cx) && BV::val(y, cy);
      switch (opc) {
      case Instruction::Add: r = bv.add(x, y); if (nsw) { if (cc) { __int128 s = (__int128)BV::sext64(cx, ew) + BV::sext64(cy, ew); oblige(s != BV::sext64((uint64_t)s, ew) ? pc.lit : FALSE_, "signed-overflow"); } else oblige(D.AND(pc.lit, D.AND(NOT(D.XOR(x[ew - 1], y[ew - 1])), D.XOR(x[ew - 1], r[ew - 1]))), "signed-overflow"); } if (nuw) oblige(D.AND(pc.lit, bv.ult(r, x)), "unsigned-overflow"); break;
      case Instruction::Sub: r = bv.sub(x, y); if (nsw) { if (cc) { __int128 s = (__int128)BV::sext64(cx, ew) - BV::sext64(cy, ew); oblige(s != BV::sext64((uint64_t)s, ew) ? pc.lit : FALSE_, "signed-overflow"); } else oblige(D.AND(pc.lit, D.AND(D.XOR(x[ew - 1], y[ew - 1]), D.XOR(x[ew - 1], r[ew - 1]))), "signed-overflow"); } if (nuw) oblige(D.AND(pc.lit, bv.ult(x, y)), "unsigned-overflow"); break;
      case Instruction::Mul: if (nsw || nuw) { if (cc) { r = bv.mul(x, y); __int128 s = (__int128)BV::sext64(cx, ew) * BV::sext64(cy, ew); oblige(nsw && s != BV::sext64((uint64_t)s, ew) ? pc.lit : FALSE_, "signed-overflow"); if (nuw) { unsigned __int128 q = (unsigned __int128)cx * cy; oblige(ew < 128 && (q >> ew) ? pc.lit : FALSE_, "unsigned-overflow"); } }
          else { unsigned w2 = 2 * ew; Bits p = nsw ? bv.mul(bv.sext(x, w2), bv.sext(y, w2)) : bv.mul(bv.zext(x, w2), bv.zext(y, w2)); r = bv.trunc(p, ew); Bits q = nsw ? bv.sext(r, w2) : bv.zext(r, w2); oblige(D.AND(pc.lit, NOT(bv.eq(p, q))), "signed-overflow"); } }
        else r = bv.mul(x, y); break;
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        oblige(cc || BV::val(y, cy) ? (cy >= ew ? pc.lit : FALSE_) : D.AND(pc.lit, NOT(bv.ult(y, BV::cst(ew, ew)))), "shift-amount");
        r = bv.shift(x, y, opc == Instruction::Shl ? 0 : opc == Instruction::LShr ? 1 : 2);
        if (opc == Instruction::Shl && nsw) oblige(D.AND(pc.lit, NOT(bv.eq(bv.shift(r, y, 2), x))), "signed-overflow"); break; }
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        oblige(D.AND(pc.lit, bv.eq(y, BV::cst(0, ew))), "division"); Bits q, m;
        if (opc == Instruction::UDiv || opc == Instruction::URem) { bv.udivrem(x, y, q, m); r = opc == Instruction::UDiv ? q : m; }
        else { Lit sx = x[ew - 1], sy = y[ew - 1]; Bits minv = BV::cst(0, ew), m1(ew, TRUE_); minv[ew - 1] = TRUE_; oblige(D.AND(pc.lit, D.AND(bv.eq(x, minv), bv.eq(y, m1))), "division");
          bv.udivrem(bv.ite(sx, bv.neg(x), x), bv.ite(sy, bv.neg(y), y), q, m); r = opc == Instruction::SDiv ? bv.ite(D.XOR(sx, sy), bv.neg(q), q) : bv.ite(sx, bv.neg(m), m); }
        break; }
      }
      if (isv) out.append(r.begin(), r.end()); else out = r;
    }
    R = Val::bits(out); return; }
  case Instruction::ICmp: {
    auto &C = cast<ICmpInst>(I); Val a = op(0), b = op(1); auto P = C.getPredicate(); 
    if (a.k == Val::PTR) {
      if (P == ICmpInst::ICMP_EQ || P == ICmpInst::ICMP_NE) { Lit e = ptrEq(a.p, b.p); R = Val::bits(Bits(1, P == ICmpInst::ICMP_EQ ? e : NOT(e))); return; }
      simpPtr(a.p, pc); simpPtr(b.p, pc);
      if (a.p.size() == 1 && b.p.size() == 1 && a.p[0].obj == b.p[0].obj) { Bits x = offBits(a.p[0]), y = offBits(b.p[0]); a = Val::bits(x); b = Val::bits(y); P = (P == ICmpInst::ICMP_ULT) ? ICmpInst::ICMP_SLT : (P == ICmpInst::ICMP_ULE) ? ICmpInst::ICMP_SLE : (P == ICmpInst::ICMP_UGT) ? ICmpInst::ICMP_SGT : (P == ICmpInst::ICMP_UGE) ? ICmpInst::ICMP_SGE : P; }
      else { a = Val::bits(ptrAddr(a.p)); b = Val::bits(ptrAddr(b.p)); }
    }
    unsigned n = 1, w = a.b.size(); if (auto *V = dyn_cast<FixedVectorType>(C.getOperand(0)->getType())) { n = V->getNumElements(); w /= n; }
    Bits out; for (unsigned e = 0; e < n; e++) { Bits x = n > 1 ? lane(a.b, e, w) : a.b, y = n > 1 ? lane(b.b, e, w) : b.b; Lit l;
      switch (P) { case ICmpInst::ICMP_EQ: l = bv.eq(x, y); break; case ICmpInst::ICMP_NE: l = NOT(bv.eq(x, y)); break;
      case ICmpInst::ICMP_ULT: l = bv.ult(x, y); break; case ICmpInst::ICMP_UGE: l = NOT(bv.ult(x, y)); break; case ICmpInst::ICMP_UGT: l = bv.ult(y, x); break; case ICmpInst::ICMP_ULE: l = NOT(bv.ult(y, x)); break;
      case ICmpInst::ICMP_SLT: l = bv.slt(x, y); break; case ICmpInst::ICMP_SGE: l = NOT(bv.slt(x, y)); break; case ICmpInst::ICMP_SGT: l = bv.slt(y, x); break; case ICmpInst::ICMP_SLE: l = NOT(bv.slt(y, x)); break; default: fail("icmp"); }
      out.push_back(l); }
    R = Val::bits(out); return; }
  case Instruction::Select: {
    Val c = op(0), a = op(1), b = op(2);
    if (c.b.size() == 1) { Lit l = c.b[0]; if (!pc.trivial() && l > 1) l = simp(l, pc); if (satMode && l > 1) { int d = decideLit(l, pc); if (d >= 0) l = d; } R = mergeVal(l, a, b); return; }
    Bits out(a.b.size()); unsigned w = a.b.size() / c.b.size(); for (unsigned i = 0; i < out.size(); i++) out[i] = D.ITE(c.b[i / w], a.b[i], b.b[i]); R = Val::bits(out); return; }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
    Val a = op(0); unsigned iw = a.b.size() / ne; Bits out; for (unsigned e = 0; e < ne; e++) { Bits x = isv ? lane(a.b, e, iw) : a.b; x = I.getOpcode() == Instruction::ZExt ? bv.zext(x, ew) : I.getOpcode() == Instruction::SExt ? bv.sext(x, ew) : bv.truncl(x, ew); if (isv) out.append(x.begin(), x.end()); else out = x; }
    R = Val::bits(out); return; }
  case Instruction::BitCast: {
    Val a = op(0); Type *S = I.getOperand(0)->getType(); if (a.k == Val::PTR) { R = a; return; }
    auto el = [&](Type *X) { auto *V = dyn_cast<FixedVectorType>(X); return V ? tyBits(V->getElementType()) : 0u; };
    if (BE && el(S) != el(T)) R = Val::bits(fromMem(T, toMem(S, a.b))); else R = a; return; }
  case Instruction::PtrToInt: { Val a = op(0); simpPtr(a.p, pc); Bits b = ptrAddr(a.p); R = Val::bits(bv.trunc(b, std::min<unsigned>(ew, 64))); return; }
  case Instruction::IntToPtr: fail("inttoptr");
  case Instruction::Freeze: R = op(0); return;
  case Instruction::ExtractElement: { Val a = op(0), x = op(1); unsigned w = tyBits(T); uint64_t k; if (BV::val(x.b, k)) { if ((k + 1) * w > a.b.size()) { oblige(pc.lit, "vector-index"); R = undefOf(T); return; } R = Val::bits(lane(a.b, k, w)); return; }
    Bits r; unsigned n = a.b.size() / w; for (unsigned e = 0; e < n; e++) { Bits l = lane(a.b, e, w); r = e ? bv.ite(bv.eq(x.b, BV::cst(e, x.b.size())), l, r) : l; } oblige(D.AND(pc.lit, NOT(bv.ult(x.b, BV::cst(n, x.b.size())))), "vector-index"); R = Val::bits(r); return; }
  case Instruction::InsertElement: { Val a = op(0), v = op(1), x = op(2); uint64_t k; if (!BV::val(x.b, k)) fail("insertelement index"); unsigned w = v.b.size(); for (unsigned i = 0; i < w; i++) a.b[k * w + i] = v.b[i]; R = a; return; }
  case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); Val a = op(0), b = op(1); unsigned w = ew, n = a.b.size() / w; Bits out; for (int m : S.getShuffleMask()) { if (m < 0) { Bits u = freshUndef(w); out.append(u.begin(), u.end()); } else { const Bits &s = (unsigned)m < n ? a.b : b.b; unsigned e = (unsigned)m < n ? m : m - n; out.append(s.begin() + e * w, s.begin() + (e + 1) * w); } } R = Val::bits(out); return; }
  case Instruction::ExtractValue: { Val a = op(0); for (unsigned i : cast<ExtractValueInst>(I).indices()) { Val t = a.agg[i]; a = t; } R = a; return; }
  case Instruction::InsertValue: { Val a = op(0), v = op(1); auto ix = cast<InsertValueInst>(I).indices(); Val *p = &a; for (unsigned i : ix) p = &p->agg[i]; *p = v; R = a; return; }
  default: fail("instruction " + std::string(I.getOpcodeName()));
  }
}
Val Exec::doCall(Frame &fr, const CallBase &CB, const PC &pc) {
  if (CB.isInlineAsm()) fail("inline assembly");
  if (isa<DbgInfoIntrinsic>(CB)) return Val();
  std::vector<Val> args; for (auto &A : CB.args()) args.push_back(A->getType()->isMetadataTy() ? Val() : operand(fr, A.get()));
  Function *F = CB.getCalledFunction();
  if (!F) { Val p = operand(fr, CB.getCalledOperand()); simpPtr(p.p, pc); if (p.p.size() != 1 || p.p[0].obj != O_FUNC) fail("indirect call"); F = funcs[p.p[0].off]; }
  Val r; if (F->isDeclaration() || F->getName().starts_with("vc_")) { if (builtin(F->getName().str(), &CB, F, args, pc, r)) return r; fail("call of unknown function " + F->getName().str()); }
  return call(F, std::move(args), pc);
}
