// Loops without a bound, and payloads without a bound.
//
// A payload of any length is an array object: its content is a stack of
// layers over an uninterpreted function of the byte index.  A loop whose
// number of iterations is not constant is cut with a candidate invariant
// written in the harness (NAME__pred, NAME__at, NAME__end, NAME__ghost):
//   1. the invariant holds on entry,
//   2. one execution of the body from any state that satisfies it, after any
//      number t of iterations, re-establishes it for t + 1,
//   3. the loop goes on while t < end and stops at t = end.
// Affine variables (value on entry + c * t) are found by executing the body
// on fresh variables; the relation between the rest of the loop state and the
// ghost state of the invariant is guessed from random runs and then proved.
#include "exec.h"
using namespace llvm;

Bits Exec::wordVar(const std::string &nm, unsigned bits) {
  int gi = groups.size(); groups.push_back({nm, (unsigned)((bits + 7) / 8 * 8), (uint32_t)D.vars.size()});
  Bits b(64, FALSE_); for (unsigned i = 0; i < (bits + 7) / 8 * 8; i++) { Lit l = D.var(gi, i); if (i < bits) b[i] = l; } return b;
}
// is c decided where pc holds?  1, 0 or -1
int Exec::decideLit(Lit c, const PC &pc) {
  if (c <= 1) return c;
  if (!pc.trivial()) { c = simp(c, pc); if (c <= 1) return c; }
  if (!satMode) return -1;
  { Lit x = D.AND(pc.lit, c), y = D.AND(pc.lit, NOT(c)); if (x == FALSE_) return 0; if (y == FALSE_) return 1; }
  auto key = std::make_pair(pc.lit, c); auto it = decided_.find(key); if (it != decided_.end()) return it->second;
  // arithmetic on words only
  { std::vector<uint32_t> st{nd(c)}; std::set<uint32_t> seen{nd(c)}; bool ok = true; while (!st.empty() && ok) { uint32_t i = st.back(); st.pop_back(); const Node &n = D.N[i]; auto push = [&](Lit l) { if (l > 1 && seen.insert(nd(l)).second) st.push_back(nd(l)); }; switch (n.t) { case N_ITE: push(n.c); case N_AND: case N_XOR: push(n.a); push(n.b); break; case N_VAR: break; default: ok = false; } if (seen.size() > 4000) ok = false; } if (!ok) { decided_[key] = -1; return -1; } }
  bool can[2] = {false, false};
  for (auto &m : models) { std::vector<uint8_t> vv = m, o; vv.resize(D.vars.size(), 0); std::vector<unsigned> dv(D.doms.size(), ~0u); evaluate({pc.lit, c}, o, vv, dv); if (o[0]) can[o[1]] = true; if (can[0] && can[1]) break; }
  int r = -1;
  for (int v = 1; v >= 0 && r < 0; v--) if (!can[v]) {
    std::string cx; bool sp; lastModel.clear(); double sl = satLimit; satLimit = std::min(satLimit, 3.); int s = sat(D.AND(pc.lit, v ? c : NOT(c)), cx, sp); satLimit = sl;
   
    if (s < 0 && inCut && ++cutTimeouts > 3) fail("too many hard queries"); if (s == 0) r = !v; else if (s == 1 && !lastModel.empty()) { if (models.size() > 200) models.erase(models.begin()); models.push_back(lastModel); } }
  decided_[key] = r; return r;
}
// an index that was used before and is equal where pc holds
Bits Exec::canonIndex(const std::string &nm, const Bits &x0, const PC &pc) {
  auto &reps = repsOf[nm];
  Bits x = x0.size() == 32 ? x0 : bv.truncl(x0, 32); { Bits y = x; simpBits(y, pc); uint64_t v; if (BV::val(y, v)) return y; }
  for (auto &r : reps) if (r == x) return r;
  for (auto &r : reps) {
    int q = bv.sameForm(r, x); if (q == 1) return r; if (q == 0) continue;
    bool no = false; for (unsigned i = 0; i < 32 && !no; i++) if (r[i] == NOT(x[i])) no = true; if (no) continue;
    { Lit e = bv.eqlin(r, x);    if (decideLit(e, pc) == 1) return r; } }
  reps.push_back(x); return x;
}
std::vector<Lit> Exec::wordFn(const std::string &nm, const std::vector<Lit> &key, const Bits &x, unsigned bits, const PC &pc) {
  Bits i = canonIndex(nm, x, pc); std::vector<Lit> in = key, out(bits); in.insert(in.end(), i.begin(), i.begin() + 32); D.UF(D.ufId("vc_" + nm), in.data(), in.size(), out.data(), bits); return out;
}
Bits Exec::callAt(const std::string &fn, const Bits &t, const Bits &x, int prove, const PC &pc) {
  Function *F = M.getFunction(fn + "__at"); if (!F) fail("no " + fn + "__at");
  Val r = call(F, {Val::bits(t), Val::bits(bv.zext(bv.truncl(x, 32), 64)), Val::bits(BV::cst(prove, 32))}, pc); return bv.trunc(r.b, 8);
}
Bits Exec::arrByte(int ob, size_t n, const Bits &x64, const PC &pc) {
  Bits x = bv.truncl(x64, 32);  // no payload is larger, and every access is checked against its size
  for (size_t j = n; j-- > 0;) {
    ArrLayer l = objs[ob].L[j];
    if (l.kind == 0) {
      Bits off = bv.truncl(Bits(l.off.begin(), l.off.end()), 32); int hit = -1; std::vector<std::pair<Lit, unsigned>> may;
      for (unsigned k = 0; k < l.n; k++) {
        Bits a = k ? bv.add(off, BV::cst(k, 32)) : off; bool no = false; for (unsigned i = 0; i < 32 && !no; i++) if (a[i] == NOT(x[i])) no = true; if (no) continue;
        int q = bv.sameForm(a, x); if (q == 0) continue; if (q == 1) { hit = k; break; } Lit e = bv.eqlin(a, x); int d = decideLit(e, pc); if (d == 1) { hit = k; break; } if (d < 0) may.push_back({e, k}); }
      int g = decideLit(l.g, pc); if (g == 0) continue;
      auto val = [&](unsigned k) { return Bits(l.val.begin() + 8 * k, l.val.begin() + 8 * k + 8); };
      if (hit >= 0 && g == 1) { Bits r = val(hit); simpBits(r, pc); return r; }
      if (hit < 0 && may.empty()) continue;
      Bits r = arrByte(ob, j, x, pc); if (hit >= 0) return bv.ite(l.g, val(hit), r);
      for (auto &m : may) r = bv.ite(D.AND(l.g, m.first), val(m.second), r); return r;
    }
    Lit in = l.g; int g = decideLit(in, pc); if (g == 0) continue;
    if (l.kind == 1) {
      Bits s = bv.truncl(Bits(l.off.begin(), l.off.end()), 32), d = bv.sub(x, s); Lit c = D.AND(NOT(bv.ult(x, s)), bv.ult(bv.zext(d, 64), l.len)); int dc = decideLit(c, pc); if (dc == 0) continue;
      Bits r = arrByte(ob, j, x, pc); auto k = wordFn("ks", l.key, d, 8, pc); Lit gg = D.AND(g == 1 ? TRUE_ : in, dc == 1 ? TRUE_ : c);
      for (unsigned i = 0; i < 8; i++) r[i] = D.XOR(r[i], D.AND(gg, k[i])); return r;
    }
    if (g == 1) return callAt(l.fn, l.t, x, 0, pc);
    Bits a = callAt(l.fn, l.t, x, 0, pcAdd(pc, in)), b = arrByte(ob, j, x, pcAdd(pc, NOT(in))); return bv.ite(in, a, b);
  }
  auto o = wordFn("base:" + objs[ob].name, {}, x, 8, pc); return Bits(o.begin(), o.end());
}
void Exec::arrCheck(int ob, const Bits &off, uint64_t size, uint64_t align, const PC &pc, bool st) {
  Obj &o = objs[ob]; Bits sz = o.symSize; Lit bad = D.OR(bv.ult(sz, BV::cst(size, 64)), bv.ult(bv.sub(sz, BV::cst(size, 64)), off));
  oblige(D.AND(pc.lit, bad), "bounds", o.name);
  if (o.dead) oblige(pc.lit, "lifetime", o.name); if (st && o.ro) oblige(pc.lit, "read-only", o.name);
  if (st) oblige(frameOn && o.prot ? pc.lit : FALSE_, "frame", "store to " + o.name);
  if (align > 1) { Lit b = o.align % align ? TRUE_ : FALSE_; for (unsigned i = 0; (2u << i) <= align; i++) b = D.OR(b, off[i]); oblige(D.AND(pc.lit, b), "alignment", o.name); }
}
bool Exec::arrPtr(const PtrV &p, int &ob, Bits &off) {
  bool any = false; for (auto &a : p) if (a.obj >= 0 && objs[a.obj].arr) any = true; if (!any) return false;
  if (p.size() != 1) fail("several targets of an access to a payload"); ob = p[0].obj; off = offBits(p[0]); return true;
}
Bits Exec::arrLoad(int ob, const Bits &off, uint64_t size, uint64_t align, const PC &pc) {
  arrCheck(ob, off, size, align, pc, false); Bits r;
  for (uint64_t k = 0; k < size; k++) { Bits b = arrByte(ob, objs[ob].L.size(), k ? bv.add(off, BV::cst(k, 64)) : off, pc); r.append(b.begin(), b.end()); }
  return r;
}
void Exec::arrStore(int ob, const Bits &off, const Bits &v, uint64_t align, const PC &pc) {
  arrCheck(ob, off, v.size() / 8, align, pc, true);
  ArrLayer l; l.kind = 0; l.off = OffBits(off.begin(), off.end()); l.n = v.size() / 8; l.val = v; l.g = pc.lit; objs[ob].L.push_back(l);
}

// ---------------------------------------------------------------- cutting a loop
struct Exec::Snap { std::vector<Obj> objs; Frame fr; std::vector<Obligation> pending; std::vector<Failure> failures; decltype(counts) cnt; decltype(seenObl) seen; std::set<std::string> notes; int depth; std::string fn; const Instruction *I; bool fo; };
void Exec::save(Snap &s, Frame &fr) { s.objs = objs; s.fr = fr; s.pending = pending; s.failures = failures; s.cnt = counts; s.seen = seenObl; s.notes = notes; s.depth = depth; s.fn = curFn; s.I = curI; s.fo = frameOn; }
void Exec::restore(const Snap &s, Frame &fr) { objs = s.objs; fr = s.fr; pending = s.pending; failures = s.failures; counts = s.cnt; seenObl = s.seen; notes = s.notes; depth = s.depth; curFn = s.fn; curI = s.I; frameOn = s.fo; }

std::shared_ptr<Exec::Snap> Exec::newSnap(Frame &fr) { auto s = std::make_shared<Snap>(); save(*s, fr); return s; }

std::vector<Edge> Exec::runBody(Frame &fr, LoopRec *L, std::vector<Val> phis, const PC &pc) {
  int hi = fr.fi->idx[L->header]; std::vector<Edge> in(1); in[0].from = -1; in[0].pc = pc; in[0].phis = std::move(phis);
  execBlock(fr, hi, std::move(in), pc); runBlocks(fr, L); std::vector<Edge> back = std::move(fr.in[hi]); fr.in[hi].clear(); return back;
}
// equal where pc holds?  Returns the positions that could not be shown.
std::vector<size_t> Exec::differing(std::vector<Lit> a, std::vector<Lit> b, const PC &pc, bool useSat, const char *what) {
  std::vector<size_t> ix; std::vector<Lit> x, y;
  for (size_t i = 0; i < a.size(); i++) { Lit p = a[i], q = b[i]; if (!pc.trivial()) { p = simp(p, pc); q = simp(q, pc); } if (p == q) { counts["loop-invariant"]["structural"]++; continue; } ix.push_back(i); x.push_back(D.AND(pc.lit, p)); y.push_back(D.AND(pc.lit, q)); }
  if (x.empty()) return {};
  std::vector<size_t> r, rest, rest2;
  // the terms themselves first, then under the path condition
  { std::vector<Lit> u, v; for (size_t i : ix) { u.push_back(a[i]); v.push_back(b[i]); } fraigEq(u, v); for (size_t i = 0; i < u.size(); i++) if (u[i] == v[i]) counts["loop-invariant"]["sweeping"]++; else rest2.push_back(i); }
  if (rest2.empty()) return {};
  { std::vector<Lit> u, v; for (size_t i : rest2) { u.push_back(x[i]); v.push_back(y[i]); } fraigEq(u, v); for (size_t i = 0; i < u.size(); i++) { x[rest2[i]] = u[i]; y[rest2[i]] = v[i]; if (u[i] == v[i]) counts["loop-invariant"]["sweeping"]++; else rest.push_back(rest2[i]); } }
  for (size_t i : rest) { bool ok = false; if (useSat) { std::string cx; bool sp; double sl = satLimit; satLimit = std::min(satLimit, 20.); int s = sat(D.XOR(x[i], y[i]), cx, sp); satLimit = sl; ok = s == 0;
    if (s < 0 && inCut && ++cutTimeouts > 3) fail("too many hard queries"); if (!ok && !loopHint.count(what)) loopHint[what] = cx; } if (ok) counts["loop-invariant"]["sat"]++; else r.push_back(ix[i]); }
  return r;
}
static const Bits *asBits(const Val &v) { return v.k == Val::BITS ? &v.b : nullptr; }

bool Exec::tryCut(Frame &fr, LoopRec *L, const PC &pc0, const Snap &S0, const std::vector<Val> &phis0, std::set<std::pair<int, uint64_t>> cells, const std::string &cand, std::string &why) {
  auto fnOf = [&](const char *s) { return M.getFunction(cand + s); };
  if (!fnOf("__pred") || !fnOf("__end")) { why = "no such invariant"; return false; }
  auto pred = [&](const Bits &t, const PC &pc) { Val r = call(fnOf("__pred"), {Val::bits(t)}, pc); Lit l = FALSE_; for (Lit x : r.b) l = D.OR(l, x); return l; };
  auto ghost = [&](const Bits &t, int mode, const PC &pc) { std::vector<Lit> g; Function *F = fnOf("__ghost"); if (!F) return g; int o = newObj("ghost", 64, 16); objs[o].allocPc = pc.lit; need(objs[o], 64); for (auto &l : objs[o].m) l = FALSE_; call(F, {Val::bits(t), Val::bits(BV::cst(mode, 32)), Val::ptr(o, 0)}, pc); Bits b = getBits(o, 0, 64); g.assign(b.begin(), b.end()); return g; };
  std::vector<int> arrs; for (size_t i = 0; i < objs.size(); i++) if (objs[i].arr) arrs.push_back(i);
  size_t nobj = S0.objs.size();
  for (int round = 0; round < 4; round++) {
    // --- which loop variables are affine
    restore(S0, fr); std::vector<Val> F = phis0; std::vector<int> cls(F.size(), 2); std::vector<uint64_t> coef(F.size(), 0);
    for (auto &v : F) { if (v.k == Val::BITS) v.b = freshUndef(v.b.size()); else if (v.k == Val::PTR) { if (v.p.size() != 1 || v.p[0].obj < 0) { why = "pointer variable"; return false; } Bits s = freshUndef(64); v.p[0].off = 0; v.p[0].sym.assign(s.begin(), s.end()); } else { why = "kind of variable"; return false; } }
    for (auto &c : cells) for (int i = 0; i < 8; i++) objs[c.first].m[c.second * 8 + i] = D.var(-1, 0);
    { bool sm = satMode; satMode = false; std::vector<Edge> back; try { back = runBody(fr, L, F, pc0); } catch (EngineError &) { satMode = sm; throw; } satMode = sm;
      if (back.size() != 1) { why = "no single back edge"; return false; }
      for (size_t j = 0; j < F.size(); j++) { Val &nx = back[0].phis[j]; Bits f, g; if (F[j].k == Val::BITS) { f = F[j].b; g = nx.b; } else { if (nx.k != Val::PTR || nx.p.size() != 1 || nx.p[0].obj != F[j].p[0].obj) continue; f = offBits(F[j].p[0]); g = offBits(nx.p[0]); }
        if (f == g) { cls[j] = 0; continue; }
        for (int64_t c : {1, -1, 2, -2, 4, -4, 8, -8, 16, -16, 32, 64}) if (bv.add(f, BV::cst((uint64_t)c, f.size())) == g) { cls[j] = 1; coef[j] = (uint64_t)c; break; } } }
    bool again = false;
    auto grow = [&](const std::vector<Obj> &was) { for (size_t o = 0; o < nobj; o++) { if (objs[o].arr) continue; auto &m = objs[o].m; auto &w = was[o].m; for (size_t i = 0; i < m.size(); i++) { Lit old = i < w.size() ? w[i] : UNINIT; if (m[i] != old && old != UNINIT && cells.insert({(int)o, i / 8}).second) again = true; if (old == UNINIT && m[i] != UNINIT && cells.insert({(int)o, i / 8}).second) again = true; } for (size_t i = 0; i < m.size(); i++) if (m[i] == PTRBYTE && (i >= w.size() || w[i] != PTRBYTE)) fail("pointer stored in a loop"); if (objs[o].dead != was[o].dead) fail("lifetime changes in a loop"); }
      for (int o : ptrStored) if ((size_t)o < nobj) fail("pointer stored in a loop"); };
    for (size_t j = 0; j < F.size(); j++) if (cls[j] == 2 && F[j].k != Val::BITS) { why = "pointer variable is not affine"; return false; }
    // --- correspondence with the ghost state, guessed from random runs
    struct Cell { int phi; int obj; uint64_t bit; }; std::vector<Cell> cl; std::vector<Lit> ev;
    for (size_t j = 0; j < F.size(); j++) if (cls[j] == 2) for (size_t i = 0; i < phis0[j].b.size(); i++) { cl.push_back({(int)j, -1, i}); ev.push_back(phis0[j].b[i]); }
    for (auto &c : cells) for (int i = 0; i < 8; i++) { Lit l = c.second * 8 + i < S0.objs[c.first].m.size() ? S0.objs[c.first].m[c.second * 8 + i] : UNINIT; if (l == PTRBYTE) fail("pointer stored in a loop"); cl.push_back({-1, c.first, c.second * 8 + i}); ev.push_back(l); }
    restore(S0, fr); std::vector<Lit> g0 = ghost(BV::cst(0, 64), 2, pc0); std::vector<int> map(cl.size(), -1); std::vector<char> neg(cl.size(), 0);
    if (!g0.empty() && !cl.empty()) {
      std::vector<Lit> all = g0; for (Lit l : ev) all.push_back(l == UNINIT ? FALSE_ : l); std::vector<uint64_t> sig(all.size(), 0);
      for (int k = 0; k < 64; k++) { std::vector<uint8_t> vv(D.vars.size(), 2), o; std::vector<unsigned> dv(D.doms.size(), ~0u); evaluate(all, o, vv, dv); for (size_t i = 0; i < all.size(); i++) sig[i] |= (uint64_t)o[i] << k; }
      std::map<uint64_t, int> at; for (size_t i = 0; i < g0.size(); i++) if (sig[i] && ~sig[i] && !at.count(sig[i])) at[sig[i]] = i;
      for (size_t i = 0; i < cl.size(); i++) { if (ev[i] == UNINIT) continue; uint64_t s = sig[g0.size() + i]; if (!s || !~s) { map[i] = -2; neg[i] = s & 1; } else if (at.count(s)) map[i] = at[s]; else if (at.count(~s)) { map[i] = at[~s]; neg[i] = 1; } }
    }
    for (int hou = 0; hou < 8 && !again; hou++) {
      restore(S0, fr); loopHint.clear();
      Bits t = wordVar("t", 32), t1, T;
      { Val e = call(fnOf("__end"), {}, pc0); T = e.b; }
      if (fnOf("__var")) t = call(fnOf("__var"), {Val::bits(t)}, pc0).b; // counts down
      t1 = bv.add(t, BV::cst(1, 64));
      // entry
      if (decideLit(pred(BV::cst(0, 64), pc0), pc0) != 1) { why = "not established"; return false; }
      { std::vector<Lit> a, b; std::vector<size_t> w; for (size_t i = 0; i < cl.size(); i++) if (map[i] != -1) { a.push_back(ev[i]); b.push_back(map[i] == -2 ? (Lit)neg[i] : g0[map[i]] ^ neg[i]); w.push_back(i); }
        auto d = differing(a, b, pc0, false, "entry"); for (size_t i : d) map[w[i]] = -1; }
      for (int ob : arrs) for (auto &xs : entryOffsets(ob, pc0)) { Bits x = xs; Bits rd = arrByte(ob, objs[ob].L.size(), x, pc0), wt = callAt(cand, BV::cst(0, 64), x, 1, pc0); if (!differing({rd.begin(), rd.end()}, {wt.begin(), wt.end()}, pc0, true, "entry").empty()) { why = "content not established"; return false; } }
      for (int ob : arrs) if (fnOf("__at")) { Bits x = wordVar("x", 32); PC px = pcAdd(pc0, bv.ult(x, objs[ob].symSize)); for (size_t j = topLayer(ob, pc0); j < objs[ob].L.size(); j++) if (ArrLayer l = objs[ob].L[j]; l.kind == 0) px = pcAdd(px, NOT(bv.ult(bv.sub(x, Bits(l.off.begin(), l.off.end())), BV::cst(l.n, 64)))); Bits rd = arrByte(ob, objs[ob].L.size(), x, px), wt = callAt(cand, BV::cst(0, 64), x, 1, px); if (!differing({rd.begin(), rd.end()}, {wt.begin(), wt.end()}, px, true, "entry").empty()) { why = "content not established"; return false; } }
      PC pc1 = pcAdd(pc0, pred(t, pc0));
      // the state after t iterations
      auto state = [&](const Bits &tt, const PC &pc) {
        std::vector<Val> ph = phis0; std::vector<Lit> g = ghost(tt, 0, pc);
        for (size_t j = 0; j < ph.size(); j++) { if (cls[j] == 1) { if (ph[j].k == Val::BITS) { unsigned w = ph[j].b.size(); Bits tw = w <= 64 ? bv.truncl(tt, w) : bv.zext(tt, w); ph[j].b = bv.add(ph[j].b, bv.mul(tw, BV::cst(coef[j], w))); } else { Bits s = bv.mul(tt, BV::cst(coef[j], 64)); ph[j].p = addOff(ph[j].p, 0, &s); } } else if (cls[j] == 2) ph[j].b = freshUndef(ph[j].b.size()); }
        for (auto &c : cells) { need(objs[c.first], c.second + 1); for (int i = 0; i < 8; i++) objs[c.first].m[c.second * 8 + i] = D.var(-1, 0); }
        for (size_t i = 0; i < cl.size(); i++) if (map[i] != -1) { Lit l = map[i] == -2 ? (Lit)neg[i] : g[map[i]] ^ neg[i]; if (cl[i].phi >= 0) ph[cl[i].phi].b[cl[i].bit] = l; else objs[cl[i].obj].m[cl[i].bit] = l; }
        if (fnOf("__at")) for (int ob : arrs) { ArrLayer l; l.kind = 2; l.fn = cand; l.t = tt; l.g = pc0.lit; objs[ob].L.push_back(l); }
        return ph; };
      std::vector<Val> ph = state(t, pc1); std::vector<Obj> was = objs; std::vector<size_t> nl; for (int ob : arrs) nl.push_back(objs[ob].L.size());
      ptrStored.clear(); std::vector<Edge> back = runBody(fr, L, ph, pc1);
      grow(was); if (again) break;
      if (back.size() != 1) { why = "no single back edge"; return false; }
      PC pc2 = back[0].pc; bool bad = false;
      if (decideLit(pred(t1, pc2), pc2) != 1) { why = "not preserved"; return false; }
      for (size_t j = 0; j < ph.size(); j++) if (cls[j] != 2) { Lit e; if (ph[j].k == Val::BITS) e = bv.eq(back[0].phis[j].b, bv.add(ph[j].b, BV::cst(coef[j], ph[j].b.size()))); else { Val &nx = back[0].phis[j]; if (nx.p.size() != 1 || nx.p[0].obj != ph[j].p[0].obj) { why = "pointer"; return false; } e = bv.eq(offBits(nx.p[0]), bv.add(offBits(ph[j].p[0]), BV::cst(coef[j], 64))); } if (decideLit(e, pc2) != 1) { why = "variable " + std::to_string(j) + " is not affine"; return false; } }
      { std::vector<Lit> g = ghost(t1, 1, pc2), a, b; std::vector<size_t> w; for (size_t i = 0; i < cl.size(); i++) if (map[i] != -1) { Lit l; if (cl[i].phi >= 0) l = back[0].phis[cl[i].phi].b[cl[i].bit]; else l = objs[cl[i].obj].m[cl[i].bit]; if (l == UNINIT) l = D.var(-1, 0); a.push_back(l); b.push_back(map[i] == -2 ? (Lit)neg[i] : g[map[i]] ^ neg[i]); w.push_back(i); }
        auto d = differing(a, b, pc2, false, "step"); for (size_t i : d) { map[w[i]] = -1; bad = true; } }
      if (bad) continue;
      for (size_t q = 0; q < arrs.size(); q++) {
        int ob = arrs[q]; size_t n = objs[ob].L.size(); if (!fnOf("__at")) { if (n != nl[q]) { why = "payload changes"; return false; } continue; }
        Bits x = wordVar("x", 32); PC px = pcAdd(pc2, bv.ult(x, objs[ob].symSize));
        for (size_t j = nl[q]; j < n; j++) { ArrLayer l = objs[ob].L[j]; if (l.kind) { why = "nested change of the payload"; return false; } Bits off(l.off.begin(), l.off.end()); px = pcAdd(px, NOT(bv.ult(bv.sub(x, off), BV::cst(l.n, 64))));
          for (unsigned k = 0; k < l.n; k++) { Bits xx = k ? bv.add(off, BV::cst(k, 64)) : off; Bits rd = arrByte(ob, n, xx, pc2), wt = callAt(cand, t1, xx, 1, pc2); if (!differing({rd.begin(), rd.end()}, {wt.begin(), wt.end()}, pc2, true, "step").empty()) { why = "content written is not preserved"; return false; } } }
        Bits rd = arrByte(ob, n, x, px), wt = callAt(cand, t1, x, 1, px); if (!differing({rd.begin(), rd.end()}, {wt.begin(), wt.end()}, px, true, "step").empty()) { why = "content elsewhere is not preserved"; return false; }
      }
      // the number of iterations
      Lit lt = bv.ult(t, T); if (decideLit(lt, pc2) != 1) { why = "does not stop at the end"; return false; }
      for (size_t b = 0; b < fr.in.size(); b++) { BasicBlock *bb = nullptr; if (b < fr.fi->rpo.size() && L->blocks.count(fr.fi->rpo[b])) continue; size_t old = S0.fr.in[b].size(); for (size_t k = old; k < fr.in[b].size(); k++) if (decideLit(bv.eq(t, T), fr.in[b][k].pc) != 1) { why = "stops before the end"; return false; } (void)bb; }
      // accepted: keep the obligations of the body, continue behind the loop
      auto pd = pending; auto cn = counts; auto se = seenObl; auto nt = notes; restore(S0, fr); pending = pd; counts = cn; seenObl = se; notes = nt;
      std::vector<Val> fin = state(T, pc0); auto pd2 = pending; auto cn2 = counts; auto se2 = seenObl;
      std::vector<Edge> bk = runBody(fr, L, fin, pc0); pending = pd2; counts = cn2; seenObl = se2;
      if (!bk.empty() && decideLit(bk[0].pc.lit, pc0) != 0) { why = "end not reached"; return false; }
      // what the last execution of the body has written, summarised
      if (fnOf("__at")) for (int ob : arrs) {
        size_t n = objs[ob].L.size(), n0 = topLayer(ob, pc0); if (n0 == n) continue; Bits T1 = bv.add(T, BV::cst(1, 64)), x = wordVar("x", 32); PC px = pcAdd(pc0, bv.ult(x, objs[ob].symSize)); bool ok = true;
        for (size_t j = n0; j < n && ok; j++) { ArrLayer l = objs[ob].L[j]; if (l.kind) { ok = false; break; } Bits off(l.off.begin(), l.off.end()); px = pcAdd(px, NOT(bv.ult(bv.sub(x, off), BV::cst(l.n, 64))));
          for (unsigned k = 0; k < l.n && ok; k++) { Bits xx = k ? bv.add(off, BV::cst(k, 64)) : off, rd = arrByte(ob, n, xx, pc0), wt = callAt(cand, T1, xx, 1, pc0); ok = differing({rd.begin(), rd.end()}, {wt.begin(), wt.end()}, pc0, true, "end").empty(); } }
        if (ok) { Bits rd = arrByte(ob, n, x, px), wt = callAt(cand, T1, x, 1, px); ok = differing({rd.begin(), rd.end()}, {wt.begin(), wt.end()}, px, true, "end").empty(); }
        if (ok) { ArrLayer l; l.kind = 2; l.fn = cand; l.t = T1; l.g = pc0.lit; objs[ob].L.push_back(l); } }
      counts["loop-invariant"]["structural"] += 3; results.push_back("loop of " + curFn + " cut with " + cand);
      return true;
    }
    if (!again) { why = "no relation to the ghost state is inductive"; return false; }
  }
  why = "loop state keeps growing"; return false;
}
// the layers of a payload from here on have not been summarised by a loop
size_t Exec::topLayer(int ob, const PC &pc) { for (size_t j = objs[ob].L.size(); j-- > 0;) if (objs[ob].L[j].kind == 2 && decideLit(objs[ob].L[j].g, pc) == 1) return j + 1; return 0; }
std::vector<Bits> Exec::entryOffsets(int ob, const PC &pc) { std::vector<Bits> r; for (size_t j = topLayer(ob, pc); j < objs[ob].L.size(); j++) { ArrLayer l = objs[ob].L[j]; if (l.kind == 0) for (unsigned k = 0; k < l.n; k++) { Bits off(l.off.begin(), l.off.end()); r.push_back(k ? bv.add(off, BV::cst(k, 64)) : off); } } return r; }

// one iteration has been tried from S0 and turned out to depend on a condition
void Exec::cutLoop(Frame &fr, LoopRec *L, const PC &pc0, const Snap &S0, const std::vector<Val> &phis0, const std::vector<Obj> &after) {
  std::set<std::pair<int, uint64_t>> cells; std::string all; std::vector<std::string> hints;
  for (size_t o = 0; o < S0.objs.size(); o++) { if (after[o].arr) continue; auto &m = after[o].m; auto &w = S0.objs[o].m; for (size_t i = 0; i < m.size(); i++) if (m[i] != (i < w.size() ? w[i] : UNINIT)) cells.insert({(int)o, i / 8}); }
  for (auto &c : loopInvs) {
    std::string why; bool ok = false;
    inCut = true; cutTimeouts = 0;
    try { ok = tryCut(fr, L, pc0, S0, phis0, cells, c, why); } catch (EngineError &e) { why = e.msg; }
    inCut = false;
    if (getenv("VC_DEBUG")) fprintf(stderr, "%s: %s\n", c.c_str(), ok ? "ok" : why.c_str());
    if (ok) return; for (auto &h : loopHint) if (!h.second.empty()) hints.push_back(h.second); loopHint.clear(); all += " " + c + " (" + why + ");"; restore(S0, fr);
  }
  std::string why = "no candidate is an invariant of the loop:" + all; if (hints.empty()) hints.push_back("");
  for (auto &h : hints) failures.push_back({"loop-invariant", loc(), why, "undecided", h});
  fail("loop of " + curFn + " at " + loc() + ": no candidate is an invariant:" + all);
}
