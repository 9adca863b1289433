#include "exec.h"
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <chrono>
using namespace llvm;

// ---------------------------------------------------------------- cofactors and renaming
namespace {
struct Memo { std::vector<Lit> v; std::vector<uint32_t> e; uint32_t ep = 0; void start(size_t n) { if (v.size() < n) { v.resize(n + n / 4); e.resize(n + n / 4, 0); } ep++; } bool has(uint32_t i) { return i < e.size() && e[i] == ep; } void set(uint32_t i, Lit l) { if (i >= v.size()) { v.resize(i + i / 4 + 16); e.resize(v.size(), 0); } v[i] = l; e[i] = ep; } };
Memo memo;
struct Rebuild {
  Exec &X; Dag &D; const Restr &rs; const std::unordered_map<uint32_t, Lit> *subst; const std::unordered_map<int, int> *dmap; bool sweep = false;
  // the representative of a domain literal under the restrictions: the complement of a subset when the first admitted value is in it
  std::unordered_map<int, std::pair<Lit, Lit>> dr;
  Lit norm(Lit r) {
    if (rs.empty() || r <= 1 || D.N[nd(r)].t != N_DOM) return r; int d = D.N[nd(r)].a; auto it = dr.find(d);
    if (it == dr.end()) { Lit s = TRUE_; for (auto &x : rs) if (x.first == d) s = s == TRUE_ ? x.second : D.domAnd(s, x.second); Lit f = TRUE_; if (s != TRUE_) { auto v = D.litSet(s); std::vector<uint64_t> w(v.size(), 0); for (size_t j = 0; j < D.doms[d].n; j++) if ((v[j >> 6] >> (j & 63)) & 1) { w[j >> 6] |= 1ULL << (j & 63); break; } f = D.domLit(d, w); } it = dr.emplace(d, std::make_pair(s, f)).first; }
    Lit s = it->second.first, f = it->second.second; if (s <= 1) return r;
    if (D.domAnd(r, f) == FALSE_) return D.domAnd(r, s); return NOT(D.domAnd(NOT(r), s));
  }
  Lit go(Lit l) {
    if (l <= 1) return l; uint32_t id = nd(l); if (memo.has(id)) return memo.v[id] ^ (l & 1);
    Node n = D.N[id]; Lit r = id * 2;
    switch (n.t) {
    case N_VAR: if (subst) { auto it = subst->find(id); if (it != subst->end()) r = it->second; } if (sweep) D.sweepLeaf(nd(r)); break;
    case N_DOM: {
      if (dmap) { auto it = dmap->find(n.a); if (it != dmap->end()) r = D.domLit(it->second, *D.sets[n.b]); }
      r = norm(r);
      if (sweep && r > 1 && !D.isSwept(nd(r))) { Lit s = D.sweep(nd(r)); r = s ^ (r & 1); } break; }
    case N_AND: { Lit a = go(n.a), b = a == FALSE_ ? FALSE_ : go(n.b); r = (!sweep && a == n.a && b == n.b) ? id * 2 : D.AND(a, b); break; }
    case N_XOR: { Lit a = go(n.a), b = go(n.b); r = (!sweep && a == n.a && b == n.b) ? id * 2 : D.XOR(a, b); break; }
    case N_ITE: { Lit c = go(n.a); if (c == TRUE_) r = go(n.b); else if (c == FALSE_) r = go(n.c); else { Lit a = go(n.b), b = go(n.c); r = (!sweep && a == n.b && b == n.c && c == n.a) ? id * 2 : D.ITE(c, a, b); } break; }
    case N_LUT: { std::vector<Lit> a(n.b); for (unsigned i = 0; i < n.b; i++) { Lit x = D.pool[n.a + i]; a[i] = go(x); } r = D.LUT(*D.sets[n.c], a); break; }
    case N_UF: {
      UFApp ap = D.apps[n.a]; std::vector<Lit> a(ap.nargs); bool ch = false; for (unsigned i = 0; i < ap.nargs; i++) { Lit x = D.pool[ap.args + i]; a[i] = go(x); ch |= a[i] != x; }
      std::vector<Lit> o(ap.nout); if (ch) D.UF(ap.fn, a.data(), ap.nargs, o.data(), ap.nout); else for (unsigned i = 0; i < ap.nout; i++) o[i] = D.canon(ap.firstout + i);
      for (unsigned i = 0; i < ap.nout; i++) { if (sweep && D.N[nd(o[i])].t == N_UF) D.sweepLeaf(nd(o[i])); memo.set(ap.firstout + i, o[i]); } return memo.v[id] ^ (l & 1); }
    }
    if (n.t != N_DOM && n.t != N_VAR && !sweep) r = norm(r);
    memo.set(id, r); return r ^ (l & 1);
  }
};
}
static thread_local const std::unordered_map<int, int> *g_dmap = nullptr;
void Exec::cofactorAll(std::vector<Lit> &ls, const Restr &rs, const std::unordered_map<uint32_t, Lit> *subst) {
  if (rs.empty() && !subst && !g_dmap) return; memo.start(D.N.size()); Rebuild R{*this, D, rs, subst, g_dmap}; for (auto &l : ls) l = R.go(l);
}
Lit Exec::cofactor(Lit l, const Restr &rs) { std::vector<Lit> v{l}; cofactorAll(v, rs); return v[0]; }
// rebuild both sides with sweeping: nodes shown equal over a small cut are merged
void Exec::fraigEq(std::vector<Lit> &a, std::vector<Lit> &b) {
  memo.start(D.N.size()); static const Restr none; Rebuild R{*this, D, none, nullptr, nullptr, true};
  D.fraig = true;
  // in order of creation, both cones together
  std::vector<uint32_t> cone, st; { static Memo seen; seen.start(D.N.size()); auto push = [&](Lit l) { uint32_t i = nd(l); if (i && !seen.has(i)) { seen.set(i, 1); st.push_back(i); } };
    for (Lit l : a) push(l); for (Lit l : b) push(l);
    while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); cone.push_back(i); const Node &n = D.N[i]; switch (n.t) { case N_ITE: push(n.c); case N_AND: case N_XOR: push(n.a); push(n.b); break; case N_LUT: for (unsigned j = 0; j < n.b; j++) push(D.pool[n.a + j]); break; case N_UF: { auto &ap = D.apps[n.a]; for (unsigned j = 0; j < ap.nargs; j++) push(D.pool[ap.args + j]); break; } default: break; } } }
  std::sort(cone.begin(), cone.end());
  for (uint32_t i : cone) R.go(i * 2);
  for (auto &l : a) l = R.go(l); for (auto &l : b) l = R.go(l);
  D.fraig = false;
}

// the restricted values of a domain, grouped by what the terms tell apart
std::vector<Lit> Exec::domClasses(const std::vector<Lit> &a, const std::vector<Lit> &b, int d) {
  static Memo seen; seen.start(D.N.size()); std::vector<uint32_t> st; std::set<uint32_t> used; auto push = [&](Lit l) { uint32_t i = nd(l); if (i && !seen.has(i)) { seen.set(i, 1); st.push_back(i); } };
  for (Lit l : a) push(l); for (Lit l : b) push(l);
  while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); const Node n = D.N[i]; switch (n.t) { case N_ITE: push(n.c); case N_AND: case N_XOR: push(n.a); push(n.b); break; case N_LUT: for (unsigned j = 0; j < n.b; j++) push(D.pool[n.a + j]); break; case N_UF: { auto &ap = D.apps[n.a]; for (unsigned j = 0; j < ap.nargs; j++) push(D.pool[ap.args + j]); break; } case N_DOM: if ((int)n.a == d) used.insert(n.b); break; default: break; } }
  std::vector<std::vector<uint64_t>> rs; for (auto &r : restricts) if (r.first == d) rs.push_back(D.litSet(r.second)); std::map<std::vector<bool>, std::vector<uint64_t>> cl; std::vector<std::vector<bool>> order;
  for (unsigned j = 0; j < D.doms[d].n; j++) { bool in = true; for (auto &r : rs) in &= (r[j >> 6] >> (j & 63)) & 1; if (!in) continue; std::vector<bool> sg; for (uint32_t q : used) sg.push_back(((*D.sets[q])[j >> 6] >> (j & 63)) & 1); auto it = cl.find(sg); if (it == cl.end()) { it = cl.emplace(sg, std::vector<uint64_t>((D.doms[d].n + 63) / 64, 0)).first; order.push_back(sg); } it->second[j >> 6] |= 1ULL << (j & 63); }
  std::vector<Lit> r; for (auto &o : order) r.push_back(D.domLit(d, cl[o])); return r;
}
// conditions over lengths and counts only (a running maximum, say) that are constant under the restrictions
bool Exec::controlConst(std::vector<Lit> &a, std::vector<Lit> &b) {
  std::vector<uint32_t> cone, st; std::unordered_map<uint32_t, char> ctl; auto push = [&](Lit l) { uint32_t i = nd(l); if (i && ctl.emplace(i, 0).second) st.push_back(i); };
  auto kids = [&](uint32_t i, std::function<void(Lit)> f) { const Node n = D.N[i]; switch (n.t) { case N_ITE: f(n.c); case N_AND: case N_XOR: f(n.a); f(n.b); break; case N_LUT: for (unsigned j = 0; j < n.b; j++) f(D.pool[n.a + j]); break; case N_UF: { auto &ap = D.apps[n.a]; for (unsigned j = 0; j < ap.nargs; j++) f(D.pool[ap.args + j]); break; } default: break; } };
  for (Lit l : a) push(l); for (Lit l : b) push(l);
  while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); cone.push_back(i); kids(i, push); if (cone.size() > 4000000) return false; }
  std::sort(cone.begin(), cone.end()); std::set<uint32_t> front; controlLeft = false;
  // a node's operands are older than the node
  for (uint32_t i : cone) { auto t = D.N[i].t; if (t == N_DOM) ctl[i] = 1; else if (t == N_AND || t == N_XOR || t == N_ITE || t == N_LUT) { bool all = true; kids(i, [&](Lit l) { if (nd(l) && !ctl[nd(l)]) all = false; }); ctl[i] = all ? 2 : 0; } if (!ctl[i]) kids(i, [&](Lit l) { if (nd(l) && ctl[nd(l)] == 2) front.insert(nd(l)); }); }
  for (auto *v : {&a, &b}) for (Lit l : *v) if (nd(l) && ctl[nd(l)] == 2) front.insert(nd(l));
  if (front.empty()) return false; controlLeft = true; std::vector<Lit> f; for (uint32_t i : front) f.push_back(i * 2);
  std::vector<uint8_t> out, val; auto refine = [&](std::vector<unsigned> dv) { std::vector<uint8_t> vv(D.vars.size(), 2); evaluate(f, out, vv, dv); if (val.empty()) { val = out; return; } size_t k = 0; for (size_t i = 0; i < f.size(); i++) if (val[i] == out[i]) { f[k] = f[i]; val[k++] = val[i]; } f.resize(k); val.resize(k); };
  // samples: every class of values the conditions tell apart is as likely as another
  std::map<int, std::vector<unsigned>> reps; { std::map<int, std::set<uint32_t>> used; for (uint32_t i : cone) if (D.N[i].t == N_DOM) used[D.N[i].a].insert(D.N[i].b);
    for (auto &u : used) { int d = u.first; std::vector<std::vector<uint64_t>> rs; for (auto &r : restricts) if (r.first == d) rs.push_back(D.litSet(r.second)); std::set<std::vector<bool>> seen; for (unsigned j = 0; j < D.doms[d].n; j++) { bool in = true; for (auto &r : rs) in &= (r[j >> 6] >> (j & 63)) & 1; if (!in) continue; std::vector<bool> sg; for (uint32_t q : u.second) sg.push_back(((*D.sets[q])[j >> 6] >> (j & 63)) & 1); if (seen.insert(sg).second) reps[d].push_back(j); } } }
  for (int t = 0; t < 300 && !f.empty(); t++) { std::vector<unsigned> dv(D.doms.size(), ~0u); unsigned mode = t % 3, lim = 1 + rnd() % 8; for (auto &r : reps) { auto &v = r.second; if (v.empty()) continue; unsigned m = mode == 0 ? v.size() : mode == 1 ? std::min<size_t>(v.size(), lim) : (rnd() % 8 ? 1 : v.size()); dv[r.first] = v[rnd() % m]; } if (t % 3) for (auto &r : reps) if (r.second.size() && D.doms[r.first].name[0] == 'n') dv[r.first] = r.second[rnd() % r.second.size()]; refine(dv); }
  for (int t = 0; t < 200 && !f.empty(); t++) {
    Lit bad = FALSE_; for (size_t i = 0; i < f.size(); i++) bad = D.OR(bad, val[i] ? NOT(f[i]) : f[i]);
    std::string cx; bool sp; int r = sat(bad, cx, sp); if (getenv("VC_DEBUG")) fprintf(stderr, "control %s: %zu conditions, %d\n", tag.c_str(), f.size(), r); if (r < 0) return false; if (r == 0) break; size_t k = f.size(); refine(lastDoms); if (f.size() == k) return false; }
  if (f.empty()) return false;
  memo.start(D.N.size()); static const Restr none; Rebuild R{*this, D, restricts, nullptr, nullptr}; for (size_t i = 0; i < f.size(); i++) memo.set(nd(f[i]), val[i] ? TRUE_ : FALSE_);
  for (auto *v : {&a, &b}) for (Lit &l : *v) l = R.go(l); return true;
}

// ---------------------------------------------------------------- evaluation
uint64_t Exec::rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (rng * 0x2545F4914F6CDD1DULL) >> 20; }
unsigned Exec::pickDom(int d) { unsigned v = rnd() % D.doms[d].n; for (auto &r : restricts) if (r.first == d) { auto s = D.litSet(r.second); while (!((s[v >> 6] >> (v & 63)) & 1)) v = (v + 1) % D.doms[d].n; } return v; }
void Exec::evaluate(const std::vector<Lit> &ls, std::vector<uint8_t> &out, std::vector<uint8_t> &varVal, std::vector<unsigned> &domVal) {
  static Memo em; em.start(D.N.size());
  std::function<unsigned(Lit)> go = [&](Lit l) -> unsigned {
    if (l <= 1) return l; uint32_t id = nd(l); if (em.has(id)) return em.v[id] ^ (l & 1);
    const Node n = D.N[id]; unsigned r = 0;
    switch (n.t) {
    case N_VAR: { uint8_t &v = varVal[n.a]; if (v > 1) v = rnd() & 1; r = v; break; }
    case N_DOM: { auto &s = *D.sets[n.b]; unsigned &v = domVal[n.a]; if (v == ~0u) v = pickDom(n.a); r = (s[v >> 6] >> (v & 63)) & 1; break; }
    case N_AND: r = go(n.a) ? go(n.b) : 0; break;
    case N_XOR: r = go(n.a) ^ go(n.b); break;
    case N_ITE: r = go(n.a) ? go(n.b) : go(n.c); break;
    case N_LUT: { unsigned x = 0; for (unsigned j = 0; j < n.b; j++) x |= go(D.pool[n.a + j]) << j; auto &s = *D.sets[n.c]; r = (s[x >> 6] >> (x & 63)) & 1; break; }
    case N_UF: {
      const UFApp ap = D.apps[n.a]; const std::string &nm = D.ufNames[ap.fn]; if (nm.compare(0, 3, "vc_") == 0) { // no meaning of its own: any function will do
        uint64_t h = 1469598103934665603ULL + ap.fn; for (unsigned i = 0; i < ap.nargs; i++) { h ^= go(D.pool[ap.args + i]) + 1; h *= 1099511628211ULL; h ^= h >> 29; }
        for (unsigned i = 0; i < ap.nout; i++) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; em.set(ap.firstout + i, (h * 0x2545F4914F6CDD1DULL) >> 63); } return em.v[id] ^ (l & 1); }
      auto it = opaqueDefs.find(nm); if (it == opaqueDefs.end() || !it->second.native) fail("no evaluation of " + nm);
      auto &o = it->second; std::vector<uint8_t> in(o.nin, 0), ou(o.nout, 0); for (unsigned i = 0; i < o.nin; i++) for (unsigned j = 0; j < o.inbits; j++) in[i] |= go(D.pool[ap.args + i * o.inbits + j]) << j;
      o.native(in.data(), ou.data()); for (unsigned i = 0; i < o.nout; i++) for (unsigned j = 0; j < o.outbits; j++) em.set(ap.firstout + i * o.outbits + j, (ou[i] >> j) & 1);
      return em.v[id] ^ (l & 1); }
    }
    em.set(id, r); return r ^ (l & 1);
  };
  out.clear(); for (Lit l : ls) out.push_back(go(l));
}
uint64_t Exec::domValue(int d, const std::vector<uint8_t> &varVal, const std::vector<unsigned> &domVal) {
  unsigned e = domVal[d]; uint64_t v = D.doms[d].vals[e]; auto it = D.lenVars.find(d); if (it == D.lenVars.end() || (int)e < it->second.firstClass) return v;
  for (int j = 0; j < 32 && (1ULL << j) < D.doms[d].vals[e]; j++) v |= (uint64_t)(varVal[it->second.firstVar + j] & 1) << j; return v;
}
std::string Exec::cexJson(const std::vector<uint8_t> &varVal, const std::vector<unsigned> &domVal) {
  std::string s = "{"; bool f = true;
  for (auto &g : groups) { if (g.name.back() == '#') continue; if (!f) s += ","; f = false; s += "\"" + g.name + "\":\""; for (unsigned i = 0; i < g.bits; i += 8) { unsigned b = 0; for (unsigned j = 0; j < 8 && i + j < g.bits; j++) b |= varVal[g.firstVar + i + j] << j; char t[4]; sprintf(t, "%02x", b); s += t; } s += "\""; }
  for (size_t d = 0; d < D.doms.size(); d++) { if (!f) s += ","; f = false; s += "\"" + D.doms[d].name + "\":" + std::to_string(domValue(d, varVal, domVal)); }
  return s + "}";
}
bool Exec::findCex(Lit bad, int tries, std::string &cex) {
  std::vector<uint8_t> out;
  for (int t = 0; t < tries; t++) {
    std::vector<uint8_t> vv(D.vars.size(), 2); std::vector<unsigned> dv(D.doms.size(), ~0u);      // chosen when first used
    try { evaluate({bad}, out, vv, dv); } catch (EngineError &) { return false; }
    if (out[0]) { for (auto &v : vv) if (v > 1) v = rnd() & 1; for (size_t d = 0; d < dv.size(); d++) if (dv[d] == ~0u) dv[d] = pickDom(d); cex = cexJson(vv, dv); return true; }
  }
  return false;
}
// ---------------------------------------------------------------- SAT
int Exec::sat(Lit bad, std::string &cex, bool &spurious) {
  if (bad == FALSE_) return 0; spurious = false;
  std::vector<uint32_t> cone, st; std::unordered_map<uint32_t, int> vn; std::unordered_map<int, int> dn; int nv = 0; std::string cnf; uint64_t nc = 0;
  auto push = [&](Lit l) { uint32_t i = nd(l); if (i && !vn.count(i)) { vn[i] = ++nv; st.push_back(i); } };
  push(bad); while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); cone.push_back(i); const Node &n = D.N[i]; switch (n.t) { case N_ITE: push(n.c); case N_AND: case N_XOR: push(n.a); push(n.b); break; case N_LUT: for (unsigned j = 0; j < n.b; j++) push(D.pool[n.a + j]); break; default: break; } if (cone.size() > 3000000) return -1; }
  auto lv = [&](Lit l) { int v = vn[nd(l)]; return (l & 1) ? -v : v; };
  auto cl = [&](std::initializer_list<int> c) { for (int x : c) cnf += std::to_string(x) + " "; cnf += "0\n"; nc++; };
  // the values of a domain that nothing here tells apart are one
  struct Cls { int base; std::vector<unsigned> rep; }; std::map<int, Cls> domCls; { std::map<int, std::vector<const std::vector<uint64_t> *>> used; for (uint32_t i : cone) if (D.N[i].t == N_DOM) used[D.N[i].a].push_back(D.sets[D.N[i].b]);
    for (auto &u : used) { int d = u.first; std::vector<std::vector<uint64_t>> rs; for (auto &r : restricts) if (r.first == d) rs.push_back(D.litSet(r.second)); std::set<std::vector<bool>> seen; Cls c; c.base = nv + 1;
      for (unsigned j = 0; j < D.doms[d].n; j++) { bool in = true; for (auto &r : rs) in &= (r[j >> 6] >> (j & 63)) & 1; if (!in) continue; std::vector<bool> sg; for (auto *q : u.second) sg.push_back(((*q)[j >> 6] >> (j & 63)) & 1); if (seen.insert(sg).second) c.rep.push_back(j); }
      nv += c.rep.size(); std::string q; for (unsigned j = 0; j < c.rep.size(); j++) q += std::to_string(c.base + j) + " "; cnf += q + "0\n"; nc++; for (unsigned j = 0; j < c.rep.size(); j++) for (unsigned k = j + 1; k < c.rep.size(); k++) cl({-(c.base + (int)j), -(c.base + (int)k)}); domCls[d] = c; } }
  for (uint32_t i : cone) { const Node &n = D.N[i]; int v = vn[i];
    switch (n.t) {
    case N_AND: { for (int k = 0; k < 2; k++) { Lit x = k ? n.b : n.a; cl({-v, lv(x)}); } cl({v, -lv(n.a), -lv(n.b)}); break; }
    case N_XOR: { int a = lv(n.a), b = lv(n.b); cl({-v, a, b}); cl({-v, -a, -b}); cl({v, -a, b}); cl({v, a, -b}); break; }
    case N_ITE: { int c = lv(n.a); bool kb = isC(n.b), kc = isC(n.c); (void)kb; (void)kc; int a = lv(n.b), b = lv(n.c); cl({-c, -a, v}); cl({-c, a, -v}); cl({c, -b, v}); cl({c, b, -v}); break; }
    case N_LUT: { auto &tt = *D.sets[n.c]; for (unsigned x = 0; x < (1u << n.b); x++) { std::string s; for (unsigned j = 0; j < n.b; j++) { int l = lv(D.pool[n.a + j]); s += std::to_string((x >> j) & 1 ? -l : l) + " "; } s += std::to_string((tt[x >> 6] >> (x & 63)) & 1 ? v : -v) + " 0\n"; cnf += s; nc++; } break; }
    case N_DOM: { int d = n.a; auto &c = domCls[d]; auto &s = *D.sets[n.b]; for (unsigned k = 0; k < c.rep.size(); k++) { unsigned j = c.rep[k]; cl({-(c.base + (int)k), (s[j >> 6] >> (j & 63)) & 1 ? v : -v}); } break; }
    default: break; } }
  cl({lv(bad)});
  const char *td = getenv("VC_TMP"); std::string fn = std::string(td ? td : "/tmp") + "/vc" + std::to_string(getpid()) + ".cnf", of = fn + ".out";
  FILE *f = fopen(fn.c_str(), "w"); if (!f) return -1; fprintf(f, "p cnf %d %llu\n", nv, (unsigned long long)nc); fwrite(cnf.data(), 1, cnf.size(), f); fclose(f);
  auto t0 = std::chrono::steady_clock::now(); satCalls++;
  std::string cmd; int rc = -1; if (nc < 300000) { cmd = "minisat -verb=0 -cpu-lim=2 " + fn + " " + of + " > /dev/null 2>&1"; rc = system(cmd.c_str()); rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : -1; }
  if (rc != 10 && rc != 20) { cmd = "kissat -q --time=" + std::to_string((int)satLimit) + " " + fn + " > " + of + " 2>/dev/null"; rc = system(cmd.c_str()); rc = WIFEXITED(rc) ? WEXITSTATUS(rc) : -1; }
  if (rc != 10 && rc != 20 && satLimit > 10) { cmd = "z3 -dimacs -T:" + std::to_string((int)satLimit) + " " + fn + " > " + of + " 2>/dev/null"; if (system(cmd.c_str())) {} }
  std::vector<int8_t> as(nv + 1, 0); int res = rc == 20 ? 0 : rc == 10 ? 1 : -1; f = fopen(of.c_str(), "r");
  if (f) { char *ln = nullptr; size_t sz = 0; while (getline(&ln, &sz, f) > 0) { if (res < 0 && (!strncmp(ln, "s UNSAT", 7) || !strncmp(ln, "unsat", 5))) res = 0; if (res < 0 && (!strncmp(ln, "s SAT", 5) || !strncmp(ln, "sat", 3))) res = 1; char *p = ln; if (*p == 'v') p++; else if (*p != '-' && !(*p >= '0' && *p <= '9')) continue; int x, k; while (sscanf(p, "%d%n", &x, &k) == 1) { p += k; if (x && std::abs(x) <= nv) as[std::abs(x)] = x > 0 ? 1 : -1; } } free(ln); fclose(f); }
  unlink(fn.c_str()); unlink(of.c_str()); satTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (res == 1) {
    std::vector<uint8_t> vv(D.vars.size(), 0), out; std::vector<unsigned> dv(D.doms.size(), 0);
    for (auto &r : restricts) { auto s = D.litSet(r.second); unsigned k = 0; while (!((s[k >> 6] >> (k & 63)) & 1)) k++; dv[r.first] = k; }
    for (uint32_t i : cone) if (D.N[i].t == N_VAR) vv[D.N[i].a] = as[vn[i]] > 0;
    for (auto &b : domCls) for (unsigned j = 0; j < b.second.rep.size(); j++) if (as[b.second.base + j] > 0) dv[b.first] = b.second.rep[j];
    lastModel = vv; lastDoms = dv;
    try { evaluate({bad}, out, vv, dv); spurious = !out[0]; } catch (EngineError &) { spurious = true; }
    cex = cexJson(vv, dv);
  }
  return res;
}
// enough failures of one kind: the rest of them are counted as failed without a search
bool Exec::enough(const std::string &kind) {
  int ref = 0, all = 0; for (auto &f : failures) if (f.kind == kind) { all++; ref += f.status == "refuted"; }
  return ref >= maxFail || all >= 2 * maxFail;
}
void Exec::discharge(Obligation &ob) {
  if (enough(ob.kind)) { counts[ob.kind]["failed"]++; return; }
  Failure fl{ob.kind, ob.loc, ob.name, "", ""};
  if (ob.bad != TRUE_) {
    if (!findCex(ob.bad, 24, fl.cex)) {
      std::vector<Lit> a{ob.bad}, b; fraigEq(a, b); if (a[0] == FALSE_) { counts[ob.kind]["sweeping"]++; return; }
      bool sp; std::string cx; int r = sat(a[0], cx, sp); if (r == 0) { counts[ob.kind]["sat"]++; return; }
      if (r == 1 && !sp) { fl.cex = cx; fl.status = "refuted"; } else { fl.status = "undecided"; fl.cex = cx; if (findCex(ob.bad, 400, fl.cex)) fl.status = "refuted"; }
    } else fl.status = "refuted";
  } else { fl.status = "refuted"; findCex(TRUE_, 1, fl.cex); }
  counts[ob.kind]["failed"]++; failures.push_back(fl);
}
void Exec::dischargeAll() { size_t nf = 0; for (auto &o : pending) { discharge(o); } pending.clear(); (void)nf; }

static std::string showLit(Dag &D, Lit l, int d) { std::string s = l & 1 ? "~" : ""; uint32_t i = nd(l); if (!i) return l ? "1" : "0"; const Node n = D.N[i]; s += std::to_string(i) + ":"; if (d <= 0) return s + "..";
  switch (n.t) { case N_AND: return s + "and(" + showLit(D, n.a, d - 1) + "," + showLit(D, n.b, d - 1) + ")"; case N_XOR: return s + "xor(" + showLit(D, n.a, d - 1) + "," + showLit(D, n.b, d - 1) + ")"; case N_ITE: return s + "ite(" + showLit(D, n.c, d - 1) + "," + showLit(D, n.a, d - 1) + "," + showLit(D, n.b, d - 1) + ")"; case N_DOM: { s += D.doms[n.a].name + "{"; auto v = D.litSet(i * 2); unsigned c = 0; for (unsigned j = 0; j < D.doms[n.a].n; j++) if ((v[j >> 6] >> (j & 63)) & 1) { if (c++ < 6) s += std::to_string(D.doms[n.a].vals[j]) + " "; } return s + "#" + std::to_string(c) + "}"; } case N_VAR: return s + "var" + std::to_string(n.a) + "g" + std::to_string(D.vars[n.a].group); case N_LUT: s += "lut("; for (unsigned j = 0; j < n.b; j++) s += showLit(D, D.pool[n.a + j], d - 1) + ","; return s + ")"; case N_UF: return s + "uf"; } return s; }
void Exec::eqObligation(const std::vector<Lit> &a0, const std::vector<Lit> &b0, const std::string &kind, const std::string &name) {
  std::vector<Lit> a = a0, b = b0; { std::vector<Lit> t = a; t.insert(t.end(), b.begin(), b.end()); cofactorAll(t, restricts); a.assign(t.begin(), t.begin() + a.size()); b.assign(t.begin() + a.size(), t.end()); }
  std::vector<Lit> x, y; std::vector<size_t> ix; for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) counts[kind]["structural"]++; else { x.push_back(a[i]); y.push_back(b[i]); ix.push_back(i); } }
  if (x.empty()) return;
  if (enough(kind)) { counts[kind]["failed"] += x.size(); return; }
  // a quick look for a difference before proving equality
  std::string cex; std::vector<Lit> ex; Lit any = FALSE_; for (size_t i = 0; i < x.size() && i < 64; i++) any = D.OR(any, D.XOR(x[i], y[i]));
  std::string nm = tag.empty() ? name : tag + ": " + name; std::string l = loc();
  if (findCex(any, 6, cex)) { counts[kind]["failed"] += x.size(); failures.push_back({kind, l, nm + " byte " + std::to_string(ix[0] / 8), "refuted", cex}); return; }
  auto drop = [&](const char *how) { std::vector<Lit> x2, y2; std::vector<size_t> ix2; for (size_t i = 0; i < x.size(); i++) { if (x[i] == y[i]) counts[kind][how]++; else { x2.push_back(x[i]); y2.push_back(y[i]); ix2.push_back(ix[i]); } } x = x2; y = y2; ix = ix2; return x.empty(); };
  if (!controlFirst) { fraigEq(x, y); if (drop("sweeping")) return; }
  if (controlConst(x, y)) { controlFirst = true; if (drop("sat")) return; }
  // case by case over what the conditions tell apart of a restricted length
  if (controlLeft) for (size_t ri = 0; ri < restricts.size(); ri++) { int d = restricts[ri].first; if (D.doms[d].name.compare(0, 3, "len")) continue; auto cs = domClasses(x, y, d); if (cs.size() < 2 || cs.size() > 24) continue;
    size_t nf = failures.size(); for (Lit c : cs) { Restr sv = restricts; restricts.push_back({d, c}); eqObligation(x, y, kind, name); restricts = sv; if (failures.size() > nf) break; } return; }
  fraigEq(x, y); std::vector<Lit> rest; for (size_t i = 0; i < x.size(); i++) { if (x[i] == y[i]) counts[kind]["sweeping"]++; else rest.push_back(D.XOR(x[i], y[i])); }
  if (getenv("VC_DEBUG")) { fprintf(stderr, "eq %s: %zu bits, %zu left, proofs %llu, failed %llu nodes %zu; first:", nm.c_str(), x.size(), rest.size(), (unsigned long long)D.st_tt, (unsigned long long)D.st_ttfail, D.N.size()); for (size_t i = 0, c = 0; i < x.size() && c < 20; i++) if (x[i] != y[i]) { fprintf(stderr, " %zu", ix[i]); c++; } fprintf(stderr, "\n"); if (atoi(getenv("VC_DEBUG")) > 1) for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) { fprintf(stderr, "  %s\n  %s\n", showLit(D, a[ix[i]], 8).c_str(), showLit(D, b[ix[i]], 6).c_str()); break; } }
  if (rest.empty()) return;
  size_t k = 0; for (Lit r : rest) { if (++k > 64) { counts[kind]["failed"]++; continue; } size_t nf = failures.size(); Obligation o{kind, l, nm, r}; discharge(o); if (failures.size() > nf) { counts[kind]["failed"] += rest.size() - k; break; } }
}
std::vector<Lit> Exec::memLits(const Val &p, uint64_t n) {
  if (p.k != Val::PTR || p.p.size() != 1 || !p.p[0].sym.empty() || p.p[0].obj < 0) fail("specification argument: pointer");
  int o = p.p[0].obj; int64_t off = p.p[0].off; if (off < 0 || off + n > objs[o].limit) fail("specification argument: out of range"); need(objs[o], off + n);
  Bits b = getBits(o, off, n); return std::vector<Lit>(b.begin(), b.end());
}
std::string Exec::cstr(const Val &v) { auto &a = v.p[0]; std::string s; Obj &o = objs[a.obj]; need(o, o.cap); for (uint64_t i = a.off; i < o.cap; i++) { unsigned c = 0; for (int j = 0; j < 8; j++) c |= (o.m[i * 8 + j] & 1) << j; if (!c) break; s += (char)c; } return s; }
uint64_t Exec::cint(const Val &v, const char *w) { uint64_t x; if (v.k != Val::BITS || !BV::val(v.b, x)) fail(std::string("constant expected: ") + w); return x; }
int Exec::ptrObj(const Val &v, int64_t *off) { if (v.k != Val::PTR || v.p.size() != 1 || v.p[0].obj < 0) fail("object expected"); if (off) *off = v.p[0].off; return v.p[0].obj; }
void Exec::callSpec(const std::string &fn, const std::vector<Lit> &in, std::vector<Lit> &out, const PC &pc, bool opaqueCall) {
  auto &o = opaqueDefs.at(fn); out.resize(o.nout * o.outbits);
  if (opaqueCall) { D.UF(D.ufId(fn), in.data(), in.size(), out.data(), out.size()); return; }
  Function *F = M.getFunction(fn); if (!F) fail("specification function " + fn);
  int a = newObj("in", o.nin, 16), b = newObj("out", o.nout, 16); need(objs[a], o.nin); need(objs[b], o.nout);
  for (unsigned i = 0; i < o.nin; i++) for (unsigned j = 0; j < 8; j++) objs[a].m[i * 8 + j] = j < o.inbits ? in[i * o.inbits + j] : FALSE_;
  bool on = opaqueOn.count(fn); opaqueOn.erase(fn); call(F, {Val::ptr(a, 0), Val::ptr(b, 0)}, pc); if (on) opaqueOn.insert(fn);
  Bits r = getBits(b, 0, o.nout); for (unsigned i = 0; i < o.nout; i++) for (unsigned j = 0; j < 8; j++) { if (j < o.outbits) out[i * o.outbits + j] = r[i * 8 + j]; }
}

// ---------------------------------------------------------------- library and specification functions
static std::unordered_map<int, int> groupRename, domRename;
static std::vector<std::pair<std::string, std::string>> renames;
bool Exec::builtin(const std::string &n, const CallBase *CB, Function *F, std::vector<Val> &a, const PC &pc, Val &r) {
  auto starts = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  auto w64 = [&](const Bits &b, unsigned e) { return Bits(b.begin() + 64 * e, b.begin() + 64 * (e + 1)); };
  // ---- LLVM intrinsics
  if (starts("llvm.memcpy") || starts("llvm.memmove") || n == "memcpy" || n == "memmove") { bool mv = n.find("move") != std::string::npos; memcpySym(a[0].p, a[1].p, a[2].b, pc, mv); r = a[0]; return true; }
  if (starts("llvm.memset") || n == "memset") { uint64_t k; Bits nb = a[2].b; simpBits(nb, pc); r = a[0];
    if (!BV::val(nb, k)) {
      if (nb.size() < 64) nb = bv.zext(nb, 64);
      std::vector<std::pair<int64_t, Lit>> cs; if (!offCases(nb, pc, cs)) fail("memset of symbolic size");
      for (auto &c : cs) if (c.first) { PC q = pcAdd(pc, c.second); if (q.lit == FALSE_) continue; Bits b; for (int64_t i = 0; i < c.first; i++) b.append(a[1].b.begin(), a[1].b.begin() + 8); access(a[0].p, c.first, 1, q, true, [&](int o, int64_t off, Lit g) { putBits(o, off, b, D.AND(g, guardFor(objs[o], q))); }); }
      return true; }
    if (!k) return true; Bits b; for (uint64_t i = 0; i < k; i++) b.append(a[1].b.begin(), a[1].b.begin() + 8); access(a[0].p, k, 1, pc, true, [&](int o, int64_t off, Lit g) { putBits(o, off, b, D.AND(g, guardFor(objs[o], pc))); }); return true; }
  if (n == "memcmp" || n == "bcmp") { uint64_t k; Bits nb = a[2].b; simpBits(nb, pc); if (!BV::val(nb, k)) fail("memcmp of symbolic size"); Bits d = BV::cst(0, 32); if (k) { Bits x = loadMem(a[0].p, k, 1, pc), y = loadMem(a[1].p, k, 1, pc); for (uint64_t i = k; i-- > 0;) { Bits p(x.begin() + i * 8, x.begin() + i * 8 + 8), q(y.begin() + i * 8, y.begin() + i * 8 + 8); d = bv.ite(bv.eq(p, q), d, bv.sub(bv.zext(p, 32), bv.zext(q, 32))); } } r = Val::bits(d); return true; }
  if (n == "bzero") { std::vector<Val> b{a[0], Val::bits(BV::cst(0, 32)), a[1]}; return builtin("memset", CB, F, b, pc, r); }
  if (starts("llvm.lifetime") || starts("llvm.dbg") || starts("llvm.experimental.noalias") || n == "llvm.x86.mmx.emms" || starts("llvm.prefetch")) return true;
  if (starts("llvm.assume")) return true;
  if (n == "llvm.trap" || n == "abort") { oblige(pc.lit, "assert", n); return true; }
  if (starts("llvm.expect")) { r = a[0]; return true; }
  if (starts("llvm.objectsize")) { r = Val::bits(Bits(tyBits(CB->getType()), TRUE_)); return true; }
  if (starts("llvm.bswap")) { unsigned w = a[0].b.size(); Bits b(w); for (unsigned i = 0; i < w; i++) b[(w / 8 - 1 - i / 8) * 8 + i % 8] = a[0].b[i]; r = Val::bits(b); return true; }
  if (starts("llvm.fshl") || starts("llvm.fshr")) { uint64_t k; unsigned w = a[0].b.size(); if (!BV::val(a[2].b, k) || CB->getType()->isVectorTy()) fail("funnel shift"); k %= w; bool l = n[8] == 'l'; Bits b(w); for (unsigned i = 0; i < w; i++) { if (l) b[i] = i >= k ? a[0].b[i - k] : a[1].b[w - k + i]; else b[i] = i + k < w ? a[1].b[i + k] : a[0].b[i + k - w]; } r = Val::bits(b); return true; }
  if (starts("llvm.umin") || starts("llvm.umax") || starts("llvm.smin") || starts("llvm.smax")) { if (CB->getType()->isVectorTy()) fail("vector min"); bool s = n[5] == 's', mn = n[7] == 'i'; Lit lt = s ? bv.slt(a[0].b, a[1].b) : bv.ult(a[0].b, a[1].b); r = Val::bits(mn ? bv.ite(lt, a[0].b, a[1].b) : bv.ite(lt, a[1].b, a[0].b)); return true; }
  if (starts("llvm.abs")) { r = Val::bits(bv.ite(a[0].b.back(), bv.neg(a[0].b), a[0].b)); return true; }
  if (starts("llvm.ctpop")) { unsigned w = a[0].b.size(); Bits s = BV::cst(0, w); for (unsigned i = 0; i < w; i++) { Bits one = BV::cst(0, w); one[0] = a[0].b[i]; s = bv.add(s, one); } r = Val::bits(s); return true; }
  if (starts("llvm.x86.mmx.p")) {
    std::string o = n.substr(13); Bits x = a[0].b;
    if (o == "pand") r = Val::bits(bv.band(x, a[1].b)); else if (o == "por") r = Val::bits(bv.bor(x, a[1].b)); else if (o == "pxor") r = Val::bits(bv.bxor(x, a[1].b)); else if (o == "pandn") r = Val::bits(bv.band(bv.bnot(x), a[1].b));
    else if (starts("llvm.x86.mmx.pslli") || starts("llvm.x86.mmx.psrli")) { uint64_t k = cint(a[1], "shift"); unsigned w = n.back() == 'q' ? 64 : n.back() == 'd' ? 32 : 16; bool l = n[15] == 'l'; Bits q; for (unsigned e = 0; e < 64; e += w) { Bits y(x.begin() + e, x.begin() + e + w); if (k >= w) y = BV::cst(0, w); else y = l ? bv.shlc(y, k) : bv.shrc(y, k, FALSE_); q.append(y.begin(), y.end()); } r = Val::bits(q); }
    else return false; return true; }
  if (starts("llvm.x86.sse2.p") || starts("llvm.x86.avx2.p")) {
    std::string o = n.substr(15);
    if (o.compare(0, 4, "slli") == 0 || o.compare(0, 4, "srli") == 0) { uint64_t k = cint(a[1], "shift") & 0xffffffff; unsigned w = n.back() == 'q' ? 64 : n.back() == 'd' ? 32 : 16; if (o.find("dq") != std::string::npos) return false; bool l = o[1] == 'l'; Bits q; for (unsigned e = 0; e < a[0].b.size(); e += w) { Bits y(a[0].b.begin() + e, a[0].b.begin() + e + w); if (k >= w) y = BV::cst(0, w); else y = l ? bv.shlc(y, k) : bv.shrc(y, k, FALSE_); q.append(y.begin(), y.end()); } r = Val::bits(q); return true; } }
  if (starts("llvm.x86.sse2.pack") || starts("llvm.x86.sse41.pack") || starts("llvm.x86.avx2.pack")) { // saturating narrowing of signed elements, within each 128-bit lane
    std::string o = n.substr(n.find("pack")); bool us = o[4] == 'u'; unsigned w = o[6] == 'w' ? 16 : 32, h = w / 2; Bits q;
    if (o[4] != 'u' && o[4] != 's') fail(n);
    for (unsigned l = 0; l < a[0].b.size(); l += 128) for (int s = 0; s < 2; s++) for (unsigned e = l; e < l + 128; e += w) {
      Bits x(a[s].b.begin() + e, a[s].b.begin() + e + w); Lit sg = x[w - 1], big = FALSE_; // big: outside the range on the side of the sign
      for (unsigned j = us ? h : h - 1; j < w - 1; j++) big = D.OR(big, D.XOR(x[j], sg));
      for (unsigned j = 0; j < h; j++) { if (us) q.push_back(D.AND(NOT(sg), D.OR(big, x[j]))); else q.push_back(j == h - 1 ? sg : D.ITE(big, NOT(sg), x[j])); } }
    r = Val::bits(q); return true; }
  if (n == "llvm.x86.ssse3.pshuf.b.128" || n == "llvm.x86.avx2.pshuf.b") {
    Bits o(a[0].b.size()); for (unsigned i = 0; i * 8 < o.size(); i++) { uint64_t k; Bits m(a[1].b.begin() + i * 8, a[1].b.begin() + i * 8 + 8); if (!BV::val(m, k)) fail("pshufb with symbolic mask"); for (unsigned j = 0; j < 8; j++) o[i * 8 + j] = k & 0x80 ? FALSE_ : a[0].b[((i & ~15u) + (k & 15)) * 8 + j]; }
    r = Val::bits(o); return true; }
  if (n == "llvm.x86.avx2.gather.d.d.256") { // src, ptr, idx, mask, scale
    uint64_t sc = cint(a[4], "scale"); Bits o(256); for (unsigned e = 0; e < 8; e++) { if (a[3].b[e * 32 + 31] != TRUE_) fail("gather with symbolic mask"); Bits ix = bv.mul(bv.sext(Bits(a[2].b.begin() + e * 32, a[2].b.begin() + e * 32 + 32), 64), BV::cst(sc, 64)); PtrV p = addOff(a[1].p, 0, &ix); Bits v = loadMem(p, 4, 1, pc); for (unsigned j = 0; j < 32; j++) o[e * 32 + j] = v[j]; }
    r = Val::bits(o); return true; }
  if (starts("llvm.aarch64.neon.ld2.v16i8")) { Bits v = loadMem(a[0].p, 32, 1, pc); Bits x(128), y(128); for (unsigned i = 0; i < 16; i++) for (unsigned j = 0; j < 8; j++) { x[i * 8 + j] = v[i * 16 + j]; y[i * 8 + j] = v[i * 16 + 8 + j]; } r.k = Val::AGG; r.agg = {Val::bits(x), Val::bits(y)}; return true; }
  // ---- C library
  if (n == "__assert_fail" || n == "__assert") { oblige(pc.lit, "assert", a[0].k == Val::PTR ? cstr(a[0]) : ""); return true; }
  if (n == "malloc" || n == "calloc" || n == "aligned_alloc" || n == "_mm_malloc" || n == "posix_memalign") {
    uint64_t al = 16, sz; int si = 0; if (n == "aligned_alloc") { al = cint(a[0], "align"); si = 1; } else if (n == "_mm_malloc") { al = cint(a[1], "align"); } else if (n == "posix_memalign") { al = cint(a[1], "align"); si = 2; oblige((al & (al - 1)) || al % PS ? pc.lit : FALSE_, "allocation-argument", "alignment"); }
    sz = cint(a[si], "size"); if (n == "calloc") sz *= cint(a[1], "size"); int k = mallocCount++; allocLog.push_back({n, sz, al});
    int o = newObj("heap" + std::to_string(k), sz, al); objs[o].heap = true; objs[o].allocfn = n; if (n == "calloc") { need(objs[o], sz); std::fill(objs[o].m.begin(), objs[o].m.end(), FALSE_); }
    bool fl = allocFail >= 0; if (n == "posix_memalign") { if (!fl) store(a[0].p, Val::ptr(o, 0), PointerType::get(M.getContext(), 0), PS, pc); r = Val::bits(BV::cst(fl ? 12 : 0, 32)); } else r = fl ? Val::ptr(O_NULL, 0) : Val::ptr(o, 0); return true; }
  if (n == "free" || n == "_mm_free") { PtrV p = a[0].p; simpPtr(p, pc); for (auto &x : p) { if (x.obj == O_NULL) { oblige(FALSE_, "free"); continue; } Lit g = D.AND(pc.lit, x.g); if (x.obj < 0 || !objs[x.obj].heap || objs[x.obj].dead || x.off || !x.sym.empty()) oblige(g, "free", "not a live heap object"); else { oblige((objs[x.obj].allocfn == "_mm_malloc") != (n == "_mm_free") ? g : FALSE_, "free", "wrong allocator"); objs[x.obj].dead = true; } } return true; }
  if (!starts("vc_")) return false;
  // ---- specification primitives
  if (starts("vc_fn__")) { std::string b = n.substr(7); Function *G = findFn(b); if (!G) fail("no function " + b); if (G->getFunctionType() != F->getFunctionType()) fail("signature of " + b); r = call(G, a, pc); return true; }
  if (n == "vc_param0") { auto it = params.find(cstr(a[0])); r = Val::bits(BV::cst(it == params.end() ? 0 : it->second, 64)); return true; }
  if (n == "vc_param") { auto it = params.find(cstr(a[0])); if (it == params.end()) fail("parameter " + cstr(a[0])); r = Val::bits(BV::cst(it->second, 64)); return true; }
  if ((n == "vc_sym" || n == "vc_size" || n == "vc_limit" || n == "vc_protect" || n == "vc_frame") && !pc.trivial()) fail(n + " under a condition");
  if (n == "vc_sym") { uint64_t k = cint(a[1], "size"); std::string nm = cstr(a[2]); int gi = groups.size(); groups.push_back({nm, (unsigned)(k * 8), (uint32_t)D.vars.size()}); Bits b(k * 8); for (uint64_t i = 0; i < k * 8; i++) b[i] = D.var(gi, i); int64_t off; int o = ptrObj(a[0], &off); need(objs[o], off + k); if (off + k > objs[o].limit) fail("vc_sym range"); putBits(o, off, b, TRUE_); return true; }
  if (n == "vc_dom") { std::string nm = cstr(a[0]); uint64_t k = cint(a[2], "count"); std::vector<Lit> m = memLits(a[1], k * 8); std::vector<uint64_t> vals(k, 0); for (uint64_t i = 0; i < k; i++) { Bits b = fromMem(Type::getInt64Ty(M.getContext()), Bits(m.begin() + i * 64, m.begin() + i * 64 + 64)); if (!BV::val(b, vals[i])) fail("vc_dom"); }
    int d = D.domVar(nm, vals); Bits b(64); for (int j = 0; j < 64; j++) { std::vector<uint64_t> s((k + 63) / 64, 0); for (uint64_t i = 0; i < k; i++) if ((vals[i] >> j) & 1) s[i >> 6] |= 1ULL << (i & 63); if (Dag::setEmpty(s)) b[j] = FALSE_; else b[j] = D.domLit(d, s); } r = Val::bits(b); return true; }
  if (n == "vc_len") { // any 32 bit value: 0..255 one by one, then by the position of the leading bit
    std::string nm = cstr(a[0]); std::vector<uint64_t> vals; for (int i = 0; i < 256; i++) vals.push_back(i); for (int k = 8; k < 32; k++) vals.push_back(1ULL << k); int d = D.domVar(nm, vals); unsigned cnt = vals.size();
    groups.push_back({nm + "#", 32, (uint32_t)D.vars.size()}); D.lenVars[d] = {(uint32_t)D.vars.size(), 256}; std::vector<Lit> fr(32); for (int j = 0; j < 32; j++) { fr[j] = D.var(groups.size() - 1, j); D.lenBit[nd(fr[j])] = d; }
    Bits b(64, FALSE_); for (int j = 0; j < 32; j++) { std::vector<uint64_t> s((cnt + 63) / 64, 0), f((cnt + 63) / 64, 0); for (unsigned i = 0; i < cnt; i++) { if ((vals[i] >> j) & 1) s[i >> 6] |= 1ULL << (i & 63); if (i >= 256 && (int)i - 248 > j) f[i >> 6] |= 1ULL << (i & 63); } Lit F = Dag::setEmpty(f) ? FALSE_ : D.domLit(d, f); b[j] = D.ITE(F, fr[j], D.domLit(d, s)); }
    r = Val::bits(b); return true; }
  if (n == "vc_object") { uint64_t cap = cint(a[1], "cap"); int o = newObj(cstr(a[0]), cap, cint(a[3], "align")); objs[o].ext = true; uint64_t v; if (!BV::val(a[2].b, v)) objs[o].symSize = a[2].b; else if (v < cap) objs[o].cap = objs[o].limit = v; r = Val::ptr(o, 0); return true; }
  if (n == "vc_size") { int o = ptrObj(a[0]); uint64_t v; if (BV::val(a[1].b, v)) objs[o].cap = v; else objs[o].symSize = a[1].b; return true; }
  // ---- payloads and loops without a bound (loops.cpp)
  if (n == "vc_array") { int o = newObj(cstr(a[0]), 1ULL << 32, 1); objs[o].arr = true; objs[o].ext = true; objs[o].symSize = a[1].b; r = Val::ptr(o, 0); return true; }
  if (n == "vc_word") { r = Val::bits(wordVar(cstr(a[0]), cint(a[1], "bits"))); return true; }
  auto byte = [&](const Bits &b) { return Val::bits(bv.zext(bv.trunc(b, 8), tyBits(CB->getType()))); };
  if (n == "vc_at") { int o = ptrObj(a[0]); r = byte(arrByte(o, objs[o].L.size(), a[1].b, pc)); return true; }
  if (n == "vc_base") { auto v = wordFn("base:" + objs[ptrObj(a[0])].name, {}, a[1].b, 8, pc); r = byte(Bits(v.begin(), v.end())); return true; }
  if (n == "vc_ks") { auto k = memLits(a[0], 8), k2 = memLits(a[1], 8); k.insert(k.end(), k2.begin(), k2.end()); auto v = wordFn("ks", k, a[2].b, 8, pc); r = byte(Bits(v.begin(), v.end())); return true; }
  if (n == "vc_ghost") { uint64_t k = cint(a[3], "size"); auto v = wordFn(cstr(a[0]), {}, a[1].b, k * 8, pc); int64_t off; int o = ptrObj(a[2], &off); need(objs[o], off + k); putBits(o, off, Bits(v.begin(), v.end()), guardFor(objs[o], pc)); return true; }
  if (n == "vc_is_array") { PtrV p = a[0].p; simpPtr(p, pc); r = Val::bits(BV::cst(p.size() == 1 && p[0].obj >= 0 && objs[p[0].obj].arr, 32)); return true; }
  if (n == "vc_arr_stream") { // control word, IV, data, length: data ^= key stream
    PtrV p = a[2].p; simpPtr(p, pc); int ob; Bits off; if (!arrPtr(p, ob, off)) fail("vc_arr_stream"); Bits c = loadMem(a[0].p, 8, 1, pc), v = loadMem(a[1].p, 8, 1, pc), len = bv.zext(a[3].b, 64); simpBits(len, pc);
    Lit nz = FALSE_; for (Lit l : len) nz = D.OR(nz, l); Bits sz = objs[ob].symSize; oblige(D.AND(pc.lit, D.AND(nz, D.OR(bv.ult(sz, len), bv.ult(bv.sub(sz, len), off)))), "bounds", objs[ob].name);
    if (objs[ob].dead) oblige(D.AND(pc.lit, nz), "lifetime", objs[ob].name); oblige(frameOn && objs[ob].prot ? D.AND(pc.lit, nz) : FALSE_, "frame", "store to " + objs[ob].name);
    { PtrV q = a[1].p; simpPtr(q, pc); for (auto &x : q) if (x.obj == ob) { Bits io = offBits(x); oblige(D.AND(pc.lit, D.AND(nz, D.AND(bv.ult(io, bv.add(off, len)), bv.ult(off, bv.add(io, BV::cst(8, 64)))))), "precondition", "the IV is not part of the data"); } }
    ArrLayer l; l.kind = 1; l.off = OffBits(off.begin(), off.end()); l.len = len; l.g = pc.lit; l.key.assign(c.begin(), c.end()); l.key.insert(l.key.end(), v.begin(), v.end()); objs[ob].L.push_back(l); return true; }
  if (n == "vc_loops") { std::string c = cstr(a[0]); if (c.empty()) loopInvs.clear(); else loopInvs.push_back(c); if (!satMode) for (auto &G : M.globals()) if (!G.getName().starts_with("llvm.")) constant(&G); satMode = true; bv.linear = true; return true; }
  if (n == "vc_subst") { // buffer, size, from, to, size: definitions are unfolded
    uint64_t k = cint(a[1], "size"), m = cint(a[4], "size"); auto x = memLits(a[0], k), f = memLits(a[2], m), t = memLits(a[3], m); static const Restr none; memo.start(D.N.size()); Rebuild R{*this, D, none, nullptr, nullptr};
    for (size_t i = 0; i < f.size(); i++) if (f[i] > 1) memo.set(nd(f[i]), t[i] ^ (f[i] & 1)); for (auto &l : x) l = R.go(l); int64_t off; int o = ptrObj(a[0], &off); putBits(o, off, Bits(x.begin(), x.end()), TRUE_); return true; }
  if (n == "vc_limit") { int o = ptrObj(a[0]); objs[o].limit = std::min<uint64_t>(objs[o].limit, cint(a[1], "limit")); return true; }
  if (n == "vc_zero") { int64_t off; int o = ptrObj(a[0], &off); uint64_t k = cint(a[1], "size"); need(objs[o], off + k); Bits z(k * 8, FALSE_); putBits(o, off, z, guardFor(objs[o], pc)); return true; }
  if (n == "vc_copy") { uint64_t k = cint(a[2], "size"); auto l = memLits(a[1], k); int64_t off; int o = ptrObj(a[0], &off); need(objs[o], off + k); if (objs[o].m.size() < (size_t)(off + k) * 8) fail("vc_copy range"); putBits(o, off, Bits(l.begin(), l.end()), guardFor(objs[o], pc)); return true; }
  if (n == "vc_havoc") { uint64_t k = cint(a[1], "size"); PtrV p = a[0].p; access(p, k, 1, pc, true, [&](int o, int64_t off, Lit g) { Obj &x = objs[o]; clobberPtrs(x, off, k); Lit gg = guardFor(x, pc); if (gg == TRUE_ && g == TRUE_) for (uint64_t i = 0; i < k * 8; i++) x.m[off * 8 + i] = UNINIT; else putBits(o, off, freshUndef(k * 8), D.AND(gg, g)); }); return true; }
  if (n == "vc_tag") { tag = cstr(a[0]); return true; }
  if (n == "vc_tagn") { tag = cstr(a[0]) + std::to_string(cint(a[1], "tag")); return true; }
  if (n == "vc_eq") { uint64_t k = cint(a[2], "size"); auto x = memLits(a[0], k), y = memLits(a[1], k); if (!pc.trivial()) for (uint64_t i = 0; i < k * 8; i++) { x[i] = simp(x[i], pc); y[i] = simp(y[i], pc); if (x[i] != y[i]) { x[i] = D.AND(pc.lit, x[i]); y[i] = D.AND(pc.lit, y[i]); } } eqObligation(x, y, "postcondition", cstr(a[3])); return true; }
  if (n == "vc_true") { Lit l = a[0].b[0]; for (Lit x : a[0].b) l = D.OR(l, x); oblige(D.AND(pc.lit, NOT(l)), "postcondition", cstr(a[1])); return true; }
  if (n == "vc_reach") { counts["reachable"][pc.lit == FALSE_ ? "failed" : "structural"]++; return true; }
  if (n == "vc_restrict") { std::string nm = cstr(a[0]); uint64_t k = cint(a[2], "count"); std::vector<Lit> m = memLits(a[1], k * 8); for (size_t d = 0; d < D.doms.size(); d++) if (D.doms[d].name == nm) { std::vector<uint64_t> s((D.doms[d].n + 63) / 64, 0); for (uint64_t i = 0; i < k; i++) { uint64_t v; Bits b = fromMem(Type::getInt64Ty(M.getContext()), Bits(m.begin() + i * 64, m.begin() + i * 64 + 64)); BV::val(b, v); for (unsigned j = 0; j < D.doms[d].n; j++) if (D.doms[d].vals[j] == v) s[j >> 6] |= 1ULL << (j & 63); } Lit l = D.domLit(d, s); if (l == FALSE_) fail("vc_restrict: empty"); if (l != TRUE_) restricts.push_back({(int)d, l}); return true; } fail("vc_restrict " + nm); }
  if (n == "vc_restrict_range") { std::string nm = cstr(a[0]); uint64_t lo = cint(a[1], "lo"), hi = cint(a[2], "hi"); for (size_t d = 0; d < D.doms.size(); d++) if (D.doms[d].name == nm) { std::vector<uint64_t> s((D.doms[d].n + 63) / 64, 0); for (unsigned j = 0; j < D.doms[d].n; j++) if (D.doms[d].vals[j] >= lo && D.doms[d].vals[j] <= hi) s[j >> 6] |= 1ULL << (j & 63); Lit l = D.domLit(d, s); if (l == FALSE_) fail("vc_restrict: empty"); if (l != TRUE_) restricts.push_back({(int)d, l}); return true; } fail("vc_restrict " + nm); }
  if (n == "vc_restrict_clear") { restricts.clear(); return true; }
  if (n == "vc_opaque") { opaqueOn.insert(cstr(a[0])); return true; }
  if (n == "vc_reveal") { opaqueOn.erase(cstr(a[0])); return true; }
  if (n == "vc_contract") { std::string b = cstr(a[0]); Function *G = findFn(b); Function *S = M.getFunction("contract__" + b); bool ok = G && S && G->getFunctionType() == S->getFunctionType() && !params.count("nocontracts") && !params.count("inline_" + b); if (ok) contractsOn.insert(b); else if (!params.count("nocontracts")) notes.insert("no contract possible for " + b); r = Val::bits(BV::cst(ok, 32)); return true; }
  if (n == "vc_contract_off") { contractsOn.erase(cstr(a[0])); return true; }
  if (n == "vc_inverse") { D.ufInv[D.ufId(cstr(a[0]))] = {D.ufId(cstr(a[1])), (uint32_t)cint(a[2], "prefix")}; return true; }
  if (n == "vc_frame") { frameOn = cint(a[0], "flag"); return true; }
  if (n == "vc_protect") { objs[ptrObj(a[0])].prot = cint(a[1], "flag"); return true; }
  if (n == "vc_alloc_fail") { allocFail = (int)BV::sext64(cint(a[0], "flag"), 32); return true; }
  if (n == "vc_is_null") { PtrV p = a[0].p; simpPtr(p, pc); r = Val::bits(BV::cst(p.size() == 1 && p[0].obj == O_NULL, 32)); return true; }
  if (n == "vc_heap_size") { PtrV p = a[0].p; simpPtr(p, pc); uint64_t s = 0; if (p.size() == 1 && p[0].obj >= 0 && objs[p[0].obj].heap && p[0].off == 0) s = objs[p[0].obj].cap; r = Val::bits(BV::cst(s, 64)); return true; }
  if (n == "vc_heap_align") { PtrV p = a[0].p; simpPtr(p, pc); uint64_t s = 0; if (p.size() == 1 && p[0].obj >= 0 && objs[p[0].obj].heap) s = objs[p[0].obj].align; r = Val::bits(BV::cst(s, 64)); return true; }
  if (n == "vc_live") { PtrV p = a[0].p; r = Val::bits(BV::cst(p.size() == 1 && p[0].obj >= 0 && !objs[p[0].obj].dead, 32)); return true; }
  if (n == "vc_same_object") { r = Val::bits(BV::cst(a[0].p.size() == 1 && a[1].p.size() == 1 && a[0].p[0].obj == a[1].p[0].obj, 32)); return true; }
  if (n == "vc_flag_object") { return true; }
  if (n == "vc_undefined") { uint64_t k = cint(a[1], "size"); auto l = memLits(a[0], k); (void)l; return true; }
  if (n == "vc_rename") { renames.push_back({cstr(a[0]), cstr(a[1])}); return true; }
  if (n == "vc_rename_clear") { renames.clear(); return true; }
  if (n == "vc_note") { results.push_back(cstr(a[0])); return true; }
  if (n == "vc_iso") { // out_p (restricted by dom > vp) renamed == out_0 (restricted by dom > v0)
    uint64_t k = cint(a[2], "size"); auto x = memLits(a[0], k), y = memLits(a[1], k); std::string dn = cstr(a[3]); uint64_t vp = cint(a[4], "vp"), v0 = cint(a[5], "v0");
    int d = -1; for (size_t i = 0; i < D.doms.size(); i++) if (D.doms[i].name == dn) d = i;
    auto above = [&](uint64_t v) { Restr q = restricts; if (d >= 0) { std::vector<uint64_t> s((D.doms[d].n + 63) / 64, 0); for (unsigned j = 0; j < D.doms[d].n; j++) if (D.doms[d].vals[j] > v) s[j >> 6] |= 1ULL << (j & 63); Lit l = D.domLit(d, s); if (l == FALSE_) fail("vc_iso: empty"); if (l != TRUE_) q.push_back({d, l}); } return q; };
    std::unordered_map<uint32_t, Lit> sub; std::unordered_map<int, int> dm;
    std::vector<std::pair<std::string, std::string>> rens(renames.begin(), renames.end()); for (auto &rn : renames) rens.push_back({rn.first + "#", rn.second + "#"});
    for (auto &rn : rens) { int g = -1, h = -1; for (size_t i = 0; i < groups.size(); i++) { if (groups[i].name == rn.first) g = i; if (groups[i].name == rn.second) h = i; } if (g >= 0 && h >= 0) { static std::vector<uint32_t> nodeOf; if (nodeOf.size() < D.vars.size()) { nodeOf.assign(D.vars.size(), 0); for (uint32_t i = 0; i < D.N.size(); i++) if (D.N[i].t == N_VAR) nodeOf[D.N[i].a] = i; } for (unsigned i = 0; i < groups[g].bits && i < groups[h].bits; i++) sub[nodeOf[groups[g].firstVar + i]] = nodeOf[groups[h].firstVar + i] * 2; }
      g = h = -1; for (size_t i = 0; i < D.doms.size(); i++) { if (D.doms[i].name == rn.first) g = i; if (D.doms[i].name == rn.second) h = i; } if (g >= 0 && h >= 0) { if (D.doms[g].vals != D.doms[h].vals) fail("rename of different domains"); dm[g] = h; } }
    // the restriction on the target applies after renaming
    g_dmap = &dm; cofactorAll(x, above(vp), &sub); g_dmap = nullptr;
    static std::map<std::vector<uint64_t>, std::vector<Lit>> ycache; int64_t yo; std::vector<uint64_t> key{(uint64_t)ptrObj(a[1], &yo), (uint64_t)yo, k, v0, (uint64_t)D.N.size() * 0}; for (auto &r : restricts) { key.push_back(r.first); key.push_back(r.second); } for (Lit l : y) key.push_back(l);
    auto &yc = ycache[key]; if (yc.empty()) { cofactorAll(y, above(v0)); yc = y; } else y = yc;
    if (x == y) { counts["symmetry"]["structural"] += x.size(); return true; }
    Restr sv = restricts; Restr keep; for (auto &r : restricts) if (r.first != d) keep.push_back(r); restricts = keep;
    // what is left of the domain variable is another one on each side, each with its own range
    if (d >= 0) { int d2 = -1; for (size_t i = 0; i < D.doms.size(); i++) if (D.doms[i].name == dn + "''") d2 = i; if (d2 < 0) d2 = D.domVar(dn + "''", D.doms[d].vals);
      Restr q0 = above(v0), q2; std::vector<uint64_t> s((D.doms[d].n + 63) / 64, 0); for (unsigned j = 0; j < D.doms[d].n; j++) if (D.doms[d].vals[j] > vp) s[j >> 6] |= 1ULL << (j & 63); Lit l2 = D.domLit(d2, s);
      std::unordered_map<int, int> dm2{{d, d2}}; std::unordered_map<uint32_t, Lit> none; if (l2 != TRUE_) q2.push_back({d2, l2}); g_dmap = &dm2; cofactorAll(x, q2, &none); g_dmap = nullptr;
      restricts = q0; if (l2 != TRUE_) restricts.push_back({d2, l2}); }
    eqObligation(x, y, "symmetry", cstr(a[6])); restricts = sv; return true; }
  if (n == "vc_support") { // ptr, n, space separated names, title
    uint64_t k = cint(a[1], "size"); auto x = memLits(a[0], k); cofactorAll(x, restricts); std::string names = " " + cstr(a[2]) + " ", title = cstr(a[3]);
    static Memo seen; seen.start(D.N.size()); std::vector<uint32_t> st; std::set<std::string> bad; auto push = [&](Lit l) { uint32_t i = nd(l); if (i && !seen.has(i)) { seen.set(i, 1); st.push_back(i); } };
    std::vector<char> gok(groups.size(), 0), dok(D.doms.size(), 0); for (size_t i = 0; i < groups.size(); i++) { std::string gn = groups[i].name; if (gn.back() == '#') gn.pop_back(); gok[i] = names.find(" " + gn + " ") != std::string::npos; } for (size_t i = 0; i < dok.size(); i++) dok[i] = names.find(" " + D.doms[i].name + " ") != std::string::npos;
    std::unordered_map<uint32_t, Lit> sub; std::set<int> badDom;
    for (Lit l : x) push(l);
    while (!st.empty()) { uint32_t i = st.back(); st.pop_back(); const Node n2 = D.N[i]; switch (n2.t) { case N_ITE: push(n2.c); case N_AND: case N_XOR: push(n2.a); push(n2.b); break; case N_LUT: for (unsigned j = 0; j < n2.b; j++) push(D.pool[n2.a + j]); break; case N_UF: { auto &ap = D.apps[n2.a]; for (unsigned j = 0; j < ap.nargs; j++) push(D.pool[ap.args + j]); break; }
      case N_DOM: if (!dok[n2.a]) { bad.insert(D.doms[n2.a].name); badDom.insert(n2.a); } break; case N_VAR: { int g = D.vars[n2.a].group; if (g < 0) bad.insert("undefined data"); else if (!gok[g]) bad.insert(groups[g].name); if (g < 0 || !gok[g]) sub[i] = 0; break; } } }
    if (bad.empty()) { counts["noninterference"]["structural"] += k * 8; return true; }
    if (getenv("VC_DEBUG")) fprintf(stderr, "support %s %s: %s\n", tag.c_str(), title.c_str(), [&] { std::string s; for (auto &b : bad) s += b + " "; return s.substr(0, 200); }().c_str());
    // semantic check: replace what must not matter by fresh copies
    std::string s; for (auto &b : bad) s += (s.empty() ? "" : ", ") + b;
    std::unordered_map<int, int> dm; for (int i : badDom) { int d2 = D.domVar(D.doms[i].name + "'", D.doms[i].vals); dm[i] = d2; }
    for (auto &e : sub) { VarInfo vi = D.vars[D.N[e.first].a]; e.second = D.var(-1, 0); }
    std::vector<Lit> y = x; Restr none; g_dmap = &dm; cofactorAll(y, none, &sub); g_dmap = nullptr;
    // a fresh copy of a restricted length has the same restriction
    Restr sv = restricts; { std::vector<Lit> rl; std::vector<int> rd; for (auto &r : sv) if (dm.count(r.first)) { rl.push_back(r.second); rd.push_back(dm[r.first]); } std::unordered_map<uint32_t, Lit> none2; g_dmap = &dm; cofactorAll(rl, none, &none2); g_dmap = nullptr; for (size_t i = 0; i < rl.size(); i++) restricts.push_back({rd[i], rl[i]}); cofactorAll(y, restricts); }
    eqObligation(x, y, "noninterference", title + ": depends on " + s); restricts = sv; return true; }
  if (n == "vc_lanes" || n == "vc_lanes_check") { // fn, lanebits, nlanes, nin, in, nout, out, [name]
    std::string fn = cstr(a[0]); unsigned lb = cint(a[1], "lanebits"), nl = cint(a[2], "lanes"), nin = cint(a[3], "nin"), nout = cint(a[5], "nout"); auto &o = opaqueDefs.at(fn); bool chk = n == "vc_lanes_check";
    if (nin * lb != o.nin * o.inbits || nout * lb != o.nout * o.outbits) fail("vc_lanes: sizes"); uint64_t wb = nl * lb / 8;
    auto ptrs = [&](const Val &t, unsigned k) { std::vector<PtrV> v; for (unsigned i = 0; i < k; i++) { Val p = load(addOff(t.p, i * PS, nullptr), PointerType::get(M.getContext(), 0), 1, pc); if (p.p.size() != 1 || !p.p[0].sym.empty()) fail("vc_lanes: pointer"); v.push_back(p.p); } return v; };
    auto ip = ptrs(a[4], nin), op = ptrs(a[6], nout); std::vector<Bits> in, out; for (auto &p : ip) in.push_back(loadMem(p, wb, 1, pc));
    auto gather = [&](const std::vector<Bits> &w, unsigned q) { std::vector<Lit> v; for (auto &b : w) for (unsigned j = 0; j < lb; j++) v.push_back(b[q * lb + j]); return v; };
    if (!chk) {
      out.assign(nout, Bits(wb * 8)); for (unsigned q = 0; q < nl; q++) { auto v = gather(in, q); std::vector<Lit> ov; callSpec(fn, v, ov, pc, opaqueOn.count(fn)); for (unsigned i = 0; i < nout; i++) for (unsigned j = 0; j < lb; j++) out[i][q * lb + j] = ov[i * lb + j]; }
      for (unsigned i = 0; i < nout; i++) access(op[i], wb, 1, pc, true, [&](int x, int64_t off, Lit g) { putBits(x, off, out[i], D.AND(g, guardFor(objs[x], pc))); });
      return true; }
    for (auto &p : op) out.push_back(loadMem(p, wb, 1, pc)); std::string nm = cstr(a[7]);
    auto i0 = gather(in, 0), o0 = gather(out, 0); std::vector<Lit> s0; callSpec(fn, i0, s0, PC(), false);
    std::vector<unsigned> left;
    for (unsigned q = 1; q < nl; q++) {
      auto iq = gather(in, q), oq = gather(out, q); std::unordered_map<uint32_t, Lit> sub; bool ok = true; for (size_t j = 0; j < iq.size(); j++) { if (iq[j] <= 1 && iq[j] == i0[j]) continue; if ((iq[j] & 1) || D.N[nd(iq[j])].t != N_VAR) { ok = false; break; } auto it = sub.find(nd(iq[j])); if (it != sub.end() && it->second != i0[j]) ok = false; sub[nd(iq[j])] = i0[j]; }
      if (ok) { // the lane's terms may only contain the lane's inputs
        std::vector<char> seen(D.N.size(), 0); std::vector<uint32_t> st; auto push = [&](Lit l) { uint32_t i = nd(l); if (i && !seen[i]) { seen[i] = 1; st.push_back(i); } }; for (Lit l : oq) push(l);
        while (!st.empty() && ok) { uint32_t i = st.back(); st.pop_back(); const Node n2 = D.N[i]; switch (n2.t) { case N_ITE: push(n2.c); case N_AND: case N_XOR: push(n2.a); push(n2.b); break; case N_LUT: for (unsigned j = 0; j < n2.b; j++) push(D.pool[n2.a + j]); break; case N_VAR: if (!sub.count(i)) ok = false; break; case N_DOM: case N_UF: ok = false; break; } } }
      std::vector<Lit> rq = oq; Restr none; if (ok) cofactorAll(rq, none, &sub);
      if (ok) { bool same = rq == o0; if (same) { counts["contract"]["structural"] += rq.size(); continue; } }
      left.push_back(q); }
    eqObligation(o0, s0, "contract", nm + " lane 0");
    for (unsigned q : left) { auto iq = gather(in, q), oq = gather(out, q); std::vector<Lit> sq; callSpec(fn, iq, sq, PC(), false); eqObligation(oq, sq, "contract", nm + " lane " + std::to_string(q)); if (failures.size() > 4) break; }
    return true; }
  return false;
}
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { r += ' '; continue; } r += c; } return r; }
std::string Exec::json(const std::string &h, double t, const std::string &status) {
  std::string s = "{\"harness\":\"" + h + "\",\"status\":\"" + esc(status) + "\",\"wall\":" + std::to_string(t) + ",\"nodes\":" + std::to_string(D.N.size()) + ",\"instructions\":" + std::to_string(ninstr) + ",\"sat_calls\":" + std::to_string(satCalls) + ",\"sat_time\":" + std::to_string(satTime) + ",\"sweep_proofs\":" + std::to_string(D.st_tt);
  s += ",\"obligations\":{"; bool f = true; for (auto &k : counts) { if (!f) s += ","; f = false; s += "\"" + k.first + "\":{"; bool g = true; for (auto &x : k.second) { if (!g) s += ","; g = false; s += "\"" + x.first + "\":" + std::to_string(x.second); } s += "}"; } s += "}";
  s += ",\"functions\":{"; f = true; for (auto &k : fnInstr) { if (!f) s += ","; f = false; s += "\"" + esc(k.first) + "\":" + std::to_string(k.second); } s += "}";
  s += ",\"library\":["; f = true; for (auto &k : fnInstr) { Function *F = M.getFunction(k.first); if (!F || !F->getSubprogram()) continue; if (!f) s += ","; f = false; s += "\"" + esc(k.first) + "\""; } s += "]";
  s += ",\"contracts_used\":["; f = true; for (auto &k : contractsUsed) { if (!f) s += ","; f = false; s += "\"" + k + "\""; } s += "]";
  s += ",\"notes\":["; f = true; for (auto &k : notes) { if (!f) s += ","; f = false; s += "\"" + esc(k) + "\""; } s += "]";
  s += ",\"results\":["; f = true; for (auto &k : results) { if (!f) s += ","; f = false; s += "\"" + esc(k) + "\""; } s += "]";
  s += ",\"failures\":["; f = true; for (auto &k : failures) { if (!f) s += ","; f = false; s += "{\"kind\":\"" + k.kind + "\",\"loc\":\"" + esc(k.loc) + "\",\"name\":\"" + esc(k.name) + "\",\"status\":\"" + k.status + "\",\"cex\":" + (k.cex.empty() ? "null" : k.cex) + "}"; } s += "]}";
  return s;
}
