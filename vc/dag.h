// Boolean DAG with hash consing: the term language of the obligations.
//
// A literal is node*2+neg.  Node kinds:
//   CONST            the constant false (node 0)
//   VAR              a free Boolean variable (input bit or unspecified bit)
//   DOM(v,S)         "the finite-domain variable v has a value in S"
//   AND, XOR, ITE    gates
//   LUT(tt,args)     a lookup in a truth table (constant tables of the code)
//   UFOUT(app,k)     output bit k of an application of an opaque function
#pragma once
#include <sys/mman.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <functional>

typedef uint32_t Lit;
static const Lit FALSE_ = 0, TRUE_ = 1, UNINIT = 0xffffffffu;
static inline Lit NOT(Lit a) { return a ^ 1; }
static inline uint32_t nd(Lit a) { return a >> 1; }
static inline bool isC(Lit a) { return a <= 1; }

enum NT : uint8_t { N_CONST, N_VAR, N_DOM, N_AND, N_XOR, N_ITE, N_LUT, N_UF };
struct Node { uint32_t a, b, c; uint8_t t; };

static inline uint64_t mix64(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x;
}

struct EngineError { std::string msg; };
[[noreturn]] static inline void fail(const std::string &m) { throw EngineError{m}; }

struct DomVar { std::string name; std::vector<uint64_t> vals; unsigned n; };
struct VarInfo { int group; uint32_t idx; };            // group: which vc_sym object; -1 undef
struct UFApp { int fn; uint32_t args, nargs, nout, firstout; };

struct Sim { uint64_t s[2]; };

// nodes never move: references to them stay valid while nodes are added
struct NodeArray {
  Node *p; size_t n = 0; static const size_t CAP = 600000000;
  NodeArray() { p = (Node *)mmap(nullptr, CAP * sizeof(Node), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); }
  void reserve(size_t) {}
  size_t size() const { return n; }
  void push_back(const Node &x) { if (n >= CAP) abort(); p[n++] = x; }
  Node &operator[](size_t i) { return p[i]; }
  const Node &operator[](size_t i) const { return p[i]; }
};
struct Dag {
  NodeArray N;
  std::vector<uint32_t> table; uint32_t tmask = 0;
  std::vector<VarInfo> vars;
  std::vector<DomVar> doms;
  // interned bit sets / truth tables
  struct VecHash { size_t operator()(const std::vector<uint64_t> &v) const { uint64_t h = v.size(); for (auto x : v) h = mix64(h ^ x) + 0x9e3779b97f4a7c15ULL; return h; } };
  std::unordered_map<std::vector<uint64_t>, uint32_t, VecHash> setIds; std::vector<const std::vector<uint64_t> *> sets;
  std::unordered_map<uint64_t, uint32_t> setOpCache[2];
  std::vector<Lit> pool;                                // LUT and UF argument lists
  std::unordered_multimap<uint64_t, uint32_t> lutHash, ufHash;
  std::vector<UFApp> apps; std::vector<std::string> ufNames; std::map<std::string, int> ufIds;
  // inverse pairs: ufInv[f] = g means f(k..., g(k..., x)) = x, keyPrefix args
  struct Inv { int g; uint32_t prefix; }; std::map<int, Inv> ufInv;
  // simulation and sweeping
  bool fraig = false; std::vector<Sim> sims; uint64_t rng = 88172645463325252ULL;
  std::unordered_multimap<uint64_t, uint32_t> sigTab;
  uint64_t st_tt = 0, st_ttfail = 0;

  uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }

  Dag() { N.reserve(1 << 20); table.assign(1 << 21, 0); tmask = (1 << 21) - 1; N.push_back({0, 0, 0, N_CONST}); }

  // ---- sets
  uint32_t setId(const std::vector<uint64_t> &v) {
    auto it = setIds.find(v); if (it != setIds.end()) return it->second;
    uint32_t id = sets.size(); auto r = setIds.emplace(v, id); sets.push_back(&r.first->first); return id;
  }
  static bool setEmpty(const std::vector<uint64_t> &v) { for (auto x : v) if (x) return false; return true; }
  unsigned domSize(int d) { return doms[d].n; }
  std::vector<uint64_t> fullSet(int d) { unsigned n = doms[d].n; std::vector<uint64_t> v((n + 63) / 64, ~0ULL); if (n % 64) v.back() = (1ULL << (n % 64)) - 1; return v; }

  // ---- raw node creation
  uint64_t hkey(const Node &n) { return mix64(((uint64_t)n.a << 32 | n.b) * 0x9e3779b97f4a7c15ULL ^ ((uint64_t)n.c << 8 | n.t)); }
  void rehash() {
    size_t ns = table.size() * 2; table.assign(ns, 0); tmask = ns - 1;
    for (uint32_t i = 1; i < N.size(); i++) { uint8_t t = N[i].t; if (t == N_AND || t == N_XOR || t == N_ITE || t == N_DOM) { uint32_t h = hkey(N[i]) & tmask; while (table[h]) h = (h + 1) & tmask; table[h] = i; } }
  }
  // lengths: a domain whose last elements stand for [2^k, 2^(k+1)) with free low bits
  struct LenVar { uint32_t firstVar; int firstClass; };    // free bits: variables firstVar..+31; elements from firstClass on are classes
  std::unordered_map<int, LenVar> lenVars; std::unordered_map<uint32_t, int> lenBit;
  size_t maxNodes = 400u * 1000 * 1000;
  uint32_t fresh(const Node &n) {
    uint32_t id = N.size(); if (id >= maxNodes) fail("node limit"); N.push_back(n); return id; }
  Lit mk(uint8_t t, uint32_t a, uint32_t b, uint32_t c) {
    Node n{a, b, c, t};
    uint32_t h = hkey(n) & tmask;
    while (uint32_t i = table[h]) { const Node &m = N[i]; if (m.a == a && m.b == b && m.c == c && m.t == t) { if (fraig && !isSwept(i)) return sweep(i); return redirect.empty() ? i * 2 : canon(i); } h = (h + 1) & tmask; }
    if (N.size() * 2 > table.size()) { rehash(); h = hkey(n) & tmask; while (table[h]) h = (h + 1) & tmask; }
    uint32_t id = fresh(n); table[h] = id;
    return fraig ? sweep(id) : id * 2;
  }
  // nodes merged by sweeping point to their representative
  std::unordered_map<uint32_t, Lit> redirect;
  Lit canon(uint32_t id) { auto it = redirect.find(id); return it == redirect.end() ? id * 2 : it->second; }

  Lit var(int group, uint32_t idx) {
    uint32_t v = vars.size(); vars.push_back({group, idx});
    uint32_t id = fresh({v, 0, 0, N_VAR});
    return id * 2;
  }
  int domVar(const std::string &name, const std::vector<uint64_t> &vals) { doms.push_back({name, vals, (unsigned)vals.size()}); return doms.size() - 1; }
  Lit domLit(int d, std::vector<uint64_t> s) {
    bool neg = s[0] & 1; auto f = fullSet(d);
    if (neg) for (size_t i = 0; i < s.size(); i++) s[i] = f[i] & ~s[i];
    if (setEmpty(s)) return neg;
    return mk(N_DOM, d, setId(s), 0) ^ (Lit)neg;
  }
  // the set of a DOM literal (with complement applied)
  std::vector<uint64_t> litSet(Lit l) {
    const Node &n = N[nd(l)]; std::vector<uint64_t> s = *sets[n.b];
    if (l & 1) { auto f = fullSet(n.a); for (size_t i = 0; i < s.size(); i++) s[i] = f[i] & ~s[i]; }
    return s;
  }
  bool isDom(Lit l) { return N[nd(l)].t == N_DOM; }
  Lit domAnd(Lit x, Lit y) {
    if (x == FALSE_ || y == FALSE_) return FALSE_; if (x == TRUE_) return y; if (y == TRUE_) return x;
    int d = N[nd(x)].a;
    uint64_t key = (uint64_t)x << 32 | y; auto it = setOpCache[0].find(key); if (it != setOpCache[0].end()) return it->second;
    auto s = litSet(x); auto t = litSet(y); for (size_t i = 0; i < s.size(); i++) s[i] &= t[i];
    Lit r = domLit(d, s); setOpCache[0][key] = r; return r;
  }
  Lit domXor(Lit x, Lit y) {
    if (x <= 1) return y ^ x; if (y <= 1) return x ^ y;
    Lit ph = (x ^ y) & 1; x &= ~1u; y &= ~1u; if (x > y) std::swap(x, y);
    int d = N[nd(x)].a;
    uint64_t key = (uint64_t)x << 32 | y; auto it = setOpCache[1].find(key); if (it != setOpCache[1].end()) return it->second ^ ph;
    auto s = litSet(x); auto t = litSet(y); for (size_t i = 0; i < s.size(); i++) s[i] ^= t[i];
    Lit r = domLit(d, s); setOpCache[1][key] = r; return r ^ ph;
  }
  Lit AND(Lit a, Lit b) {
    if (a > b) std::swap(a, b);
    if (a == FALSE_ || a == NOT(b)) return FALSE_;
    if (a == TRUE_ || a == b) return b;
    for (int r = 0; r < 2; r++) {
      const Node &n = N[nd(b)];
      if (n.t == N_AND) {
        if (!(b & 1)) { if (n.a == a || n.b == a) return b; if (n.a == NOT(a) || n.b == NOT(a)) return FALSE_; }
        else { if (n.a == a) return AND(a, NOT(n.b)); if (n.b == a) return AND(a, NOT(n.a)); if (n.a == NOT(a) || n.b == NOT(a)) return a;
          if (isDom(a)) for (int k = 0; k < 2; k++) { Lit x = k ? n.b : n.a, o = k ? n.a : n.b; if (isDom(x) && N[nd(x)].a == N[nd(a)].a) { if (domAnd(a, x) == FALSE_) return a; if (domAnd(a, NOT(x)) == FALSE_) return AND(a, NOT(o)); } } }
      }
      if (n.t == N_ITE) {
        if (n.a == (a & ~1u)) { Lit br = (a & 1) ? n.c : n.b; return AND(a, br ^ (b & 1)); }
        if (isDom(a) && isDom(n.a) && N[nd(a)].a == N[nd(n.a)].a) { if (domAnd(a, NOT(n.a)) == FALSE_) return AND(a, n.b ^ (b & 1)); if (domAnd(a, n.a) == FALSE_) return AND(a, n.c ^ (b & 1)); }
      }
      if (n.t == N_DOM) {
        const Node &m = N[nd(a)];
        if (m.t == N_DOM && m.a == n.a) return domAnd(a, b);
        if (m.t == N_AND && !(a & 1)) {
          if (isDom(m.a) && N[nd(m.a)].a == n.a) { Lit d = domAnd(m.a, b), y = m.b; return AND(d, y); }
          if (isDom(m.b) && N[nd(m.b)].a == n.a) { Lit d = domAnd(m.b, b), y = m.a; return AND(d, y); }
        }
      }
      std::swap(a, b);
    }
    if (a > b) std::swap(a, b);
    if ((a & 1) && (b & 1) && N[nd(a)].t == N_AND && N[nd(b)].t == N_AND) { // ~(p & q) & ~(~p & ~q) = p ^ q
      Lit p = N[nd(a)].a, q = N[nd(a)].b, u = N[nd(b)].a, v = N[nd(b)].b;
      if ((u == NOT(p) && v == NOT(q)) || (u == NOT(q) && v == NOT(p))) return XOR(p, q);
    }
    return mk(N_AND, a, b, 0);
  }
  Lit OR(Lit a, Lit b) { return NOT(AND(NOT(a), NOT(b))); }
  Lit XOR(Lit a, Lit b) {
    Lit ph = (a ^ b) & 1; a &= ~1u; b &= ~1u;
    if (a == b) return ph;
    if (a > b) std::swap(a, b);
    if (a == FALSE_) return b ^ ph;
    const Node n = N[nd(b)], m = N[nd(a)];
    if (n.t == N_XOR) {
      if (n.a == a) return n.b ^ ph; if (n.b == a) return n.a ^ ph;
      if (m.t == N_XOR) {
        if (m.a == n.a) return XOR(m.b, n.b) ^ ph; if (m.a == n.b) return XOR(m.b, n.a) ^ ph;
        if (m.b == n.a) return XOR(m.a, n.b) ^ ph; if (m.b == n.b) return XOR(m.a, n.a) ^ ph;
      }
    }
    if (m.t == N_XOR) { if (m.a == b) return m.b ^ ph; if (m.b == b) return m.a ^ ph; }
    if (n.t == N_DOM && m.t == N_DOM && n.a == m.a) return domXor(a, b) ^ ph;
    return mk(N_XOR, a, b, 0) ^ ph;
  }
  // is p => q known (cheap, sound)?
  bool implies(Lit p, Lit q) { int fuel = 256; return implies(p, q, fuel); }
  bool implies(Lit p, Lit q, int &fuel) {
    if (--fuel < 0) return false;
    if (p == q || p == FALSE_ || q == TRUE_) return true;
    const Node &n = N[nd(p)], &m = N[nd(q)];
    if (n.t == N_DOM && m.t == N_DOM && n.a == m.a) { return domAnd(p, NOT(q)) == FALSE_; }
    if (m.t == N_AND) {
      if (q & 1) { if (implies(p, NOT(m.a), fuel) || implies(p, NOT(m.b), fuel)) return true; }
      else if (implies(p, m.a, fuel) && implies(p, m.b, fuel)) return true;
    }
    if (n.t == N_AND && !(p & 1)) return implies(n.a, q, fuel) || implies(n.b, q, fuel);
    return false;
  }
  // conjuncts of a literal
  void conj(Lit l, std::vector<Lit> &o) { const Node n = N[nd(l)]; if (n.t == N_AND && !(l & 1) && o.size() < 12) { conj(n.a, o); conj(n.b, o); } else o.push_back(l); }
  // c | d if that is expressible without a new OR gate (they differ in one condition on one finite-domain variable)
  bool orMerge(Lit c, Lit d, Lit &r) {
    if (c == d) { r = c; return true; }
    if (implies(c, d)) { r = d; return true; }
    if (implies(d, c)) { r = c; return true; }
    std::vector<Lit> x, y; conj(c, x); conj(d, y); if (x.size() != y.size() || x.size() > 10) return false;
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    std::vector<Lit> cx, cy, com; std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(cx)); std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(cy));
    if (cx.size() != 1 || cy.size() != 1) return false;
    Lit m; if (cx[0] == NOT(cy[0])) m = TRUE_; else if (isDom(cx[0]) && isDom(cy[0]) && N[nd(cx[0])].a == N[nd(cy[0])].a) m = NOT(domAnd(NOT(cx[0]), NOT(cy[0]))); else return false;
    std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(com));
    r = m; for (Lit l : com) r = AND(r, l); return true;
  }
  Lit ITE(Lit c, Lit a, Lit b) {
    if (c == TRUE_) return a; if (c == FALSE_) return b; if (a == b) return a;
    if (c & 1) { c ^= 1; std::swap(a, b); }
    if (a == TRUE_ || a == c) return OR(c, b); if (a == FALSE_ || a == NOT(c)) return AND(NOT(c), b);
    if (b == FALSE_ || b == c) return AND(c, a); if (b == TRUE_ || b == NOT(c)) return OR(NOT(c), a);
    if (a == NOT(b)) return XOR(c, b);
    if (isDom(c)) {
      if (isDom(a) && isDom(b) && N[nd(a)].a == N[nd(c)].a && N[nd(b)].a == N[nd(c)].a) return NOT(domAnd(NOT(domAnd(c, a)), NOT(domAnd(NOT(c), b))));
    }
    for (int k = 0; k < 1000; k++) {       // nested conditionals on decided conditions
      const Node &n = N[nd(a)]; if (n.t != N_ITE) break; Lit ph = a & 1;
      if (implies(c, n.a)) a = n.b ^ ph; else if (implies(c, NOT(n.a))) a = n.c ^ ph; else break;
      if (a == b) return a;
    }
    for (int k = 0; k < 1000; k++) {
      const Node &n = N[nd(b)]; if (n.t != N_ITE) break; Lit ph = b & 1; Lit nc = NOT(c);
      if (implies(nc, n.a)) b = n.b ^ ph; else if (implies(nc, NOT(n.a))) b = n.c ^ ph; else break;
      if (a == b) return a;
    }
    if (isC(a) || isC(b) || a == NOT(b) || (a >> 1) == (c >> 1) || (b >> 1) == (c >> 1)) return ITE(c, a, b);
    { // ITE(c, a, ITE(d, a, x)) = ITE(c|d, a, x)
      const Node n = N[nd(b)];
      if (n.t == N_ITE) {
        Lit ph = b & 1, m;
        if ((n.b ^ ph) == a && orMerge(c, n.a, m)) return ITE(m, a, n.c ^ ph);
        if ((n.c ^ ph) == a && isDom(c) && isDom(n.a) && orMerge(c, NOT(n.a), m)) return ITE(m, a, n.b ^ ph);
      }
    }
    Lit ph = 0; if (a & 1) { ph = 1; a ^= 1; b ^= 1; }
    return mk(N_ITE, c, a, b) ^ ph;
  }
  // lookup: tt has 2^k bits, args are k literals (arg 0 = least significant index bit)
  Lit LUT(std::vector<uint64_t> tt, std::vector<Lit> args) {
    auto get = [&](unsigned i) { return (tt[i >> 6] >> (i & 63)) & 1; };
    // constants, complements, duplicates, irrelevant inputs
    for (size_t j = 0; j < args.size();) {
      unsigned k = args.size(); Lit l = args[j]; bool drop = false; unsigned fix = 0; int dup = -1;
      if (isC(l)) { drop = true; fix = l; }
      else for (size_t m = 0; m < j; m++) if ((args[m] >> 1) == (l >> 1)) { dup = m; drop = true; break; }
      if (!drop) { bool rel = false; for (unsigned i = 0; i < (1u << k) && !rel; i++) if (!((i >> j) & 1) && get(i) != get(i | 1u << j)) rel = true; if (!rel) { drop = true; } }
      if (drop) {
        std::vector<uint64_t> nt(((1u << (k - 1)) + 63) / 64, 0);
        for (unsigned i = 0; i < (1u << (k - 1)); i++) {
          unsigned lo = i & ((1u << j) - 1), hi = (i >> j) << (j + 1); unsigned bit = fix;
          if (dup >= 0) bit = ((lo >> dup) & 1) ^ ((args[dup] ^ l) & 1);
          if (get(hi | lo | bit << j)) nt[i >> 6] |= 1ULL << (i & 63);
        }
        tt.swap(nt); args.erase(args.begin() + j); j = 0; continue;
      }
      j++;
    }
    unsigned k = args.size();
    if (k == 0) return get(0);
    // positive inputs, sorted
    std::vector<unsigned> ord(k); unsigned inv = 0; for (unsigned j = 0; j < k; j++) { ord[j] = j; if (args[j] & 1) inv |= 1u << j; }
    std::sort(ord.begin(), ord.end(), [&](unsigned x, unsigned y) { return args[x] < args[y]; });
    std::vector<uint64_t> nt(((1u << k) + 63) / 64, 0);
    for (unsigned i = 0; i < (1u << k); i++) { unsigned o = 0; for (unsigned j = 0; j < k; j++) if ((i >> j) & 1) o |= 1u << ord[j]; if (get(o ^ inv)) nt[i >> 6] |= 1ULL << (i & 63); }
    std::vector<Lit> na(k); for (unsigned j = 0; j < k; j++) na[j] = args[ord[j]] & ~1u;
    Lit ph = nt[0] & 1;
    if (ph) { for (auto &w : nt) w = ~w; if (k < 6) nt[0] &= (1ULL << (1u << k)) - 1; }
    if (k == 1) return na[0] ^ ph;
    if (k == 2) {
      switch (nt[0]) { case 6: return XOR(na[0], na[1]) ^ ph; case 8: return AND(na[0], na[1]) ^ ph; case 2: return AND(na[0], NOT(na[1])) ^ ph; case 4: return AND(NOT(na[0]), na[1]) ^ ph; case 14: return OR(na[0], na[1]) ^ ph; }
    }
    uint32_t tid = setId(nt); uint64_t h = mix64(tid); for (auto l : na) h = mix64(h ^ l);
    auto r = lutHash.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) { const Node &n = N[it->second]; if (n.c == tid && n.b == k && !memcmp(&pool[n.a], na.data(), k * 4)) { if (fraig && !isSwept(it->second)) return sweep(it->second) ^ ph; return canon(it->second) ^ ph; } }
    uint32_t ao = pool.size(); pool.insert(pool.end(), na.begin(), na.end());
    uint32_t id = fresh({ao, k, tid, N_LUT}); lutHash.emplace(h, id);
    return (fraig ? sweep(id) : id * 2) ^ ph;
  }
  int ufId(const std::string &n) { auto it = ufIds.find(n); if (it != ufIds.end()) return it->second; int id = ufNames.size(); ufNames.push_back(n); ufIds[n] = id; return id; }
  // application of an opaque function
  void UF(int fn, const Lit *args, uint32_t nargs, Lit *outs, uint32_t nout) {
    auto iv = ufInv.find(fn);
    if (iv != ufInv.end() && nargs == iv->second.prefix + nout) {
      uint32_t p = iv->second.prefix; bool ok = true; uint32_t app = 0;
      for (uint32_t i = 0; i < nout && ok; i++) {
        Lit l = args[p + i]; const Node &n = N[nd(l)];
        if ((l & 1) || n.t != N_UF || n.b != i || (i && n.a != app)) { ok = false; break; }
        app = n.a;
        if (i == 0) { const UFApp &a = apps[app]; if (a.fn != iv->second.g || a.nout != nout || a.nargs != nargs || memcmp(&pool[a.args], args, p * 4)) ok = false; }
      }
      if (ok) { const UFApp &a = apps[app]; memcpy(outs, &pool[a.args + p], nout * 4); return; }
    }
    uint64_t h = mix64(fn * 77 + nout); for (uint32_t i = 0; i < nargs; i++) h = (h ^ args[i]) * 0x9ddfea08eb382d69ULL, h ^= h >> 29;
    auto r = ufHash.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      const UFApp &a = apps[it->second];
      if (a.fn == fn && a.nargs == nargs && a.nout == nout && !memcmp(&pool[a.args], args, nargs * 4)) { for (uint32_t i = 0; i < nout; i++) outs[i] = canon(a.firstout + i); return; }
    }
    UFApp a; a.fn = fn; a.nargs = nargs; a.nout = nout; a.args = pool.size();
    std::vector<Lit> tmp(args, args + nargs); pool.insert(pool.end(), tmp.begin(), tmp.end());
    a.firstout = N.size(); uint32_t ai = apps.size();
    for (uint32_t i = 0; i < nout; i++) {
      uint32_t id = fresh({ai, i, 0, N_UF}); outs[i] = id * 2;
    }
    apps.push_back(a); ufHash.emplace(h, ai);
  }

  // ---- simulation, sweeping
  std::vector<uint8_t> sw, anch;
  void setAnchor(uint32_t i) { if (anch.size() <= i) anch.resize(i + i / 4 + 16, 0); anch[i] = 1; }
  bool isAnchor(uint32_t i) { return i < anch.size() && anch[i]; }
  void setSim(uint32_t id, const Sim &s) { if (sims.size() <= id) { size_t n = std::max<size_t>(id + 1, sims.size() + sims.size() / 2); sims.resize(n); sw.resize(n, 0); } sims[id] = s; sw[id] = 1; }
  Sim litSim(Lit l) { Sim s = sims[nd(l)]; if (l & 1) { s.s[0] = ~s.s[0]; s.s[1] = ~s.s[1]; } return s; }
  static uint64_t sigKey(const Sim &s) { return mix64(s.s[0] * 0x9e3779b97f4a7c15ULL ^ s.s[1]); }
  Sim computeSim(uint32_t id) {
    const Node &n = N[id]; Sim r{{0, 0}};
    switch (n.t) {
    case N_AND: { Sim x = litSim(n.a), y = litSim(n.b); for (int i = 0; i < 2; i++) r.s[i] = x.s[i] & y.s[i]; break; }
    case N_XOR: { Sim x = litSim(n.a), y = litSim(n.b); for (int i = 0; i < 2; i++) r.s[i] = x.s[i] ^ y.s[i]; break; }
    case N_ITE: { Sim c = litSim(n.a), x = litSim(n.b), y = litSim(n.c); for (int i = 0; i < 2; i++) r.s[i] = (c.s[i] & x.s[i]) | (~c.s[i] & y.s[i]); break; }
    case N_LUT: { Sim a[20]; for (unsigned j = 0; j < n.b; j++) a[j] = litSim(pool[n.a + j]); const auto &tt = *sets[n.c];
      for (int w = 0; w < 2; w++) for (int p = 0; p < 64; p++) { unsigned x = 0; for (unsigned j = 0; j < n.b; j++) x |= ((a[j].s[w] >> p) & 1) << j; r.s[w] |= ((tt[x >> 6] >> (x & 63)) & 1) << p; } break; }
    case N_DOM: { // finite-domain variables take pseudo-random values in patterns
      const auto &st = *sets[n.b]; for (int w = 0; w < 2; w++) for (int p = 0; p < 64; p++) { unsigned v = (w == 0 && p == 0) ? 0 : mix64(n.a * 1000003ULL + w * 64 + p) % doms[n.a].n; r.s[w] |= ((st[v >> 6] >> (v & 63)) & 1) << p; } break; }
    default: break;
    }
    return r;
  }
  Lit sweep(uint32_t id) {
    Sim s = computeSim(id); setSim(id, s);
    Lit ph = s.s[0] & 1; Sim c = s; if (ph) { c.s[0] = ~c.s[0]; c.s[1] = ~c.s[1]; }
    if (!c.s[0] && !c.s[1]) { if (proveEq(id, 0)) { redirect[id] = ph; return ph; } }
    uint64_t k = sigKey(c); auto r = sigTab.equal_range(k); int tries = 0;
    for (auto it = r.first; it != r.second && tries < 4; ++it, ++tries) {
      uint32_t o = it->second; if (o == id) continue;
      Sim so = sims[o]; Lit pho = so.s[0] & 1; if (pho) { so.s[0] = ~so.s[0]; so.s[1] = ~so.s[1]; }
      if (so.s[0] != c.s[0] || so.s[1] != c.s[1]) continue;
      if (proveEq(id, o)) { Lit l = (o * 2) ^ (ph ^ pho); redirect[id] = l; setAnchor(o); return l; }
    }
    sigTab.emplace(k, id); return id * 2;
  }
  // exhaustive comparison over a cut: id == o up to the complement seen in simulation
  bool proveEq(uint32_t x, uint32_t y) { return proveEq(x, y, 0) || proveEq(x, y, 1); }
  bool proveEq(uint32_t x, uint32_t y, int strategy) {
    static thread_local std::vector<uint32_t> fr, in;
    fr.clear(); in.clear(); fr.push_back(x); if (y) fr.push_back(y);
    std::sort(fr.begin(), fr.end(), std::greater<uint32_t>());
    // reconvergence-driven: expand the node that adds the fewest leaves
    for (int step = 0; step < 120; step++) {
      int best = 999; size_t bi = 0; uint32_t bid = 0;
      for (size_t i = 0; i < fr.size(); i++) {
        const Node &n = N[fr[i]]; if (n.t < N_AND || n.t > N_LUT) continue;
        int c = -1; uint32_t ch[20]; unsigned nc = 0;
        if (n.t == N_AND || n.t == N_XOR) { ch[nc++] = nd(n.a); ch[nc++] = nd(n.b); } else if (n.t == N_ITE) { ch[nc++] = nd(n.a); ch[nc++] = nd(n.b); ch[nc++] = nd(n.c); } else for (unsigned j = 0; j < n.b && j < 20; j++) ch[nc++] = nd(pool[n.a + j]);
        for (unsigned j = 0; j < nc; j++) if (ch[j] && std::find(fr.begin(), fr.end(), ch[j]) == fr.end()) c++;
        bool root = fr[i] == x || (y && fr[i] == y); if (root) c = -50; else if (strategy == 1) c = 1; else if (isAnchor(fr[i]) && c > 0) c += 30;
        if (c < best || (c == best && fr[i] > bid)) { best = c; bi = i; bid = fr[i]; }
      }
      if (best > 0 && step > 0 && fr.size() <= 12) { if (cutEq(x, y, fr, in)) { st_tt++; return true; } }
      if (best == 999) break;
      fr.erase(fr.begin() + bi); in.push_back(bid);
      const Node &n = N[bid]; auto add = [&](Lit l) { uint32_t m = nd(l); if (m && std::find(fr.begin(), fr.end(), m) == fr.end()) fr.push_back(m); };
      if (n.t == N_AND || n.t == N_XOR) { add(n.a); add(n.b); } else if (n.t == N_ITE) { add(n.a); add(n.b); add(n.c); } else for (unsigned j = 0; j < n.b; j++) add(pool[n.a + j]);
      if (fr.size() > 16) break;
    }
    st_ttfail++;
    return false;
  }
  bool cutEq(uint32_t x, uint32_t y, const std::vector<uint32_t> &fr, const std::vector<uint32_t> &in) {
    unsigned k = fr.size(); if (k > 12) return false; unsigned W = k <= 6 ? 1 : 1u << (k - 6);
    static thread_local std::vector<uint32_t> ids; static thread_local std::vector<uint64_t> val;
    static const uint64_t P[6] = {0xaaaaaaaaaaaaaaaaULL, 0xccccccccccccccccULL, 0xf0f0f0f0f0f0f0f0ULL, 0xff00ff00ff00ff00ULL, 0xffff0000ffff0000ULL, 0xffffffff00000000ULL};
    ids.clear(); ids.push_back(0); for (auto f : fr) ids.push_back(f);
    size_t nf = ids.size(); ids.insert(ids.end(), in.begin(), in.end()); std::sort(ids.begin() + nf, ids.end());
    val.assign(ids.size() * W, 0);
    for (unsigned j = 0; j < k; j++) for (unsigned w = 0; w < W; w++) val[(1 + j) * W + w] = j < 6 ? P[j] : ((w >> (j - 6)) & 1 ? ~0ULL : 0);
    auto find = [&](uint32_t m) -> int { if (!m) return 0; for (size_t i = 1; i < nf; i++) if (ids[i] == m) return i; auto it = std::lower_bound(ids.begin() + nf, ids.end(), m); if (it != ids.end() && *it == m) return it - ids.begin(); return -1; };
    uint64_t tmp[20][64];
    for (size_t i = nf; i < ids.size(); i++) {
      const Node &n = N[ids[i]];
      auto ld = [&](Lit l, uint64_t *o) { int p = find(nd(l)); if (p < 0) return false; for (unsigned w = 0; w < W; w++) o[w] = val[p * W + w] ^ ((l & 1) ? ~0ULL : 0); return true; };
      uint64_t *o = &val[i * W];
      if (n.t == N_AND) { if (!ld(n.a, tmp[0]) || !ld(n.b, tmp[1])) return false; for (unsigned w = 0; w < W; w++) o[w] = tmp[0][w] & tmp[1][w]; }
      else if (n.t == N_XOR) { if (!ld(n.a, tmp[0]) || !ld(n.b, tmp[1])) return false; for (unsigned w = 0; w < W; w++) o[w] = tmp[0][w] ^ tmp[1][w]; }
      else if (n.t == N_ITE) { if (!ld(n.a, tmp[0]) || !ld(n.b, tmp[1]) || !ld(n.c, tmp[2])) return false; for (unsigned w = 0; w < W; w++) o[w] = (tmp[0][w] & tmp[1][w]) | (~tmp[0][w] & tmp[2][w]); }
      else { for (unsigned j = 0; j < n.b; j++) if (!ld(pool[n.a + j], tmp[j])) return false; const auto &tt = *sets[n.c];
        unsigned lim = k >= 6 ? 64 : 1u << k;
        for (unsigned w = 0; w < W; w++) { uint64_t r = 0; for (unsigned p = 0; p < lim; p++) { unsigned xx = 0; for (unsigned j = 0; j < n.b; j++) xx |= ((tmp[j][w] >> p) & 1) << j; r |= ((tt[xx >> 6] >> (xx & 63)) & 1) << p; } o[w] = r; } }
    }
    int px = find(x), py = y ? find(y) : 0; if (px < 0 || py < 0) return false;
    uint64_t m = k >= 6 ? ~0ULL : (1ULL << (1u << k)) - 1;
    Lit phx = sims[x].s[0] & 1, phy = y ? (sims[y].s[0] & 1) : 0; uint64_t ph = (phx ^ phy) ? ~0ULL : 0;
    for (unsigned w = 0; w < W; w++) if ((val[px * W + w] ^ val[py * W + w] ^ ph) & m) return false;
    return true;
  }
  bool isSwept(uint32_t id) { return id < sw.size() && sw[id]; }
  void sweepLeaf(uint32_t id) {
    if (isSwept(id)) return; Sim s{{rnd(), rnd()}}; s.s[0] &= ~1ULL; setSim(id, s); sigTab.emplace(sigKey(s), id);
  }
};
