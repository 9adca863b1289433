// Bit-vector terms: vectors of literals, least significant bit first.
#pragma once
#include "dag.h"
#include <map>
#include <algorithm>
#include "llvm/ADT/SmallVector.h"
typedef llvm::SmallVector<Lit, 64> Bits;

struct BV {
  Dag &D; BV(Dag &d) : D(d) {}
  static Bits cst(uint64_t v, unsigned w) { Bits b(w); for (unsigned i = 0; i < w; i++) b[i] = i < 64 ? (v >> i) & 1 : 0; return b; }
  static bool isConst(const Bits &b) { for (Lit l : b) if (l > 1) return false; return true; }
  static bool val(const Bits &b, uint64_t &v) { v = 0; for (unsigned i = 0; i < b.size(); i++) { if (b[i] > 1) return false; if (b[i] && i < 64) v |= 1ULL << i; else if (b[i]) return false; } return true; }
  static int64_t sext64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
  Bits ite(Lit c, const Bits &a, const Bits &b) { Bits r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = D.ITE(c, a[i], b[i]); return r; }
  Bits band(const Bits &a, const Bits &b) { Bits r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = D.AND(a[i], b[i]); return r; }
  Bits bor(const Bits &a, const Bits &b) { Bits r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = D.OR(a[i], b[i]); return r; }
  Bits bxor(const Bits &a, const Bits &b) { Bits r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = D.XOR(a[i], b[i]); return r; }
  Bits bnot(const Bits &a) { Bits r(a); for (auto &l : r) l ^= 1; return r; }
  Lit maj(Lit a, Lit b, Lit c) { if (isC(a)) return a ? D.OR(b, c) : D.AND(b, c); if (isC(b)) return b ? D.OR(a, c) : D.AND(a, c); if (isC(c)) return c ? D.OR(a, b) : D.AND(a, b);
    if (a == b) return a; if (a == c) return a; if (b == c) return b; if (a == NOT(b)) return c; if (a == NOT(c)) return b; if (b == NOT(c)) return a;
    return D.OR(D.AND(a, b), D.AND(c, D.OR(a, b))); }
  Bits addc(const Bits &a, const Bits &b, Lit c, Lit *cout = nullptr, Lit *cprev = nullptr) {
    unsigned w = a.size(); uint64_t x, y;
    if (!cout && !cprev && w <= 64 && isC(c) && val(a, x) && val(b, y)) return cst(x + y + c, w);
    Bits r(w); for (unsigned i = 0; i < w; i++) { if (cprev && i == w - 1) *cprev = c; Lit t = D.XOR(a[i], b[i]); r[i] = D.XOR(t, c); c = maj(a[i], b[i], c); }
    if (cout) *cout = c; return r;
  }
  // Linear forms: a sum of multiples of words and a constant, modulo 2^w, is
  // always the same term, however it was computed.
  typedef std::vector<Lit> Key; typedef std::pair<std::map<Key, uint64_t>, uint64_t> Form;
  bool linear = false; std::map<Key, Form> forms; std::map<std::pair<unsigned, Form>, Bits> byForm;
  bool lin(const Bits &a) { return linear && a.size() >= 32 && a.size() <= 64; }
  static uint64_t mask(unsigned w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; }
  void addTerm(Form &f, Key k, uint64_t c, unsigned w) { // c * k
    c &= mask(w); if (!c) return; unsigned z = 0; while (!((c >> z) & 1)) z++;
    { Key sh(w, FALSE_); for (unsigned i = z; i < w; i++) sh[i] = k[i - z]; auto it = forms.find(sh); if (it != forms.end()) { Form g = it->second; f.second += g.second * (c >> z); for (auto &t : g.first) addTerm(f, t.first, t.second * (c >> z), w); return; } }
    for (unsigned i = w - z; i < w; i++) k[i] = FALSE_; unsigned tz = 0; while (tz < w && k[tz] == FALSE_) tz++; if (tz == w) return;
    if (tz) { k.erase(k.begin(), k.begin() + tz); k.resize(w, FALSE_); addTerm(f, k, c << tz, w); return; }
    uint64_t &r = f.first[k]; uint64_t n = (r + c) & mask(w); f.first.erase(k); if (!n) return; unsigned z2 = 0; while (!((n >> z2) & 1)) z2++; if (z2 > z) addTerm(f, k, n, w); else f.first[k] = n; }
  Form formOf(const Bits &a) {
    Key k(a.begin(), a.end()); auto it = forms.find(k); if (it != forms.end()) return it->second; Form f; f.second = 0; uint64_t v;
    if (val(a, v)) { f.second = v; return f; } addTerm(f, k, 1, a.size()); return f; }
  Bits build(const Form &f, unsigned w) {
    bool l = linear; linear = false; Bits r = cst(0, w); bool first = true, done = !f.second;
    for (int s = 0; s < 2; s++) { // what is added, the constant, what is subtracted
      if (s && !done && !first) { r = addc(r, cst(f.second, w), FALSE_); done = true; }
      for (auto &t : f.first) { bool n = t.second >> (w - 1) & 1; if (n != (s == 1)) continue; Bits x = mul(Bits(t.first.begin(), t.first.end()), cst(n ? (0 - t.second) & mask(w) : t.second, w));
        if (!n) r = first ? x : addc(r, x, FALSE_); else { if (first) { r = cst(f.second, w); done = true; } r = addc(r, bnot(x), TRUE_); } first = false; } }
    if (!done) r = addc(r, cst(f.second, w), FALSE_); linear = l; return r; }
  template <class R> Bits ofForm(Form f, unsigned w, R raw) {
    f.second &= mask(w); if (f.first.empty()) return cst(f.second, w);
    if (f.first.size() == 1 && !f.second) { auto &t = *f.first.begin(); if (!(t.second & (t.second - 1))) { unsigned k = 0; while (!((t.second >> k) & 1)) k++; return shlc(Bits(t.first.begin(), t.first.end()), k); } }
    auto key = std::make_pair(w, f); auto it = byForm.find(key); if (it != byForm.end()) return it->second;
    Bits r = f.first.size() <= 3 ? build(f, w) : raw(); byForm[key] = r; if (f.first.size() <= 6) forms[Key(r.begin(), r.end())] = f; return r; }
  Form comb(const Form &a, const Form &b, uint64_t c, unsigned w) { Form f = a; for (auto &t : b.first) addTerm(f, t.first, t.second * c, w); f.second += b.second * c; return f; }
  Bits add(const Bits &a, const Bits &b) {
    if (lin(a)) return ofForm(comb(formOf(a), formOf(b), 1, a.size()), a.size(), [&] { return addc(a, b, FALSE_); });
    return addc(a, b, FALSE_); }
  Bits sub(const Bits &a, const Bits &b) {
    if (lin(a)) return ofForm(comb(formOf(a), formOf(b), ~0ULL, a.size()), a.size(), [&] { return addc(a, bnot(b), TRUE_); });
    return addc(a, bnot(b), TRUE_); }
  // do the forms decide whether a = b?  1, 0 or -1
  int sameForm(const Bits &a, const Bits &b) { if (a == b) return 1; if (!lin(a)) return -1; Form f = comb(formOf(a), formOf(b), ~0ULL, a.size()); return !f.first.empty() ? -1 : !(f.second & mask(a.size())); }
  // a = b, with the positive terms of the difference on one side
  Lit eqlin(const Bits &a, const Bits &b) {
    if (!lin(a)) return eqbits(a, b); unsigned w = a.size(); Form f = comb(formOf(a), formOf(b), ~0ULL, w); if (f.first.size() > 4) return eqbits(a, b);
    Form p, n; p.second = n.second = 0; auto neg = [&](uint64_t c) { return c >> (w - 1) & 1; }; for (auto &t : f.first) if (neg(t.second)) n.first[t.first] = (0 - t.second) & mask(w); else p.first[t.first] = t.second;
    f.second &= mask(w); if (neg(f.second)) n.second = (0 - f.second) & mask(w); else p.second = f.second;
    auto build = [&](const Form &g) { Bits s = cst(g.second, w); for (auto &t : g.first) s = add(s, mul(Bits(t.first.begin(), t.first.end()), cst(t.second, w))); return s; };
    Bits x = build(p), y = build(n); Key kx(x.begin(), x.end()), ky(y.begin(), y.end()); return ky < kx ? eqbits(y, x) : eqbits(x, y); }
  Bits truncl(const Bits &a, unsigned w) {
    Bits r(a.begin(), a.begin() + w); if (!lin(a) || !lin(r)) return r; auto it = forms.find(Key(a.begin(), a.end())); if (it == forms.end()) return r;
    Form src = it->second, f; f.second = src.second; for (auto &t : src.first) addTerm(f, Key(t.first.begin(), t.first.begin() + w), t.second, w); return ofForm(f, w, [&] { return r; }); }
  Bits neg(const Bits &a) { return sub(cst(0, a.size()), a); }
  Bits zext(const Bits &a, unsigned w) { Bits r(a); r.resize(w, FALSE_); return r; }
  Bits sext(const Bits &a, unsigned w) { Bits r(a); r.resize(w, a.back()); return r; }
  Bits trunc(const Bits &a, unsigned w) { return Bits(a.begin(), a.begin() + w); }
  Bits shlc(const Bits &a, unsigned n) { unsigned w = a.size(); Bits r(w, FALSE_); for (unsigned i = n; i < w; i++) r[i] = a[i - n]; return r; }
  Bits shrc(const Bits &a, unsigned n, Lit fill) { unsigned w = a.size(); Bits r(w, fill); for (unsigned i = 0; i + n < w; i++) r[i] = a[i + n]; return r; }
  Bits shift(const Bits &a, const Bits &n, int kind) { // 0 shl 1 lshr 2 ashr; amounts >= width are excluded by an obligation
    uint64_t v; unsigned w = a.size();
    Lit fill = kind == 2 ? a[w - 1] : FALSE_;
    if (val(n, v)) { unsigned k = v >= w ? w : v; if (!kind && lin(a) && k < w) return mul(a, cst(1ULL << k, w)); return kind == 0 ? shlc(a, k) : shrc(a, k, fill); }
    Bits r = a; for (unsigned i = 0; i < n.size() && (1u << i) < w; i++) { if (n[i] == FALSE_) continue; r = ite(n[i], kind == 0 ? shlc(r, 1u << i) : shrc(r, 1u << i, fill), r); }
    return r;
  }
  Bits mul(const Bits &a, const Bits &b) {
    uint64_t x, y; unsigned w = a.size();
    if (w <= 64 && val(a, x) && val(b, y)) return cst(x * y, w);
    if (isConst(a)) return mul(b, a);
    if (lin(a) && val(b, y)) { Form z; z.second = 0; return ofForm(comb(z, formOf(a), y, w), w, [&] { bool l = linear; linear = false; Bits r = mul(a, b); linear = l; return r; }); }
    Bits r = cst(0, w); for (unsigned i = 0; i < w; i++) { if (b[i] == FALSE_) continue; Bits s = shlc(a, i); if (b[i] != TRUE_) for (auto &l : s) l = D.AND(l, b[i]); r = add(r, s); }
    return r;
  }
  void udivrem(const Bits &a, const Bits &b, Bits &q, Bits &r) {
    uint64_t x, y; unsigned w = a.size();
    if (w <= 64 && val(a, x) && val(b, y) && y) { q = cst(x / y, w); r = cst(x % y, w); return; }
    if (w <= 64 && val(b, y) && y && !(y & (y - 1))) { unsigned k = __builtin_ctzll(y); q = shrc(a, k, FALSE_); r = a; for (unsigned i = k; i < w; i++) r[i] = FALSE_; return; }
    q = cst(0, w); r = cst(0, w);
    for (int i = w - 1; i >= 0; i--) { r = shlc(r, 1); r[0] = a[i]; Lit ge = NOT(ult(r, b)); q[i] = ge; r = ite(ge, sub(r, b), r); }
  }
  Lit ult(const Bits &a, const Bits &b) { // a < b
    uint64_t x, y; if (a.size() <= 64 && val(a, x) && val(b, y)) return x < y;
    if (lin(a) && val(a, x) && !x) return NOT(eq(b, a)); if (lin(a) && val(b, y) && y == 1) return eq(a, cst(0, a.size()));
    Lit pw; if (pointwise(a, b, false, pw)) return pw;
    Lit lt = FALSE_; for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue; lt = D.ITE(D.XOR(a[i], b[i]), b[i], lt); } return lt;
  }
  Lit slt(const Bits &a, const Bits &b) { Bits x = a, y = b; x.back() ^= 1; y.back() ^= 1; return ult(x, y); }
  // comparison of terms over one length: decided for every element of its domain
  std::map<std::pair<std::vector<Lit>, bool>, std::pair<bool, Lit>> pwCache;
  bool pointwise(const Bits &a, const Bits &b, bool isEq, Lit &res) {
    if (D.lenVars.empty()) return false;
    std::vector<Lit> key(a.begin(), a.end()); key.insert(key.end(), b.begin(), b.end()); auto &ce = pwCache[{key, isEq}];
    if (ce.second) { res = ce.second & ~(1u << 31); return ce.first; }
    ce.second = 1u << 31; ce.first = false;
    // support
    std::vector<uint32_t> cone, st; std::unordered_map<uint32_t, uint8_t> v; int d = -1; bool ok = true;
    for (Lit l : key) if (l > 1 && !v.count(nd(l))) { v[nd(l)] = 0; st.push_back(nd(l)); }
    while (!st.empty() && ok) { uint32_t i = st.back(); st.pop_back(); cone.push_back(i); if (cone.size() > 2000) { ok = false; break; } const Node &n = D.N[i]; auto push = [&](Lit l) { if (l > 1 && !v.count(nd(l))) { v[nd(l)] = 0; st.push_back(nd(l)); } };
      switch (n.t) { case N_VAR: { auto it = D.lenBit.find(i); if (it == D.lenBit.end() || (d >= 0 && d != it->second)) ok = false; else d = it->second; break; } case N_DOM: if (d >= 0 && d != (int)n.a) ok = false; d = n.a; break; case N_ITE: push(n.c); case N_AND: case N_XOR: push(n.a); push(n.b); break; default: ok = false; } }
    if (!ok || d < 0 || !D.lenVars.count(d)) return false;
    std::sort(cone.begin(), cone.end()); unsigned n = D.domSize(d); std::vector<uint64_t> set((n + 63) / 64, 0); std::unordered_map<uint32_t, const std::vector<uint64_t> *> ds;
    auto get = [&](Lit l) -> unsigned { if (l <= 1) return l; unsigned x = v[nd(l)]; return x == 2 ? 2 : x ^ (l & 1); };
    for (unsigned e = 0; e < n; e++) {
      for (uint32_t i : cone) { const Node &m = D.N[i]; unsigned r; switch (m.t) { case N_VAR: r = 2; break; case N_DOM: r = ((*D.sets[m.b])[e >> 6] >> (e & 63)) & 1; break;
        case N_AND: { unsigned x = get(m.a), y = get(m.b); r = (x == 0 || y == 0) ? 0 : (x == 2 || y == 2) ? 2 : 1; break; } case N_XOR: { unsigned x = get(m.a), y = get(m.b); r = (x == 2 || y == 2) ? 2 : x ^ y; break; }
        default: { unsigned c = get(m.a), x = get(m.b), y = get(m.c); r = c == 1 ? x : c == 0 ? y : x == y ? x : 2; } } v[i] = r; }
      int dec = 2;      // most significant decided difference
      if (isEq) { dec = 1; for (size_t i = 0; i < a.size(); i++) { unsigned x = get(a[i]), y = get(b[i]); if (x != 2 && y != 2 && x != y) { dec = 0; break; } if (x == 2 || y == 2) dec = 2; } }
      else { for (size_t i = a.size(); i-- > 0;) { if (a[i] == b[i]) continue; unsigned x = get(a[i]), y = get(b[i]); if (x == 2 || y == 2) { if (x == 1 && false) ; dec = 3; break; } if (x != y) { dec = y; break; } } if (dec == 2) dec = 0;
        if (dec == 3) { // interval comparison
          __uint128_t amin = 0, amax = 0, bmin = 0, bmax = 0; for (size_t i = a.size(); i-- > 0;) { unsigned x = get(a[i]), y = get(b[i]); amin = amin << 1 | (x == 1); amax = amax << 1 | (x != 0); bmin = bmin << 1 | (y == 1); bmax = bmax << 1 | (y != 0); }
          if (a.size() > 128) return false; if (amax < bmin) dec = 1; else if (amin >= bmax) dec = 0; else dec = 2; } else if (dec == 2) dec = 0; }
      if (dec == 2) return false;
      if (dec) set[e >> 6] |= 1ULL << (e & 63);
    }
    res = D.domLit(d, set); if (res >> 31) return false; ce.first = true; ce.second = res | 1u << 31; return true;
  }
  Lit eqbits(const Bits &a, const Bits &b) { Lit r = TRUE_; for (size_t i = 0; i < a.size() && r; i++) r = D.AND(r, NOT(D.XOR(a[i], b[i]))); return r; }
  Lit eq(const Bits &a, const Bits &b) { { uint64_t x, y; Lit pw; if (!(val(a, x) && val(b, y)) && pointwise(a, b, true, pw)) return pw; } return lin(a) ? eqlin(a, b) : eqbits(a, b); }
};
