// Hash-consed bit-vector expressions, with evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <vector>
#include <unordered_map>
#include <string>
#include <bitset>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

typedef unsigned __int128 u128;
typedef uint32_t Ref; // 0 = "no expression" (concrete value held elsewhere)

enum EOp : uint8_t {
  E_CONST, E_VAR,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_CONCAT /*a=hi,b=lo*/, E_EXTRACT /*k=lo bit*/, E_ZEXT, E_SEXT,
  E_UMULO, E_SMULO,
  E_FADD, E_FSUB, E_FMUL, E_FDIV,
  E_FOEQ, E_FOLT, E_FOLE, E_FUNO,
  E_FEXT, E_FTRUNC, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI,
  E_FRND /*k: 0 floor 1 ceil 2 trunc 3 nearest-away 4 nearest-even*/,
  E_TABLE /*k: index into tables*/,
  E_NOPS
};

static const uint32_t SUP_NONE = 0, SUP_MULTI = 0xffffffffu;

struct Expr {
  uint8_t op;
  uint8_t w;
  uint32_t a, b, c;
  uint32_t sup; // SUP_NONE, var+1 or SUP_MULTI
  u128 k;
};

static inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline __int128 sx(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 m = (u128)1 << (w - 1);
  return (__int128)((v ^ m) - m);
}

struct Table { std::vector<uint64_t> keys, vals; }; // sorted keys; reads of constant memory at a symbolic address
struct VarInfo { unsigned w; };

struct Exprs {
  std::vector<Expr> n;
  std::vector<VarInfo> vars;
  std::vector<Table> tables;
  std::vector<Ref> table; // open addressing
  size_t tmask;
  // evaluation memo
  std::vector<u128> ev;
  std::vector<uint32_t> evs;
  uint32_t stamp = 0;
  std::unordered_map<Ref, std::vector<uint32_t>> supports;

  Exprs() {
    n.reserve(1 << 16);
    n.push_back(Expr{E_CONST, 1, 0, 0, 0, 0, 0}); // id 0 unused
    table.assign(1 << 16, 0);
    tmask = table.size() - 1;
  }
  static size_t hsh(const Expr &e) {
    uint64_t h = e.op * 0x9E3779B97F4A7C15ull + e.w;
    h = (h ^ e.a) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ e.b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    h = (h ^ e.c) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
    h = (h ^ (uint64_t)e.k) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ (uint64_t)(e.k >> 64)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 32;
    return h;
  }
  Ref intern(Expr e) {
    size_t i = hsh(e) & tmask;
    while (table[i]) {
      const Expr &o = n[table[i]];
      if (o.op == e.op && o.w == e.w && o.a == e.a && o.b == e.b && o.c == e.c && o.k == e.k) return table[i];
      i = (i + 1) & tmask;
    }
    auto merge = [](uint32_t x, uint32_t y) -> uint32_t {
      if (x == SUP_NONE) return y;
      if (y == SUP_NONE || x == y) return x;
      return SUP_MULTI;
    };
    if (e.op == E_VAR) e.sup = (uint32_t)e.k + 1;
    else {
      e.sup = SUP_NONE;
      if (e.a) e.sup = merge(e.sup, n[e.a].sup);
      if (e.b) e.sup = merge(e.sup, n[e.b].sup);
      if (e.c) e.sup = merge(e.sup, n[e.c].sup);
    }
    Ref id = n.size();
    n.push_back(e);
    table[i] = id;
    if (n.size() * 2 > table.size()) {
      std::vector<Ref> t(table.size() * 2, 0);
      size_t m = t.size() - 1;
      for (Ref r = 1; r < n.size(); r++) {
        size_t j = hsh(n[r]) & m;
        while (t[j]) j = (j + 1) & m;
        t[j] = r;
      }
      table.swap(t); tmask = m;
    }
    return id;
  }
  Ref cst(u128 k, unsigned w) { return intern(Expr{E_CONST, (uint8_t)w, 0, 0, 0, 0, k & mask128(w)}); }
  Ref var(unsigned w) { vars.push_back({w}); return intern(Expr{E_VAR, (uint8_t)w, 0, 0, 0, 0, (u128)(vars.size() - 1)}); }
  bool isc(Ref r) const { return n[r].op == E_CONST; }
  u128 kv(Ref r) const { return n[r].k; }
  unsigned w(Ref r) const { return n[r].w; }

  static double d_of(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
  static float f_of(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
  static u128 of_d(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
  static u128 of_f(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

  // apply an operator to concrete values. w = result width, aw = width of operand a
  static u128 apply(uint8_t op, unsigned w, unsigned aw, unsigned bw, u128 a, u128 b, u128 c, u128 k) {
    u128 m = mask128(w);
    switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m;
    case E_UREM: return b ? (a % b) & m : a;
    case E_SDIV: { __int128 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case E_SREM: { __int128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case E_ASHR: { __int128 x = sx(a, w); return b >= w ? (x < 0 ? m : 0) : ((u128)(x >> (unsigned)b)) & m; }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sx(a, aw) < sx(b, aw);
    case E_SLE: return sx(a, aw) <= sx(b, aw);
    case E_ITE: return a ? b : c;
    case E_CONCAT: return (a << bw) | b;
    case E_EXTRACT: return (a >> (unsigned)k) & m;
    case E_ZEXT: return a;
    case E_SEXT: return (u128)sx(a, aw) & m;
    case E_UMULO: { if (aw <= 64) return ((a * b) >> aw) != 0; u128 r; return __builtin_mul_overflow(a, b, &r); }
    case E_SMULO: { __int128 r; if (__builtin_mul_overflow(sx(a, aw), sx(b, aw), &r)) return 1; return sx((u128)r & mask128(aw), aw) != r; }
    case E_FADD: return w == 64 ? of_d(d_of(a) + d_of(b)) : of_f(f_of(a) + f_of(b));
    case E_FSUB: return w == 64 ? of_d(d_of(a) - d_of(b)) : of_f(f_of(a) - f_of(b));
    case E_FMUL: return w == 64 ? of_d(d_of(a) * d_of(b)) : of_f(f_of(a) * f_of(b));
    case E_FDIV: return w == 64 ? of_d(d_of(a) / d_of(b)) : of_f(f_of(a) / f_of(b));
    case E_FOEQ: return aw == 64 ? d_of(a) == d_of(b) : f_of(a) == f_of(b);
    case E_FOLT: return aw == 64 ? d_of(a) < d_of(b) : f_of(a) < f_of(b);
    case E_FOLE: return aw == 64 ? d_of(a) <= d_of(b) : f_of(a) <= f_of(b);
    case E_FUNO: return aw == 64 ? (std::isnan(d_of(a)) || std::isnan(d_of(b))) : (std::isnan(f_of(a)) || std::isnan(f_of(b)));
    case E_FEXT: return of_d((double)f_of(a));
    case E_FTRUNC: return of_f((float)d_of(a));
    case E_SITOFP: return w == 64 ? of_d((double)sx(a, aw)) : of_f((float)sx(a, aw));
    case E_UITOFP: return w == 64 ? of_d((double)a) : of_f((float)a);
    case E_FPTOSI: { double d = aw == 64 ? d_of(a) : f_of(a); if (!(std::fabs(d) < 9.3e18)) return 0; return (u128)(__int128)d & m; }
    case E_FPTOUI: { double d = aw == 64 ? d_of(a) : f_of(a); if (!(d > -1.0 && d < 1.9e19)) return 0; return (u128)d & m; }
    case E_FRND: {
      double d = aw == 64 ? d_of(a) : f_of(a);
      switch ((int)k) { case 0: d = std::floor(d); break; case 1: d = std::ceil(d); break; case 2: d = std::trunc(d); break; case 3: d = std::round(d); break; default: d = std::nearbyint(d); }
      return aw == 64 ? of_d(d) : of_f((float)d);
    }
    }
    fprintf(stderr, "apply: op %d\n", op); abort();
  }

  Ref raw(uint8_t op, unsigned w, Ref a, Ref b = 0, Ref c = 0, u128 k = 0) { return intern(Expr{op, (uint8_t)w, a, b, c, 0, k}); }

  // upper bound of the unsigned value
  std::vector<uint64_t> hiMemo;
  std::unordered_map<Ref, uint64_t> learned; // bounds implied by the path condition (which only ever grows)
  void learnHi(Ref r, u128 v) { if (n[r].w <= 64 && n[r].op != E_CONST && v < hi(r)) { learned[r] = (uint64_t)v; std::fill(hiMemo.begin(), hiMemo.end(), 0); } }
  void learn(Ref c, bool pos = true) {
    const Expr e = n[c];
    if (e.op == E_XOR && e.w == 1 && isc(e.b)) { if (kv(e.b)) learn(e.a, !pos); return; }
    if (e.op == E_AND && e.w == 1 && pos) { learn(e.a); learn(e.b); learn(e.a); return; }
    if (e.op == E_OR && e.w == 1 && !pos) { learn(e.a, false); learn(e.b, false); learn(e.a, false); return; }
    if (e.op == E_EQ && pos && isc(e.b)) { learnHi(e.a, kv(e.b)); return; }
    bool sg = e.op == E_SLT || e.op == E_SLE;
    if (!sg && e.op != E_ULT && e.op != E_ULE) return;
    bool strict = e.op == E_ULT || e.op == E_SLT;
    unsigned w = n[e.a].w; u128 half = (u128)1 << (w - 1);
    // x < k, x <= k, !(k < x), !(k <= x); and for signed terms lower bounds that exclude negative values
    if (pos && isc(e.b)) {
      u128 k = kv(e.b);
      if (sg && (k >= half || hi(e.a) >= half)) return;
      if (strict && k == 0) return;
      learnHi(e.a, strict ? k - 1 : k);
    } else if (!pos && isc(e.a)) {
      u128 k = kv(e.a);
      if (sg && (k >= half || hi(e.b) >= half)) return;
      if (!strict && k == 0) return;
      learnHi(e.b, strict ? k : k - 1);
    } else if (sg && pos && isc(e.a)) { // k < x or k <= x with k >= -1 (or 0)
      __int128 k = sx(kv(e.a), w); if (strict ? k >= -1 : k >= 0) learnHi(e.b, half - 1);
    } else if (sg && !pos && isc(e.b)) { // !(x < k), !(x <= k)
      __int128 k = sx(kv(e.b), w); if (strict ? k >= 0 : k >= -1) learnHi(e.a, half - 1);
    }
  }
  u128 hi(Ref r) {
    const Expr e = n[r];
    if (e.op == E_CONST) return e.k;
    u128 m = mask128(e.w);
    if (e.w > 64) return m;
    if (hiMemo.size() <= r) hiMemo.resize(n.size() + n.size() / 2 + 16, 0);
    if (hiMemo[r]) return hiMemo[r] - 1 < m ? hiMemo[r] - 1 : m;
    u128 v = m;
    switch (e.op) {
    case E_ADD: { u128 s = hi(e.a) + hi(e.b); if (s <= m) v = s; break; }
    case E_MUL: { u128 s = hi(e.a) * hi(e.b); if (s <= m) v = s; break; }
    case E_UDIV: v = isc(e.b) && kv(e.b) ? hi(e.a) / kv(e.b) : m; break;
    case E_UREM: v = isc(e.b) && kv(e.b) ? std::min(hi(e.a), kv(e.b) - 1) : m; break;
    case E_AND: v = std::min(hi(e.a), hi(e.b)); break;
    case E_OR: case E_XOR: v = mask128(need(std::max(hi(e.a), hi(e.b)))); break;
    case E_LSHR: v = isc(e.b) ? (kv(e.b) >= e.w ? 0 : hi(e.a) >> (unsigned)kv(e.b)) : hi(e.a); break;
    case E_SHL: if (isc(e.b) && kv(e.b) < e.w) { u128 s = hi(e.a) << (unsigned)kv(e.b); if (s <= m && (s >> (unsigned)kv(e.b)) == hi(e.a)) v = s; } break;
    case E_ITE: v = std::max(hi(e.b), hi(e.c)); break;
    case E_ZEXT: v = hi(e.a); break;
    case E_EXTRACT: if (e.k == 0 && n[e.a].w <= 64) v = std::min(m, hi(e.a)); break;
    case E_CONCAT: v = (hi(e.a) << n[e.b].w) | mask128(n[e.b].w); break;
    case E_TABLE: { uint64_t x = 0; for (auto y : tables[(size_t)e.k].vals) x = std::max(x, y); v = x; break; }
    }
    if (!learned.empty()) { auto it = learned.find(r); if (it != learned.end() && it->second < v) v = it->second; }
    if (v < ~(uint64_t)0) { if (hiMemo.size() <= r) hiMemo.resize(n.size() + 16, 0); hiMemo[r] = (uint64_t)v + 1; }
    return v;
  }
  static unsigned need(u128 v) { unsigned k = 0; while (v) { k++; v >>= 1; } return k ? k : 1; }

  Ref mk(uint8_t op, unsigned w, Ref a, Ref b = 0, Ref c = 0, u128 k = 0) {
    Expr A = n[a], B = b ? n[b] : Expr{}, C = c ? n[c] : Expr{};
    bool ac = A.op == E_CONST, bc = b && B.op == E_CONST, cc = c && C.op == E_CONST;
    if (op != E_TABLE && ac && (!b || bc) && (!c || cc)) return cst(apply(op, w, A.w, b ? B.w : 0, A.k, b ? B.k : 0, c ? C.k : 0, k), w);
    u128 m = mask128(w);
    switch (op) {
    case E_ADD:
      if (ac) { std::swap(a, b); std::swap(A, B); std::swap(ac, bc); }
      if (bc && B.k == 0) return a;
      if (bc && A.op == E_ADD && isc(A.b)) return mk(E_ADD, w, A.a, cst(kv(A.b) + B.k, w));
      if (A.op == E_ITE && bc && isc(A.b) && isc(A.c)) return mk(E_ITE, w, A.a, cst(kv(A.b) + B.k, w), cst(kv(A.c) + B.k, w));
      if (!bc && a > b) std::swap(a, b);
      break;
    case E_SUB:
      if (bc) return mk(E_ADD, w, a, cst(-B.k, w));
      if (a == b) return cst(0, w);
      break;
    case E_MUL:
      if (ac) { std::swap(a, b); std::swap(A, B); std::swap(ac, bc); }
      if (bc && B.k == 0) return b;
      if (bc && B.k == 1) return a;
      if (bc && w <= 64 && hi(a) * B.k <= m && need(hi(a) * B.k) < w) { // narrow the circuit
        unsigned nw = need(hi(a) * B.k);
        if (need(hi(a)) < w) return mk(E_ZEXT, w, mk(E_MUL, nw, mk(E_EXTRACT, nw, a, 0, 0, 0), cst(B.k, nw)));
      }
      if (bc && (B.k & (B.k - 1)) == 0) { unsigned s = 0; while (!((B.k >> s) & 1)) s++; return mk(E_SHL, w, a, cst(s, w)); }
      break;
    case E_UDIV: case E_UREM:
      if (bc && B.k == 1) return op == E_UDIV ? a : cst(0, w);
      if (bc && B.k) {
        if (hi(a) < B.k) return op == E_UDIV ? cst(0, w) : a;
        unsigned nw = need(std::max(hi(a), B.k)); // narrow the circuit
        if (nw < w) return mk(E_ZEXT, w, mk(op, nw, mk(E_EXTRACT, nw, a, 0, 0, 0), cst(B.k, nw)));
      }
      break;
    case E_AND:
      if (ac) { std::swap(a, b); std::swap(A, B); std::swap(ac, bc); }
      if (bc && B.k == 0) return b;
      if (bc && B.k == m) return a;
      if (a == b) return a;
      if (bc && A.op == E_ZEXT) {
        unsigned iw = n[A.a].w;
        if ((B.k & mask128(iw)) == mask128(iw)) return a;
        return mk(E_ZEXT, w, mk(E_AND, iw, A.a, cst(B.k, iw)));
      }
      if (bc && A.op == E_AND && isc(A.b)) return mk(E_AND, w, A.a, cst(kv(A.b) & B.k, w));
      if (A.op == E_ITE && bc && isc(A.b) && isc(A.c)) return mk(E_ITE, w, A.a, cst(kv(A.b) & B.k, w), cst(kv(A.c) & B.k, w));
      if (w == 1 && ((A.op == E_XOR && A.a == b && isc(A.b)) || (B.op == E_XOR && B.a == a && B.b && isc(B.b)))) return cst(0, 1);
      if (!bc && a > b) std::swap(a, b);
      break;
    case E_OR:
      if (ac) { std::swap(a, b); std::swap(A, B); std::swap(ac, bc); }
      if (bc && B.k == 0) return a;
      if (bc && B.k == m) return b;
      if (a == b) return a;
      // (zext x) << k | zext y  => concat
      if (!bc) {
        Expr X = A, Y = B; Ref x = a, y = b;
        for (int t = 0; t < 2; t++) {
          if (X.op == E_SHL && isc(X.b) && Y.op == E_ZEXT) {
            unsigned s = (unsigned)kv(X.b), yw = n[Y.a].w;
            Expr Z = n[X.a];
            if (Z.op == E_ZEXT && yw == s && n[Z.a].w + s <= w) {
              Ref cat = mk(E_CONCAT, n[Z.a].w + s, Z.a, Y.a);
              return n[cat].w == w ? cat : mk(E_ZEXT, w, cat);
            }
          }
          std::swap(X, Y); std::swap(x, y);
        }
      }
      if (w == 1 && ((A.op == E_XOR && A.a == b && isc(A.b)) || (B.op == E_XOR && B.a == a && B.b && isc(B.b)))) return cst(1, 1);
      if (!bc && a > b) std::swap(a, b);
      break;
    case E_XOR:
      if (ac) { std::swap(a, b); std::swap(A, B); std::swap(ac, bc); }
      if (bc && B.k == 0) return a;
      if (a == b) return cst(0, w);
      if (bc && A.op == E_XOR && isc(A.b)) return mk(E_XOR, w, A.a, cst(kv(A.b) ^ B.k, w));
      if (A.op == E_ITE && bc && isc(A.b) && isc(A.c)) return mk(E_ITE, w, A.a, cst(kv(A.b) ^ B.k, w), cst(kv(A.c) ^ B.k, w));
      if (!bc && a > b) std::swap(a, b);
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (bc && B.k == 0) return a;
      if (bc && op != E_ASHR && B.k >= w) return cst(0, w);
      if (op == E_LSHR && bc && A.op == E_ZEXT) {
        unsigned iw = n[A.a].w;
        if (B.k >= iw) return cst(0, w);
        return mk(E_ZEXT, w, mk(E_LSHR, iw, A.a, cst(B.k, iw)));
      }
      break;
    case E_EQ:
      if (a == b) return cst(1, 1);
      if (ac) { std::swap(a, b); std::swap(A, B); std::swap(ac, bc); }
      if (bc) {
        if (A.w == 1) return B.k ? a : mk(E_XOR, 1, a, cst(1, 1));
        if (A.w <= 64 && B.k > hi(a)) return cst(0, 1);
        if (A.op == E_ZEXT) {
          unsigned iw = n[A.a].w;
          if (B.k > mask128(iw)) return cst(0, 1);
          return mk(E_EQ, 1, A.a, cst(B.k, iw));
        }
        if (A.op == E_ITE && isc(A.b) && isc(A.c)) {
          bool tb = kv(A.b) == B.k, fb = kv(A.c) == B.k;
          if (tb && fb) return cst(1, 1);
          if (!tb && !fb) return cst(0, 1);
          return tb ? A.a : mk(E_XOR, 1, A.a, cst(1, 1));
        }
        if (A.op == E_ITE && (isc(A.b) || isc(A.c))) {
          return mk(E_ITE, 1, A.a, mk(E_EQ, 1, A.b, b), mk(E_EQ, 1, A.c, b));
        }
        if (A.op == E_ADD && isc(A.b)) return mk(E_EQ, 1, A.a, cst(B.k - kv(A.b), A.w));
        if (A.op == E_XOR && isc(A.b)) return mk(E_EQ, 1, A.a, cst(B.k ^ kv(A.b), A.w));
        if (A.op == E_CONCAT) {
          unsigned lw = n[A.b].w;
          return mk(E_AND, 1, mk(E_EQ, 1, A.a, cst(B.k >> lw, n[A.a].w)), mk(E_EQ, 1, A.b, cst(B.k, lw)));
        }
      } else if (A.op == E_ZEXT && B.op == E_ZEXT && n[A.a].w == n[B.a].w) return mk(E_EQ, 1, A.a, B.a);
      else if (a > b) std::swap(a, b);
      break;
    case E_ULT: case E_ULE:
      if (a == b) return cst(op == E_ULE, 1);
      if (bc && A.w <= 64) { u128 h = hi(a); if (op == E_ULT ? h < B.k : h <= B.k) return cst(1, 1); }
      if (ac && B.w <= 64) { u128 h = hi(b); if (op == E_ULT ? h <= A.k : h < A.k) return cst(0, 1); }
      if (A.op == E_ZEXT && bc) {
        unsigned iw = n[A.a].w;
        if (B.k > mask128(iw)) return cst(1, 1);
        return mk(op, 1, A.a, cst(B.k, iw));
      }
      if (B.op == E_ZEXT && ac) {
        unsigned iw = n[B.a].w;
        if (A.k > mask128(iw)) return cst(0, 1);
        return mk(op, 1, cst(A.k, iw), B.a);
      }
      if (A.op == E_ZEXT && B.op == E_ZEXT && n[A.a].w == n[B.a].w) return mk(op, 1, A.a, B.a);
      if (op == E_ULT && bc && B.k == 0) return cst(0, 1);
      if (op == E_ULE && ac && A.k == 0) return cst(1, 1);
      if (op == E_ULE && bc && B.k == mask128(A.w)) return cst(1, 1);
      if (bc && A.op == E_ITE && isc(A.b) && isc(A.c)) return mk(E_ITE, 1, A.a, cst(apply(op, 1, A.w, A.w, kv(A.b), B.k, 0, 0), 1), cst(apply(op, 1, A.w, A.w, kv(A.c), B.k, 0, 0), 1));
      break;
    case E_SLT: case E_SLE:
      if (a == b) return cst(op == E_SLE, 1);
      if (A.w <= 64) { u128 h = (u128)1 << (A.w - 1); if (hi(a) < h && hi(b) < h) return mk(op == E_SLT ? E_ULT : E_ULE, 1, a, b); }
      if (A.op == E_ZEXT && bc) {
        unsigned iw = n[A.a].w;
        __int128 v = sx(B.k, A.w);
        if (v < 0) return cst(0, 1);
        if ((u128)v > mask128(iw)) return cst(1, 1);
        return mk(op == E_SLT ? E_ULT : E_ULE, 1, A.a, cst((u128)v, iw));
      }
      if (B.op == E_ZEXT && ac) {
        unsigned iw = n[B.a].w;
        __int128 v = sx(A.k, B.w);
        if (v < 0) return cst(1, 1);
        if ((u128)v > mask128(iw)) return cst(0, 1);
        return mk(op == E_SLT ? E_ULT : E_ULE, 1, cst((u128)v, iw), B.a);
      }
      break;
    case E_ITE:
      if (ac) return A.k ? b : c;
      if (b == c) return b;
      if (w == 1 && bc && cc) return B.k ? a : mk(E_XOR, 1, a, cst(1, 1));
      if (w == 1 && bc) return B.k ? mk(E_OR, 1, a, c) : mk(E_AND, 1, mk(E_XOR, 1, a, cst(1, 1)), c);
      if (w == 1 && cc) return C.k ? mk(E_OR, 1, mk(E_XOR, 1, a, cst(1, 1)), b) : mk(E_AND, 1, a, b);
      if (A.op == E_XOR && isc(A.b) && A.w == 1) return mk(E_ITE, w, A.a, c, b);
      if (B.op == E_ITE && B.a == a) return mk(E_ITE, w, a, B.b, c);
      if (C.op == E_ITE && C.a == a) return mk(E_ITE, w, a, b, C.c);
      break;
    case E_CONCAT:
      if (ac && A.k == 0) return mk(E_ZEXT, w, b);
      if (A.op == E_ITE && B.op == E_ITE && A.a == B.a && ((isc(A.b) && isc(B.b)) || (isc(A.c) && isc(B.c)))) return mk(E_ITE, w, A.a, mk(E_CONCAT, w, A.b, B.b), mk(E_CONCAT, w, A.c, B.c));
      if (A.op == E_ITE && bc && (isc(A.b) || isc(A.c))) return mk(E_ITE, w, A.a, mk(E_CONCAT, w, A.b, b), mk(E_CONCAT, w, A.c, b));
      if (B.op == E_ITE && ac && (isc(B.b) || isc(B.c))) return mk(E_ITE, w, B.a, mk(E_CONCAT, w, a, B.b), mk(E_CONCAT, w, a, B.c));
      if (A.op == E_EXTRACT && B.op == E_EXTRACT && A.a == B.a && A.k == B.k + B.w) return mk(E_EXTRACT, w, A.a, 0, 0, B.k);
      if (A.op == E_EXTRACT && A.k == B.w && A.a == b) return mk(E_EXTRACT, w, A.a, 0, 0, 0);
      if (B.op == E_CONCAT) { // normalise to left-nested so that neighbouring extracts meet
        return mk(E_CONCAT, w, mk(E_CONCAT, A.w + n[B.a].w, a, B.a), B.b);
      }
      if (A.op == E_CONCAT && B.op == E_EXTRACT) {
        Expr R = n[A.b];
        if (R.op == E_EXTRACT && R.a == B.a && R.k == B.k + B.w) return mk(E_CONCAT, w, A.a, mk(E_EXTRACT, R.w + B.w, B.a, 0, 0, B.k));
      }
      if (A.op == E_ZEXT && B.op == E_EXTRACT) {
        Expr R = n[A.a];
        if (R.op == E_EXTRACT && R.a == B.a && R.k == B.k + B.w) return mk(E_ZEXT, w, mk(E_EXTRACT, R.w + B.w, B.a, 0, 0, B.k));
      }
      break;
    case E_EXTRACT:
      if (w == A.w) return a;
      if (A.op == E_EXTRACT) return mk(E_EXTRACT, w, A.a, 0, 0, A.k + k);
      if (A.op == E_ZEXT || A.op == E_SEXT) {
        unsigned iw = n[A.a].w;
        if ((unsigned)k + w <= iw) return mk(E_EXTRACT, w, A.a, 0, 0, k);
        if (A.op == E_ZEXT) {
          if (k >= iw) return cst(0, w);
          return mk(E_ZEXT, w, mk(E_EXTRACT, iw - (unsigned)k, A.a, 0, 0, k));
        }
        if (k == 0) return mk(E_SEXT, w, A.a);
      }
      if (A.op == E_CONCAT) {
        unsigned lw = n[A.b].w;
        if ((unsigned)k + w <= lw) return mk(E_EXTRACT, w, A.b, 0, 0, k);
        if (k >= lw) return mk(E_EXTRACT, w, A.a, 0, 0, k - lw);
        return mk(E_CONCAT, w, mk(E_EXTRACT, w - (lw - (unsigned)k), A.a, 0, 0, 0), mk(E_EXTRACT, lw - (unsigned)k, A.b, 0, 0, k));
      }
      if (A.op == E_ITE && (isc(A.b) || isc(A.c))) return mk(E_ITE, w, A.a, mk(E_EXTRACT, w, A.b, 0, 0, k), mk(E_EXTRACT, w, A.c, 0, 0, k));
      if (k == 0 && (A.op == E_AND || A.op == E_OR || A.op == E_XOR || A.op == E_ADD || A.op == E_SUB || A.op == E_MUL))
        return mk(A.op, w, mk(E_EXTRACT, w, A.a, 0, 0, 0), mk(E_EXTRACT, w, A.b, 0, 0, 0));
      if (A.op == E_AND || A.op == E_OR || A.op == E_XOR)
        return mk(A.op, w, mk(E_EXTRACT, w, A.a, 0, 0, k), mk(E_EXTRACT, w, A.b, 0, 0, k));
      break;
    case E_ZEXT:
      if (w == A.w) return a;
      if (A.op == E_EXTRACT && A.k == 0 && n[A.a].w == w && w <= 64 && hi(A.a) <= mask128(A.w)) return A.a;
      if (A.op == E_ZEXT) return mk(E_ZEXT, w, A.a);
      if (A.op == E_ITE && isc(A.b) && isc(A.c)) return mk(E_ITE, w, A.a, cst(kv(A.b), w), cst(kv(A.c), w));
      break;
    case E_SEXT:
      if (w == A.w) return a;
      if (A.w <= 64 && hi(a) < ((u128)1 << (A.w - 1))) return mk(E_ZEXT, w, a);
      if (A.op == E_ZEXT) return mk(E_ZEXT, w, A.a);
      if (A.op == E_SEXT) return mk(E_SEXT, w, A.a);
      break;
    }
    return raw(op, w, a, b, c, k);
  }
  Ref lnot(Ref a) { return mk(E_XOR, 1, a, cst(1, 1)); }

  void newStamp() {
    if (ev.size() < n.size()) { ev.resize(n.size() + n.size() / 2); evs.resize(ev.size(), 0); }
    if (++stamp == 0) { std::fill(evs.begin(), evs.end(), 0); stamp = 1; }
  }
  // evaluate under model (values per var id); caller calls newStamp() when the model changes
  u128 evalRec(Ref r, const std::vector<uint64_t> &model) {
    const Expr &e = n[r];
    if (e.op == E_CONST) return e.k;
    if (e.op == E_VAR) return model[(size_t)e.k];
    if (evs[r] == stamp) return ev[r];
    u128 v;
    if (e.op == E_ITE) {
      v = evalRec(e.a, model) ? evalRec(e.b, model) : evalRec(e.c, model);
    } else if (e.op == E_TABLE) {
      uint64_t a = (uint64_t)evalRec(e.a, model);
      const Table &t = tables[(size_t)e.k];
      size_t i = std::lower_bound(t.keys.begin(), t.keys.end(), a) - t.keys.begin();
      v = i < t.keys.size() && t.keys[i] == a ? t.vals[i] : t.vals.back();
    } else {
      u128 a = evalRec(e.a, model), b = e.b ? evalRec(e.b, model) : 0;
      v = apply(e.op, e.w, n[e.a].w, e.b ? n[e.b].w : 0, a, b, 0, e.k);
    }
    evs[r] = stamp; ev[r] = v;
    return v;
  }
  u128 eval(Ref r, const std::vector<uint64_t> &model) { newStamp(); return evalRec(r, model); }

  // bit 0: multiplication or division, bit 1: floating point
  std::vector<uint8_t> kinds;
  uint8_t kind(Ref r) {
    if (kinds.size() <= r) kinds.resize(n.size() + n.size() / 2 + 16, 255);
    if (kinds[r] != 255) return kinds[r];
    const Expr e = n[r];
    uint8_t k = 0;
    if (e.op >= E_FADD && e.op <= E_FRND) k |= 2;
    if (e.op >= E_MUL && e.op <= E_SREM) k |= 1;
    for (Ref x : {e.a, e.b, e.c}) if (x) k |= kind(x);
    return kinds[r] = k;
  }
  const std::vector<uint32_t> &support(Ref r) {
    auto it = supports.find(r);
    if (it != supports.end()) return it->second;
    std::vector<uint32_t> out;
    const Expr e = n[r];
    if (e.sup == SUP_NONE) {}
    else if (e.sup != SUP_MULTI) out.push_back(e.sup - 1);
    else {
      for (Ref x : {e.a, e.b, e.c}) if (x) { const auto &s = support(x); out.insert(out.end(), s.begin(), s.end()); }
      std::sort(out.begin(), out.end());
      out.erase(std::unique(out.begin(), out.end()), out.end());
    }
    return supports[r] = out;
  }
};
