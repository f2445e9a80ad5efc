// Bit-vector expression DAG (hash-consed, per worker) and its translation to Z3.
#pragma once
#include <z3++.h>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;
typedef unsigned __int128 u128;

static const int MAXVARS = 256;

struct VarMask {
  u64 w[4] = {0, 0, 0, 0};
  void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  bool test(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  bool inter(const VarMask &o) const {
    return (w[0] & o.w[0]) | (w[1] & o.w[1]) | (w[2] & o.w[2]) | (w[3] & o.w[3]);
  }
  void merge(const VarMask &o) { for (int i = 0; i < 4; i++) w[i] |= o.w[i]; }
  bool subset(const VarMask &o) const {
    for (int i = 0; i < 4; i++) if (w[i] & ~o.w[i]) return false;
    return true;
  }
  bool operator==(const VarMask &o) const { return !memcmp(w, o.w, sizeof w); }
  unsigned count() const { unsigned r = 0; for (u64 x : w) r += __builtin_popcountll(x); return r; }
  /// position of a variable among those of this set
  unsigned rank(unsigned i) const {
    unsigned r = 0;
    for (unsigned j = 0; j < (i >> 6); j++) r += __builtin_popcountll(w[j]);
    return r + __builtin_popcountll(w[i >> 6] & ((1ull << (i & 63)) - 1));
  }
  template <class F> void each(F f) const { for (unsigned j = 0; j < 4; j++) for (u64 x = w[j]; x; x &= x - 1) f(j * 64 + __builtin_ctzll(x)); }
};

/// 128 bit hash accumulator
struct Mix {
  u64 a = 0x243F6A8885A308D3ull, b = 0x13198A2E03707344ull;
  void add(u64 v) {
    a ^= v + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 33;
    b += v ^ (a << 1); b *= 0xc4ceb9fe1a85ec53ull; b ^= b >> 29; b += a;
  }
  u128 get() const { return ((u128)a << 64) | b; }
};

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_UREM, E_SDIV, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT };

struct Expr {
  EOp op; u8 w; // width 1..128
  u32 id;
  Expr *a, *b, *c;
  u128 k; // constant / var index / extract low bit
  VarMask vars;
  u128 lo, hi; // unsigned bounds
  u128 canon; // structure, with the variables replaced by their rank in `vars`
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline __int128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  return (__int128)((v ^ s)) - (__int128)s;
}

// Concrete semantics of one operation (shared by folding, evaluation and the interpreter's slow path).
static inline u128 evalop(EOp op, unsigned w, unsigned aw, u128 a, u128 b) {
  u128 m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? (a / b) & m : m;
    case E_UREM: return b ? (a % b) & m : a;
    case E_SDIV: { __int128 x = sextw(a, aw), y = sextw(b, aw); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case E_SREM: { __int128 x = sextw(a, aw), y = sextw(b, aw); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case E_ASHR: { __int128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextw(a, aw) < sextw(b, aw);
    case E_SLE: return sextw(a, aw) <= sextw(b, aw);
    default: return 0;
  }
}

struct ExprCtx {
  std::deque<Expr> arena;
  struct Key { EOp op; u8 w; Expr *a, *b, *c; u128 k; };
  std::vector<Expr *> table; // open addressing
  size_t count = 0;
  std::vector<Expr *> vars;
  ExprCtx() : table(1 << 16, nullptr) {}

  static u64 hash(EOp op, unsigned w, Expr *a, Expr *b, Expr *c, u128 k) {
    u64 h = (u64)op * 0x9E3779B97F4A7C15ull + w;
    auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
    mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix((u64)k); mix((u64)(k >> 64));
    return h;
  }
  Expr *mk(EOp op, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u128 k = 0) {
    u64 h = hash(op, w, a, b, c, k);
    size_t m = table.size() - 1, i = h & m;
    while (table[i]) {
      Expr *e = table[i];
      if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->k == k) return e;
      i = (i + 1) & m;
    }
    arena.emplace_back();
    Expr *e = &arena.back();
    e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->k = k; e->id = (u32)count;
    if (a) e->vars.merge(a->vars);
    if (b) e->vars.merge(b->vars);
    if (c) e->vars.merge(c->vars);
    if (op == E_VAR) e->vars.set((unsigned)k);
    Mix mx; mx.add((u64)op << 8 | w); if (op != E_VAR) { mx.add((u64)k); mx.add((u64)(k >> 64)); }
    for (Expr *x : {a, b, c}) if (x) {
      mx.add((u64)x->canon); mx.add((u64)(x->canon >> 64));
      if (x->vars == e->vars) mx.add(~0ull); else x->vars.each([&](unsigned v) { mx.add(e->vars.rank(v)); });
    }
    e->canon = mx.get();
    bounds(e);
    table[i] = e;
    if (++count * 2 > table.size()) {
      std::vector<Expr *> nt(table.size() * 2, nullptr);
      for (auto &x : arena) {
        u64 hh = hash(x.op, x.w, x.a, x.b, x.c, x.k);
        size_t mm = nt.size() - 1, j = hh & mm;
        while (nt[j]) j = (j + 1) & mm;
        nt[j] = &x;
      }
      table.swap(nt);
    }
    return e;
  }
  static void bounds(Expr *e) {
    u128 m = maskw(e->w); e->lo = 0; e->hi = m; Expr *a = e->a, *b = e->b;
    switch (e->op) {
      case E_CONST: e->lo = e->hi = e->k; break;
      case E_ADD: if (e->w < 128 && a->hi + b->hi <= m) { e->lo = a->lo + b->lo; e->hi = a->hi + b->hi; } else if (e->w < 128 && a->lo + b->lo > m) { e->lo = (a->lo + b->lo) & m; e->hi = (a->hi + b->hi) & m; } break;
      case E_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
      case E_MUL: if (e->w <= 64 && a->hi * b->hi <= m) { e->lo = a->lo * b->lo; e->hi = a->hi * b->hi; } break;
      case E_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
      case E_UREM: if (b->lo > 0) e->hi = std::min(a->hi, b->hi - 1); break;
      case E_AND: e->hi = std::min(a->hi, b->hi); break;
      case E_OR: e->lo = std::max(a->lo, b->lo); { unsigned n = 0; u128 h = a->hi | b->hi; while (n < 128 && (h >> n)) n++; e->hi = maskw(n); if (!h) e->hi = 0; } break;
      case E_ITE: e->lo = std::min(b->lo, e->c->lo); e->hi = std::max(b->hi, e->c->hi); break;
      case E_ZEXT: e->lo = a->lo; e->hi = a->hi; break;
      case E_EXTRACT: if ((a->hi >> (unsigned)e->k) <= m) { e->lo = a->lo >> (unsigned)e->k; e->hi = a->hi >> (unsigned)e->k; } break;
      case E_CONCAT: e->lo = a->lo << b->w | b->lo; e->hi = a->hi << b->w | b->hi; break;
      default: break;
    }
  }
  static void terms(Expr *e, std::vector<Expr *> &out, u128 &k) {
    if (e->op == E_CONST) k += e->k;
    else if (e->op == E_ADD) { terms(e->a, out, k); terms(e->b, out, k); }
    else out.push_back(e);
  }
  static unsigned addends(Expr *e) { return e->op == E_ADD ? addends(e->a) + addends(e->b) : 1; }
  Expr *cst(u128 v, unsigned w) { return mk(E_CONST, w, 0, 0, 0, v & maskw(w)); }
  Expr *var(unsigned i) {
    while (vars.size() <= i) vars.push_back(mk(E_VAR, 8, 0, 0, 0, vars.size()));
    return vars[i];
  }
  static bool isc(Expr *e) { return e->op == E_CONST; }
  static bool isc(Expr *e, u128 v) { return e->op == E_CONST && e->k == v; }

  Expr *not1(Expr *e) { return bin(E_XOR, e, cst(1, 1)); }
  Expr *ite(Expr *c, Expr *t, Expr *f) {
    if (isc(c)) return c->k ? t : f;
    if (t == f) return t;
    if (t->w == 1) {
      if (isc(t, 1) && isc(f, 0)) return c;
      if (isc(t, 0) && isc(f, 1)) return not1(c);
      if (isc(t, 1)) return bin(E_OR, c, f);
      if (isc(t, 0)) return bin(E_AND, not1(c), f);
      if (isc(f, 0)) return bin(E_AND, c, t);
      if (isc(f, 1)) return bin(E_OR, not1(c), t);
    }
    return mk(E_ITE, t->w, c, t, f);
  }
  Expr *zext(Expr *e, unsigned w) {
    if (e->w == w) return e;
    if (isc(e)) return cst(e->k, w);
    if (e->op == E_ZEXT) return zext(e->a, w);
    return mk(E_ZEXT, w, e);
  }
  Expr *sext(Expr *e, unsigned w) {
    if (e->w == w) return e;
    if (isc(e)) return cst((u128)sextw(e->k, e->w), w);
    if (e->op == E_ZEXT) return zext(e->a, w);
    return mk(E_SEXT, w, e);
  }
  Expr *extract(Expr *e, unsigned lo, unsigned w) {
    if (lo == 0 && e->w == w) return e;
    if (isc(e)) return cst(e->k >> lo, w);
    switch (e->op) {
      case E_EXTRACT: return extract(e->a, lo + (unsigned)e->k, w);
      case E_CONCAT: // a:high b:low
        if (lo + w <= e->b->w) return extract(e->b, lo, w);
        if (lo >= e->b->w) return extract(e->a, lo - e->b->w, w);
        break;
      case E_ZEXT:
        if (lo >= e->a->w) return cst(0, w);
        if (lo + w <= e->a->w) return extract(e->a, lo, w);
        return zext(extract(e->a, lo, e->a->w - lo), w);
      case E_SEXT: if (lo + w <= e->a->w) return extract(e->a, lo, w); break;
      case E_AND: case E_OR: case E_XOR:
        return bin(e->op, extract(e->a, lo, w), extract(e->b, lo, w));
      case E_ADD: case E_SUB: case E_MUL:
        if (lo == 0) return bin(e->op, extract(e->a, 0, w), extract(e->b, 0, w));
        break;
      case E_ITE:
        if (isc(e->b) || isc(e->c)) return ite(e->a, extract(e->b, lo, w), extract(e->c, lo, w));
        break;
      case E_LSHR:
        if (isc(e->b) && lo + e->b->k + w <= e->w) return extract(e->a, lo + (unsigned)e->b->k, w);
        break;
      case E_SHL:
        if (isc(e->b)) {
          unsigned s = (unsigned)e->b->k;
          if (lo >= s) return extract(e->a, lo - s, w);
          if (lo + w <= s) return cst(0, w);
        }
        break;
      default: break;
    }
    return mk(E_EXTRACT, w, e, 0, 0, lo);
  }
  Expr *concat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (isc(hi) && isc(lo)) return cst((hi->k << lo->w) | lo->k, w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w)
      return extract(hi->a, (unsigned)lo->k, w);
    if (lo->op == E_EXTRACT && hi->op == E_EXTRACT && 0) return nullptr;
    if (isc(hi, 0)) return zext(lo, w);
    // low part whole zext'ed source: concat(extract(x,k,..), x-low)
    if (hi->op == E_EXTRACT && hi->a == lo && hi->k == lo->w) return lo;
    // concat(extract(x, n, m), concat(extract(x,0,n)...)) handled by pairing from the low end
    if (lo->op == E_CONCAT && lo->a->op == E_EXTRACT && hi->op == E_EXTRACT && hi->a == lo->a->a && hi->k == lo->a->k + lo->a->w)
      return concat(extract(hi->a, (unsigned)lo->a->k, hi->w + lo->a->w), lo->b);
    return mk(E_CONCAT, w, hi, lo);
  }
  Expr *bin(EOp op, Expr *a, Expr *b) {
    unsigned w = (op >= E_EQ && op <= E_SLE) ? 1 : a->w;
    if (isc(a) && isc(b)) return cst(evalop(op, w, a->w, a->k, b->k), w);
    // constants to the right for commutative operators
    if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ) && isc(a)) std::swap(a, b);
    u128 m = maskw(a->w);
    // decided by the bounds alone
    if (op == E_EQ && (a->hi < b->lo || b->hi < a->lo)) return cst(0, 1);
    if (op == E_ULT) { if (a->hi < b->lo) return cst(1, 1); if (a->lo >= b->hi) return cst(0, 1); }
    if (op == E_ULE) { if (a->hi <= b->lo) return cst(1, 1); if (a->lo > b->hi) return cst(0, 1); }
    if ((op == E_SLT || op == E_SLE) && a->hi <= m >> 1 && b->hi <= m >> 1) return bin(op == E_SLT ? E_ULT : E_ULE, a, b);
    switch (op) {
      case E_ADD:
        if (isc(b, 0)) return a;
        if (isc(b) && a->op == E_ADD && isc(a->b)) return bin(E_ADD, a->a, cst(a->b->k + b->k, w));
        if (a->op == E_ADD || b->op == E_ADD || a->id > b->id) {
          // sums in a canonical order
          if (isc(b) && !(a->op == E_ADD && isc(a->b))) break;
          if (addends(a) + addends(b) > 64) break;
          std::vector<Expr *> ts; u128 k = 0; terms(a, ts, k); terms(b, ts, k); k &= m;
          std::sort(ts.begin(), ts.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
          if (ts.empty()) return cst(k, w);
          Expr *r = ts[0]; for (size_t i = 1; i < ts.size(); i++) r = mk(E_ADD, w, r, ts[i]);
          return k ? mk(E_ADD, w, r, cst(k, w)) : r;
        }
        break;
      case E_SUB:
        if (isc(b, 0)) return a;
        if (a == b) return cst(0, w);
        if (isc(b)) return bin(E_ADD, a, cst((u128)0 - b->k, w));
        break;
      case E_MUL:
        if (isc(b, 0)) return b;
        if (isc(b, 1)) return a;
        break;
      case E_AND:
        if (a == b) return a;
        if (isc(b, 0)) return b;
        if (isc(b, m)) return a;
        if (isc(b) && a->op == E_ZEXT) {
          u128 mm = maskw(a->a->w);
          if ((b->k & mm) == mm) return a;
          return zext(bin(E_AND, a->a, cst(b->k, a->a->w)), w);
        }
        if (isc(b) && a->op == E_AND && isc(a->b)) return bin(E_AND, a->a, cst(a->b->k & b->k, w));
        if (isc(b) && a->op == E_CONCAT) // split masks over concatenations
          return concat(bin(E_AND, a->a, cst(b->k >> a->b->w, a->a->w)), bin(E_AND, a->b, cst(b->k, a->b->w)));
        if (isc(b) && w > 1) {
          // low mask of n bits
          unsigned n = 0; while (n < w && ((b->k >> n) & 1)) n++;
          if (n < w && b->k == maskw(n) && (a->op == E_OR || a->op == E_SHL || a->op == E_LSHR)) return zext(extract(a, 0, n), w);
        }
        break;
      case E_OR:
        if (a == b) return a;
        if (isc(b, 0)) return a;
        if (isc(b, m)) return b;
        // disjoint or => concat
        if (!isc(b)) { Expr *r = or_concat(a, b); if (r) return r; }
        break;
      case E_XOR:
        if (a == b) return cst(0, w);
        if (isc(b, 0)) return a;
        if (isc(b) && a->op == E_XOR && isc(a->b)) return bin(E_XOR, a->a, cst(a->b->k ^ b->k, w));
        if (w == 1 && isc(b, 1)) {
          if (a->op == E_ULT) return bin(E_ULE, a->b, a->a);
          if (a->op == E_ULE) return bin(E_ULT, a->b, a->a);
          if (a->op == E_SLT) return bin(E_SLE, a->b, a->a);
          if (a->op == E_SLE) return bin(E_SLT, a->b, a->a);
        }
        if (isc(b) && a->op == E_ZEXT && (b->k >> a->a->w) == 0) return zext(bin(E_XOR, a->a, cst(b->k, a->a->w)), w);
        break;
      case E_SHL: case E_LSHR: case E_ASHR:
        if (isc(b, 0)) return a;
        if (isc(b) && op == E_LSHR) {
          if (b->k >= w) return cst(0, w);
          return zext(extract(a, (unsigned)b->k, w - (unsigned)b->k), w);
        }
        if (isc(b) && op == E_SHL) {
          if (b->k >= w) return cst(0, w);
          unsigned s = (unsigned)b->k;
          return concat(extract(a, 0, w - s), cst(0, s));
        }
        break;
      case E_EQ:
        if (a == b) return cst(1, 1);
        if (w == 1 && a->w == 1 && isc(b)) return b->k ? a : not1(a);
        if (isc(b)) {
          if (a->op == E_ZEXT) {
            if (b->k >> a->a->w) return cst(0, 1);
            return bin(E_EQ, a->a, cst(b->k, a->a->w));
          }
          if (a->op == E_CONCAT)
            return bin(E_AND, bin(E_EQ, a->a, cst(b->k >> a->b->w, a->a->w)), bin(E_EQ, a->b, cst(b->k, a->b->w)));
          if (a->op == E_ADD && isc(a->b)) return bin(E_EQ, a->a, cst(b->k - a->b->k, a->w));
          if (a->op == E_XOR && isc(a->b)) return bin(E_EQ, a->a, cst(b->k ^ a->b->k, a->w));
          if (a->op == E_XOR && isc(b, 0)) return bin(E_EQ, a->a, a->b);
          if (a->op == E_OR && isc(b, 0)) return bin(E_AND, bin(E_EQ, a->a, b), bin(E_EQ, a->b, b));
          if (a->op == E_ITE) {
            bool tc = isc(a->b), fc = isc(a->c);
            if (tc && fc) {
              bool x = a->b->k == b->k, y = a->c->k == b->k;
              if (x && y) return cst(1, 1);
              if (!x && !y) return cst(0, 1);
              return x ? a->a : not1(a->a);
            }
            if (tc || fc) return ite(a->a, bin(E_EQ, a->b, b), bin(E_EQ, a->c, b));
          }
        } else if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
        else if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w)
          return bin(E_AND, bin(E_EQ, a->a, b->a), bin(E_EQ, a->b, b->b));
        else if (a->id > b->id) std::swap(a, b);
        break;
      case E_ULT:
        if (a == b) return cst(0, 1);
        if (isc(b, 0)) return cst(0, 1);
        if (isc(b, 1)) return bin(E_EQ, a, cst(0, a->w));
        if (isc(a, m)) return cst(0, 1);
        if (a->op == E_ZEXT && isc(b)) {
          if (b->k >> a->a->w) return cst(1, 1);
          return bin(E_ULT, a->a, cst(b->k, a->a->w));
        }
        if (b->op == E_ZEXT && isc(a)) {
          if (a->k >> b->a->w) return cst(0, 1);
          return bin(E_ULT, cst(a->k, b->a->w), b->a);
        }
        break;
      case E_ULE:
        if (a == b) return cst(1, 1);
        if (isc(b, m)) return cst(1, 1);
        if (isc(a, 0)) return cst(1, 1);
        if (isc(b)) return bin(E_ULT, a, cst(b->k + 1, a->w));
        if (isc(a)) return bin(E_ULT, cst(a->k - 1, a->w), b);
        break;
      case E_SLT: case E_SLE:
        if (a == b) return cst(op == E_SLE, 1);
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(op == E_SLT ? E_ULT : E_ULE, a->a, b->a);
        if (a->op == E_ZEXT && isc(b)) {
          if (sextw(b->k, b->w) < 0) return cst(0, 1);
          return bin(op == E_SLT ? E_ULT : E_ULE, a, b);
        }
        if (b->op == E_ZEXT && isc(a)) {
          if (sextw(a->k, a->w) < 0) return cst(1, 1);
          return bin(op == E_SLT ? E_ULT : E_ULE, a, b);
        }
        break;
      default: break;
    }
    return mk(op, w, a, b);
  }
  // a|b where the set bits cannot overlap and the shape is (x zero-extended) | (y shifted left): build a concat
  Expr *or_concat(Expr *a, Expr *b) {
    unsigned w = a->w;
    for (int t = 0; t < 2; t++, std::swap(a, b)) {
      // b = concat(y, 0_s), a = zext(x) with width(x) <= s
      if (b->op == E_CONCAT && isc(b->b, 0) && a->op == E_ZEXT && a->a->w <= b->b->w)
        return concat(b->a, zext(a->a, b->b->w));
      if (b->op == E_CONCAT && isc(b->b, 0) && a->op == E_CONCAT && isc(a->a, 0) && a->b->w <= b->b->w)
        return concat(b->a, zext(a->b, b->b->w));
      // b = zext(concat(y,0_s))
      if (b->op == E_ZEXT && b->a->op == E_CONCAT && isc(b->a->b, 0) && a->op == E_ZEXT && a->a->w <= b->a->b->w)
        return zext(concat(b->a->a, zext(a->a, b->a->b->w)), w);
    }
    return nullptr;
  }
};

// Evaluate under a concrete assignment.
struct Evaluator {
  const u8 *val; // value of each var
  std::unordered_map<Expr *, u128> memo;
  Evaluator(const u8 *v) : val(v) {}
  u128 eval(Expr *e) {
    if (e->op == E_CONST) return e->k;
    if (e->op == E_VAR) return val[(unsigned)e->k];
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u128 r;
    switch (e->op) {
      case E_ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
      case E_ZEXT: r = eval(e->a); break;
      case E_SEXT: r = (u128)sextw(eval(e->a), e->a->w) & maskw(e->w); break;
      case E_EXTRACT: r = (eval(e->a) >> (unsigned)e->k) & maskw(e->w); break;
      case E_CONCAT: r = (eval(e->a) << e->b->w) | eval(e->b); break;
      default: r = evalop(e->op, e->w, e->a->w, eval(e->a), eval(e->b));
    }
    memo[e] = r;
    return r;
  }
};

// Z3 back end.
struct Solver {
  z3::context ctx;
  z3::solver s;
  std::unordered_map<Expr *, z3::expr> cache;
  u64 queries = 0, sat = 0, unsat = 0, hits = 0;
  double seconds = 0;
  Solver() : s(ctx, "QF_BV") { z3::params p(ctx); p.set("timeout", 60000u); s.set(p); }
  z3::expr num(u128 v, unsigned w) {
    if (w <= 64) return ctx.bv_val((uint64_t)v, w);
    return z3::concat(ctx.bv_val((uint64_t)(v >> 64), w - 64), ctx.bv_val((uint64_t)v, 64));
  }
  z3::expr b2bv(const z3::expr &b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); }
  z3::expr tr(Expr *e) {
    auto it = cache.find(e);
    if (it != cache.end()) return it->second;
    z3::expr r(ctx);
    switch (e->op) {
      case E_CONST: r = num(e->k, e->w); break;
      case E_VAR: r = ctx.bv_const(("b" + std::to_string((unsigned)e->k)).c_str(), 8); break;
      case E_ADD: r = tr(e->a) + tr(e->b); break;
      case E_SUB: r = tr(e->a) - tr(e->b); break;
      case E_MUL: r = tr(e->a) * tr(e->b); break;
      case E_UDIV: r = z3::udiv(tr(e->a), tr(e->b)); break;
      case E_UREM: r = z3::urem(tr(e->a), tr(e->b)); break;
      case E_SDIV: r = tr(e->a) / tr(e->b); break;
      case E_SREM: r = z3::srem(tr(e->a), tr(e->b)); break;
      case E_AND: r = tr(e->a) & tr(e->b); break;
      case E_OR: r = tr(e->a) | tr(e->b); break;
      case E_XOR: r = tr(e->a) ^ tr(e->b); break;
      case E_SHL: r = z3::shl(tr(e->a), tr(e->b)); break;
      case E_LSHR: r = z3::lshr(tr(e->a), tr(e->b)); break;
      case E_ASHR: r = z3::ashr(tr(e->a), tr(e->b)); break;
      case E_EQ: r = b2bv(tr(e->a) == tr(e->b)); break;
      case E_ULT: r = b2bv(z3::ult(tr(e->a), tr(e->b))); break;
      case E_ULE: r = b2bv(z3::ule(tr(e->a), tr(e->b))); break;
      case E_SLT: r = b2bv(tr(e->a) < tr(e->b)); break;
      case E_SLE: r = b2bv(tr(e->a) <= tr(e->b)); break;
      case E_ITE: r = z3::ite(tr(e->a) == ctx.bv_val(1, 1), tr(e->b), tr(e->c)); break;
      case E_ZEXT: r = z3::zext(tr(e->a), e->w - e->a->w); break;
      case E_SEXT: r = z3::sext(tr(e->a), e->w - e->a->w); break;
      case E_EXTRACT: r = tr(e->a).extract((unsigned)e->k + e->w - 1, (unsigned)e->k); break;
      case E_CONCAT: r = z3::concat(tr(e->a), tr(e->b)); break;
    }
    cache.insert({e, r});
    return r;
  }
};
