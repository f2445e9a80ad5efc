// Textual LLVM IR reader: globals are laid out eagerly, function bodies are decoded on first call.
#pragma once
#include "expr.hpp"
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };

// ---------- types ----------
enum TKind : u8 { T_VOID, T_INT, T_PTR, T_FLOAT, T_ARRAY, T_VEC, T_STRUCT, T_LABEL, T_META };
struct Type {
  TKind k; unsigned w = 0;        // int width / float width
  u64 n = 0; Type *el = nullptr;  // array, vector
  std::vector<Type *> f; bool packed = false;
  // layout
  u64 size = 0, align = 1; std::vector<u64> offs;
  // flattened scalar leaves
  struct Leaf { u32 off; uint16_t w; };
  std::vector<Leaf> leaves; bool leavesDone = false;
};

struct Val { u64 lo; u64 hi; Expr *e; };
static inline Val cval(u64 v) { return Val{v, 0, nullptr}; }
static inline Val cval128(u128 v) { return Val{(u64)v, (u64)(v >> 64), nullptr}; }
static inline u128 vk(const Val &v) { return ((u128)v.hi << 64) | v.lo; }

enum IOp : u8 {
  I_BIN, I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_BITCAST, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
  I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE, I_EXTRACTVALUE, I_INSERTVALUE, I_EXTRACTELT,
  I_INSERTELT, I_SHUFFLE, I_ATOMICRMW, I_CMPXCHG, I_NOP, I_UNSUPPORTED
};
enum RmwOp : u8 { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_UMAX, R_UMIN, R_MAX, R_MIN, R_NAND };

struct Inst {
  IOp op; u8 sub = 0; uint16_t n = 1; // n: number of leaves / lanes
  uint16_t w = 0, w2 = 0;
  int32_t dst = -1, a = 0, b = 0, c = 0;
  u32 x = 0, y = 0;
};
struct GepInfo { int64_t off; std::vector<std::pair<int32_t, int64_t>> terms; std::vector<uint16_t> widths; };
struct PhiCopy { int32_t dst, src; uint16_t n; };
struct Edge { u32 target; std::vector<PhiCopy> copies; u32 block; };
struct SwitchInfo { std::vector<std::pair<u128, u32>> cases; u32 def; uint16_t w; std::unordered_map<u64, u32> fast; };
struct Func;
struct CallInfo { Func *callee = nullptr; int builtin = 0; int32_t fp = 0; std::vector<std::pair<int32_t, uint16_t>> args; std::vector<uint16_t> argw; uint16_t retn = 0; uint16_t retw = 0; std::string name; Type *rt = nullptr; };
struct MemInfo { std::vector<Type::Leaf> leaves; u32 bytes; };

struct Func {
  std::string name; u64 addr = 0;
  size_t bodyPos = 0; bool defined = false;
  std::vector<std::pair<std::string, Type *>> params; // name, type
  Type *ret = nullptr;
  int builtin = 0; bool panics = false;
  std::atomic<bool> ready{false};
  // decoded
  int nslots = 0;
  std::vector<Inst> code;
  std::vector<Val> consts;
  std::vector<Edge> edges;
  std::vector<SwitchInfo> switches;
  std::vector<CallInfo> calls;
  std::vector<GepInfo> geps;
  std::vector<MemInfo> mems;
  std::vector<std::vector<int>> lists;
  std::vector<std::string> msgs;
};

struct Global { std::string name; Type *ty; u64 addr; u64 size; bool constant; bool defined; size_t initPos; };

static const u64 FUNC_BASE = 0x10000, GLOBAL_BASE = 0x10000000;

struct Module {
  std::string text;
  std::unordered_map<std::string, Func *> funcs;
  std::vector<Func *> funcList;
  std::unordered_map<std::string, Global> globals;
  std::unordered_map<std::string, std::string> aliases;
  std::unordered_map<std::string, Type *> named;
  std::vector<u8> gdata;
  u64 gconstEnd = 0;
  std::map<std::string, Type *> tcache;
  std::deque<Type> tarena;
  std::recursive_mutex mu;
  Type *tvoid, *tptr, *tlabel, *tmeta;

  // ---------- lexer ----------
  struct Lex {
    const std::string &t; size_t p;
    Lex(const std::string &t, size_t p) : t(t), p(p) {}
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t')) p++; if (p < t.size() && t[p] == ';') while (p < t.size() && t[p] != '\n') p++; }
    void wsnl() { for (;;) { ws(); if (p < t.size() && (t[p] == '\n' || t[p] == '\r')) p++; else break; } }
    char peek() { ws(); return p < t.size() ? t[p] : 0; }
    bool eat(char c) { ws(); if (p < t.size() && t[p] == c) { p++; return true; } return false; }
    void need(char c) { if (!eat(c)) fail(std::string("expected '") + c + "'"); }
    [[noreturn]] void fail(const std::string &m) { size_t e = t.find('\n', p); size_t b = t.rfind('\n', p ? p - 1 : 0); throw EngineError("IR parse: " + m + " near: " + t.substr(b + 1, std::min<size_t>(e - b - 1, 300))); }
    static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
    std::string word() { ws(); size_t s = p; while (p < t.size() && idc(t[p])) p++; return t.substr(s, p - s); }
    std::string peekword() { size_t s = (ws(), p); std::string w = word(); p = s; return w; }
    bool eatword(const char *w) { ws(); size_t n = strlen(w); if (t.compare(p, n, w) == 0 && (p + n >= t.size() || !idc(t[p + n]))) { p += n; return true; } return false; }
    std::string ident() { // after % or @ or $
      if (p < t.size() && t[p] == '"') { size_t s = ++p; while (t[p] != '"') p++; std::string r = t.substr(s, p - s); p++; return r; }
      size_t s = p; while (p < t.size() && idc(t[p])) p++; return t.substr(s, p - s);
    }
    void skipParens() { need('('); int d = 1; while (d) { char c = t[p++]; if (c == '(') d++; else if (c == ')') d--; else if (c == '"') { while (t[p] != '"') p++; p++; } } }
    u128 integer() { ws(); bool neg = false; if (t[p] == '-') { neg = true; p++; } u128 v = 0; if (!isdigit((unsigned char)t[p])) fail("integer"); while (isdigit((unsigned char)t[p])) v = v * 10 + (t[p++] - '0'); return neg ? (u128)0 - v : v; }
    void eol() { size_t e = t.find('\n', p); p = e == std::string::npos ? t.size() : e; }
  };

  // ---------- types ----------
  Type *mkT(const std::string &key, std::function<void(Type &)> f) {
    auto it = tcache.find(key);
    if (it != tcache.end()) return it->second;
    tarena.emplace_back(); Type *t = &tarena.back(); f(*t); layout(*t); tcache[key] = t; return t;
  }
  static u64 up(u64 v, u64 a) { return (v + a - 1) / a * a; }
  void layout(Type &t) {
    switch (t.k) {
      case T_INT: { u64 b = (t.w + 7) / 8; u64 a = 1; while (a < b) a <<= 1; if (a > 16) a = 16; t.align = a; t.size = up(b, a); break; }
      case T_PTR: t.size = t.align = 8; break;
      case T_FLOAT: t.size = t.align = t.w / 8; break;
      case T_ARRAY: t.align = t.el->align; t.size = t.n * t.el->size; break;
      case T_VEC: { u64 bits = t.n * (t.el->k == T_PTR ? 64 : t.el->w); u64 b = (bits + 7) / 8; u64 a = 1; while (a < b) a <<= 1; t.align = a; t.size = a; break; }
      case T_STRUCT: { u64 o = 0, al = 1; for (auto *f : t.f) { u64 a = t.packed ? 1 : f->align; al = std::max(al, a); o = up(o, a); t.offs.push_back(o); o += f->size; } t.align = al; t.size = up(o, al); break; }
      default: break;
    }
  }
  void leavesOf(Type *t, u32 off, std::vector<Type::Leaf> &out) {
    switch (t->k) {
      case T_INT: out.push_back({off, (uint16_t)t->w}); break;
      case T_PTR: out.push_back({off, 64}); break;
      case T_FLOAT: out.push_back({off, (uint16_t)t->w}); break;
      case T_ARRAY: for (u64 i = 0; i < t->n; i++) leavesOf(t->el, off + (u32)(i * t->el->size), out); break;
      case T_VEC: { unsigned w = t->el->k == T_PTR ? 64 : t->el->w; for (u64 i = 0; i < t->n; i++) out.push_back({off + (u32)(i * ((w + 7) / 8)), (uint16_t)w}); break; }
      case T_STRUCT: for (size_t i = 0; i < t->f.size(); i++) leavesOf(t->f[i], off + (u32)t->offs[i], out); break;
      default: break;
    }
  }
  const std::vector<Type::Leaf> &leaves(Type *t) { if (!t->leavesDone) { leavesOf(t, 0, t->leaves); t->leavesDone = true; } return t->leaves; }
  Type *intT(unsigned w) { return mkT("i" + std::to_string(w), [&](Type &t) { t.k = T_INT; t.w = w; }); }
  Type *parseType(Lex &L) {
    L.ws(); Type *r; char c = L.peek();
    if (c == '[') { L.p++; u64 n = (u64)L.integer(); if (!L.eatword("x")) L.fail("x"); Type *el = parseType(L); L.need(']'); r = mkT("[" + std::to_string(n) + "x" + std::to_string((size_t)el), [&](Type &t) { t.k = T_ARRAY; t.n = n; t.el = el; }); }
    else if (c == '<') {
      L.p++;
      if (L.peek() == '{') { r = parseStruct(L, true); L.need('>'); }
      else { u64 n = (u64)L.integer(); if (!L.eatword("x")) L.fail("x"); Type *el = parseType(L); L.need('>'); r = mkT("<" + std::to_string(n) + "x" + std::to_string((size_t)el), [&](Type &t) { t.k = T_VEC; t.n = n; t.el = el; }); }
    } else if (c == '{') r = parseStruct(L, false);
    else if (c == '%') { L.p++; std::string n = L.ident(); auto it = named.find(n); if (it == named.end()) L.fail("unknown type %" + n); r = it->second; }
    else {
      std::string w = L.word();
      if (w == "ptr") { r = tptr; if (L.peekword() == "addrspace") { L.word(); L.skipParens(); } }
      else if (w == "void") r = tvoid;
      else if (w == "label") r = tlabel;
      else if (w == "metadata") r = tmeta;
      else if (w.size() > 1 && w[0] == 'i' && isdigit((unsigned char)w[1])) { unsigned n = atoi(w.c_str() + 1); r = intT(n); }
      else if (w == "half" || w == "bfloat") r = mkT(w, [&](Type &t) { t.k = T_FLOAT; t.w = 16; });
      else if (w == "float") r = mkT(w, [&](Type &t) { t.k = T_FLOAT; t.w = 32; });
      else if (w == "double") r = mkT(w, [&](Type &t) { t.k = T_FLOAT; t.w = 64; });
      else if (w == "fp128") r = mkT(w, [&](Type &t) { t.k = T_FLOAT; t.w = 128; });
      else L.fail("type '" + w + "'");
    }
    return r;
  }
  Type *parseStruct(Lex &L, bool packed) {
    L.need('{'); std::vector<Type *> f; std::string key = packed ? "<{" : "{";
    if (!L.eat('}')) { do { f.push_back(parseType(L)); key += std::to_string((size_t)f.back()) + ","; } while (L.eat(',')); L.need('}'); }
    return mkT(key, [&](Type &t) { t.k = T_STRUCT; t.f = f; t.packed = packed; });
  }
  // call type may be "ret (args...)" function type
  Type *parseCallType(Lex &L) { Type *r = parseType(L); if (L.peek() == '(') { size_t s = L.p; L.skipParens(); char c = L.peek(); if (c != '@' && c != '%') L.p = s; } return r; }

  // ---------- constants ----------
  // Appends the flattened leaves of a constant of type t.
  u64 symAddr(Lex &L, const std::string &n) {
    auto it = globals.find(n); if (it != globals.end()) return it->second.addr;
    auto f = funcs.find(n); if (f != funcs.end()) return f->second->addr;
    auto a = aliases.find(n); if (a != aliases.end()) return symAddr(L, a->second);
    L.fail("unknown symbol @" + n);
  }
  void zeroLeaves(Type *t, std::vector<Val> &out) { for (size_t i = 0; i < leaves(t).size(); i++) out.push_back(cval(0)); }
  bool isConstStart(Lex &L) {
    char c = L.peek();
    if (c == '@' || c == '-' || isdigit((unsigned char)c) || c == '[' || c == '{' || c == '<') return true;
    std::string w = L.peekword();
    static const char *K[] = {"true", "false", "null", "undef", "poison", "zeroinitializer", "none", "c", "splat", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "add", "sub", "xor", "trunc", "mul", "dso_local_equivalent", "no_cfi", "addrspacecast", "ptrtoaddr"};
    for (auto *k : K) if (w == k) return true;
    return false;
  }
  void parseConst(Lex &L, Type *t, std::vector<Val> &out) {
    char c = L.peek();
    if (c == '@') { L.p++; std::string n = L.ident(); out.push_back(cval(symAddr(L, n))); return; }
    if (c == '-' || isdigit((unsigned char)c)) {
      if (t->k == T_FLOAT) { // float literals: only the hex form is exact; anything else read through strtod
        size_t s = L.p; 
        if (L.t.compare(s, 2, "0x") == 0) { L.p += 2; while (isalpha((unsigned char)L.t[L.p]) && !isxdigit((unsigned char)L.t[L.p])) L.p++; u64 v = 0; while (isxdigit((unsigned char)L.t[L.p])) { char d = L.t[L.p++]; v = v * 16 + (isdigit((unsigned char)d) ? d - '0' : (d | 32) - 'a' + 10); } if (t->w == 32) { double d; memcpy(&d, &v, 8); float f = (float)d; u32 b; memcpy(&b, &f, 4); out.push_back(cval(b)); } else out.push_back(cval(v)); return; }
        char *e; double d = strtod(L.t.c_str() + s, &e); L.p = e - L.t.c_str(); u64 v; memcpy(&v, &d, 8); if (t->w == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); v = b; } out.push_back(cval(v)); return;
      }
      out.push_back(cval128(L.integer() & maskw(t->w ? t->w : 64))); return;
    }
    if (c == 'c' && L.t[L.p + 1] == '"') {
      L.p += 2; size_t n0 = out.size();
      while (L.t[L.p] != '"') { if (L.t[L.p] == '\\') { if (L.t[L.p + 1] == '\\') { out.push_back(cval('\\')); L.p += 2; } else { out.push_back(cval(strtoul(L.t.substr(L.p + 1, 2).c_str(), 0, 16))); L.p += 3; } } else out.push_back(cval((u8)L.t[L.p++])); }
      L.p++; if (out.size() - n0 != t->n) L.fail("c string length"); return;
    }
    if (c == '[') { L.p++; if (!L.eat(']')) { do { Type *et = parseType(L); parseConst(L, et, out); } while (L.eat(',')); L.need(']'); } return; }
    if (c == '<') { L.p++; if (L.peek() == '{') { parseStructConst(L, out); L.need('>'); } else { do { Type *et = parseType(L); parseConst(L, et, out); } while (L.eat(',')); L.need('>'); } return; }
    if (c == '{') { parseStructConst(L, out); return; }
    std::string w = L.word();
    if (w == "true") { out.push_back(cval(1)); return; }
    if (w == "false" || w == "null") { out.push_back(cval(0)); return; }
    if (w == "undef" || w == "poison" || w == "zeroinitializer" || w == "none") { zeroLeaves(t, out); return; }
    if (w == "splat") { L.need('('); Type *et = parseType(L); std::vector<Val> o; parseConst(L, et, o); L.need(')'); for (u64 i = 0; i < t->n; i++) out.insert(out.end(), o.begin(), o.end()); return; }
    if (w == "dso_local_equivalent" || w == "no_cfi") { L.ws(); L.p++; out.push_back(cval(symAddr(L, L.ident()))); return; }
    if (w == "getelementptr") {
      for (;;) { std::string q = L.peekword(); if (q == "inbounds" || q == "nuw" || q == "nusw") L.word(); else if (q == "inrange") { L.word(); L.skipParens(); } else break; }
      L.need('('); Type *bt = parseType(L); L.need(','); Type *pt = parseType(L); std::vector<Val> b; parseConst(L, pt, b); int64_t off = 0; bool first = true; Type *cur = bt;
      while (L.eat(',')) { Type *it = parseType(L); std::vector<Val> iv; parseConst(L, it, iv); int64_t i = (int64_t)sextw(vk(iv[0]), it->w); if (first) { off += i * (int64_t)cur->size; first = false; } else if (cur->k == T_STRUCT) { off += (int64_t)cur->offs[i]; cur = cur->f[i]; } else { cur = cur->el; off += i * (int64_t)cur->size; } }
      L.need(')'); out.push_back(cval(b[0].lo + (u64)off)); return;
    }
    if (w == "ptrtoint" || w == "inttoptr" || w == "bitcast" || w == "trunc" || w == "addrspacecast" || w == "ptrtoaddr") {
      L.need('('); Type *st = parseType(L); std::vector<Val> v; parseConst(L, st, v); if (!L.eatword("to")) L.fail("to"); Type *dt = parseType(L); L.need(')');
      out.push_back(cval128(vk(v[0]) & maskw(dt->k == T_PTR ? 64 : dt->w))); return;
    }
    if (w == "add" || w == "sub" || w == "xor" || w == "mul") {
      while (L.peekword() == "nuw" || L.peekword() == "nsw") L.word();
      L.need('('); Type *st = parseType(L); std::vector<Val> a, b; parseConst(L, st, a); L.need(','); Type *s2 = parseType(L); parseConst(L, s2, b); L.need(')');
      EOp o = w == "add" ? E_ADD : w == "sub" ? E_SUB : w == "xor" ? E_XOR : E_MUL;
      out.push_back(cval128(evalop(o, st->w, st->w, vk(a[0]), vk(b[0])))); return;
    }
    L.fail("constant '" + w + "'");
  }
  void parseStructConst(Lex &L, std::vector<Val> &out) { L.need('{'); if (!L.eat('}')) { do { Type *et = parseType(L); parseConst(L, et, out); } while (L.eat(',')); L.need('}'); } }

  // ---------- top level ----------
  void load(const std::string &path);
  void parseDefineHeader(Lex &L, bool def);
  void skipAttrs(Lex &L) { // attributes before an operand / type
    for (;;) {
      char c = L.peek();
      if (c == '"') { L.p++; while (L.t[L.p] != '"') L.p++; L.p++; if (L.eat('=')) { L.need('"'); while (L.t[L.p] != '"') L.p++; L.p++; } continue; }
      if (!isalpha((unsigned char)c)) return;
      std::string w = L.peekword();
      static const std::vector<std::string> A = {"noundef", "nonnull", "zeroext", "signext", "inreg", "noalias", "readonly", "readnone", "writeonly", "nofree", "nocapture", "returned", "immarg", "nest", "swiftself", "allocptr", "allocalign", "writable", "dead_on_unwind", "dead_on_return", "noext", "captures", "range", "initializes", "nofpclass", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype", "align", "internal", "private", "hidden", "protected", "dso_local", "dso_preemptable", "unnamed_addr", "local_unnamed_addr", "fastcc", "coldcc", "ccc", "preserve_mostcc", "cc", "external", "weak", "linkonce_odr", "linkonce", "weak_odr", "available_externally", "extern_weak", "default", "tail", "musttail", "notail", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "amdgpu", "alignstack", "preserve_allcc", "nosync", "nounwind"};
      bool hit = false;
      for (auto &a : A) if (a == w) { hit = true; break; }
      if (!hit) return;
      L.word();
      if (L.peek() == '(') L.skipParens();
      else if (w == "align" || w == "cc") { L.integer(); }
    }
  }
  void decode(Func *f);
};
void classify(Func *f); // sets builtin / panics
