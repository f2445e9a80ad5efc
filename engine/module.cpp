#include "module.hpp"
#include <fstream>
#include <sstream>
#include <iostream>

void Module::parseDefineHeader(Lex &L, bool def) {
  skipAttrs(L);
  Type *rt = parseType(L);
  skipAttrs(L);
  L.need('@'); std::string name = L.ident();
  auto *f = new Func; f->name = name; f->ret = rt; f->defined = def;
  L.need('(');
  int idx = 0;
  if (!L.eat(')')) {
    do {
      if (L.peek() == '.') { L.p += 3; break; }
      Type *t = parseType(L); skipAttrs(L); std::string pn;
      if (L.peek() == '%') { L.p++; pn = L.ident(); } else pn = std::to_string(idx);
      idx++;
      f->params.push_back({pn, t});
    } while (L.eat(','));
    L.need(')');
  }
  f->addr = FUNC_BASE + 16 * funcList.size();
  funcList.push_back(f); funcs[name] = f; classify(f);
  if (def) {
    size_t e = text.find("{\n", L.p); f->bodyPos = e + 2;
    size_t q = text.find("\n}\n", L.p); L.p = q + 3;
  } else L.eol();
}

void Module::load(const std::string &path) {
  std::ifstream in(path); if (!in) throw EngineError("cannot open " + path);
  std::stringstream ss; ss << in.rdbuf(); text = ss.str(); text += "\n";
  tarena.emplace_back(); tvoid = &tarena.back(); tvoid->k = T_VOID;
  tarena.emplace_back(); tptr = &tarena.back(); tptr->k = T_PTR; layout(*tptr);
  tarena.emplace_back(); tlabel = &tarena.back(); tlabel->k = T_LABEL;
  tarena.emplace_back(); tmeta = &tarena.back(); tmeta->k = T_META;
  Lex L(text, 0);
  struct GI { std::string n; size_t pos; Type *t; bool c; };
  std::vector<GI> gis;
  while (L.p < text.size()) {
    char c = text[L.p];
    if (c == '\n') { L.p++; continue; }
    if (c == '@') {
      L.p++; std::string n = L.ident(); L.need('=');
      bool ext = false, alias = false, cst = false;
      for (;;) {
        std::string w = L.peekword();
        if (w == "global") { L.word(); break; }
        if (w == "constant") { cst = true; L.word(); break; }
        if (w == "alias" || w == "ifunc") { alias = true; L.word(); break; }
        if (w == "external" || w == "extern_weak") ext = true;
        if (w.empty()) L.fail("global");
        L.word(); if (L.peek() == '(') L.skipParens();
      }
      Type *t = parseType(L);
      if (alias) { L.need(','); parseType(L); L.need('@'); aliases[n] = L.ident(); L.eol(); continue; }
      gis.push_back({n, ext ? 0 : L.p, t, cst}); L.eol(); continue;
    }
    if (c == '%') { L.p++; std::string n = L.ident(); L.need('='); L.word(); if (L.peekword() == "opaque") named[n] = tvoid; else named[n] = parseType(L); L.eol(); continue; }
    if (text.compare(L.p, 7, "define ") == 0) { L.p += 7; parseDefineHeader(L, true); continue; }
    if (text.compare(L.p, 8, "declare ") == 0) { L.p += 8; parseDefineHeader(L, false); continue; }
    L.eol();
  }
  // layout: constants first, then mutable globals
  u64 a = GLOBAL_BASE;
  for (int pass = 0; pass < 2; pass++) {
    for (auto &g : gis) if (g.c == (pass == 0)) { a = up(a, std::max<u64>(g.t->align, 16)); globals[g.n] = Global{g.n, g.t, a, g.t->size, g.c, g.pos != 0, g.pos}; a += std::max<u64>(g.t->size, 1); }
    if (pass == 0) { a = up(a, 4096); gconstEnd = a; }
  }
  gdata.assign(up(a, 4096) - GLOBAL_BASE, 0);
  for (auto &g : gis) if (g.pos) {
    Lex G(text, g.pos); std::vector<Val> v; parseConst(G, g.t, v);
    auto &lv = leaves(g.t); if (v.size() != lv.size()) throw EngineError("global init size " + g.n);
    u64 base = globals[g.n].addr - GLOBAL_BASE;
    for (size_t i = 0; i < lv.size(); i++) { u128 k = vk(v[i]); for (unsigned b = 0; b < (lv[i].w + 7u) / 8; b++) gdata[base + lv[i].off + b] = (u8)(k >> (8 * b)); }
  }
}

// ---------- function bodies ----------
namespace {
struct Decoder {
  Module &M; Func *F; Module::Lex L;
  std::unordered_map<std::string, int> slot; std::unordered_map<std::string, Type *> sty;
  std::unordered_map<std::string, u32> blockIdx; std::vector<u32> blockStart; std::vector<std::string> blockName;
  struct Phi { std::string name; Type *t; std::vector<std::pair<std::string, std::string>> dummy; std::vector<std::pair<int, u32>> in; };
  Decoder(Module &M, Func *F) : M(M), F(F), L(M.text, F->bodyPos) {}
  std::vector<std::vector<std::pair<int, std::pair<int, std::vector<std::pair<std::string, int>>>>>> phis; // per block: (dst,n, [(pred, src)])
  struct EdgeFix { u32 from; u32 to; };

  int newConst(const std::vector<Val> &v) { int i = (int)F->consts.size(); F->consts.insert(F->consts.end(), v.begin(), v.end()); return ~i; }
  int defSlot(const std::string &n, Type *t) {
    auto it = slot.find(n); if (it != slot.end()) return it->second;
    int s = F->nslots; F->nslots += (int)std::max<size_t>(1, M.leaves(t).size()); slot[n] = s; sty[n] = t; return s;
  }
  int operand(Type *t) {
    if (L.peek() == '%') { L.p++; std::string n = L.ident(); return defSlot(n, t); }
    if (t->k == T_META) { // skip metadata operand
      while (L.peek() != ',' && L.peek() != ')' && L.peek() != '\n') { if (L.peek() == '(') L.skipParens(); else L.p++; }
      return 0;
    }
    if (L.peekword() == "asm") L.fail("inline asm");
    std::vector<Val> v; M.parseConst(L, t, v);
    if (v.empty()) v.push_back(cval(0));
    // consts are addressed ~i .. but leaves ascend: store reversed so that ~(i) for leaf k is (op - k)
    return newConst(v);
  }
  int typedOperand(Type **tt = nullptr) { Type *t = M.parseType(L); M.skipAttrs(L); if (tt) *tt = t; return operand(t); }
  unsigned sw(Type *t) { if (t->k == T_VEC) return sw(t->el); return t->k == T_PTR ? 64 : t->w; }
  u32 block(const std::string &n) { auto it = blockIdx.find(n); if (it != blockIdx.end()) return it->second; u32 i = (u32)blockName.size(); blockIdx[n] = i; blockName.push_back(n); blockStart.push_back(~0u); phis.emplace_back(); return i; }
  u32 label() { if (!L.eatword("label")) L.fail("label"); L.need('%'); return block(L.ident()); }
  u32 edge(u32 from, u32 to) { F->edges.push_back(Edge{to, {}, from}); return (u32)F->edges.size() - 1; }
  u32 mem(Type *t) { MemInfo m; m.leaves = M.leaves(t); m.bytes = (u32)t->size; F->mems.push_back(m); return (u32)F->mems.size() - 1; }

  void run() {
    for (auto &p : F->params) defSlot(p.first, p.second);
    u32 cur = ~0u; bool first = true;
    for (;;) {
      L.wsnl();
      if (L.peek() == '}') break;
      // label?
      {
        size_t s = L.p; std::string n; bool isl = false;
        if (L.t[L.p] == '"') { L.p++; n = ""; while (L.t[L.p] != '"') n += L.t[L.p++]; L.p++; isl = L.t[L.p] == ':'; }
        else { n = L.word(); isl = !n.empty() && L.t[L.p] == ':'; }
        if (isl) { L.p++; cur = block(n); blockStart[cur] = (u32)F->code.size(); first = false; L.eol(); continue; }
        L.p = s;
      }
      if (first) { // unnamed entry block: numbered after the params
        size_t un = 0; for (auto &p : F->params) { bool num = !p.first.empty(); for (char c : p.first) num &= isdigit((unsigned char)c) != 0; un += num; }
        cur = block(std::to_string(un)); blockStart[cur] = 0; first = false;
      }
      inst(cur);
      L.eol();
    }
    // resolve edges
    for (auto &e : F->edges) {
      u32 to = e.target; const std::string &pred = blockName[e.block];
      for (auto &p : phis[to]) {
        bool ok = false;
        for (auto &in : p.second.second) if (in.first == pred) { e.copies.push_back({p.first, in.second, (uint16_t)p.second.first}); ok = true; break; }
        if (!ok) throw EngineError("phi without predecessor in " + F->name);
      }
      e.target = blockStart[to];
      if (e.target == ~0u) throw EngineError("undefined block in " + F->name);
    }
  }
  void emit(Inst i) { F->code.push_back(i); }
  void unsupported(const std::string &m) { Inst i; i.op = I_UNSUPPORTED; i.x = (u32)F->msgs.size(); F->msgs.push_back(m); emit(i); }

  void inst(u32 cur) {
    std::string dst; bool has = false; size_t start = L.p;
    if (L.peek() == '%') { L.p++; dst = L.ident(); L.need('='); has = true; }
    std::string op = L.word();
    static const std::unordered_map<std::string, EOp> BIN = {{"add", E_ADD}, {"sub", E_SUB}, {"mul", E_MUL}, {"udiv", E_UDIV}, {"urem", E_UREM}, {"sdiv", E_SDIV}, {"srem", E_SREM}, {"and", E_AND}, {"or", E_OR}, {"xor", E_XOR}, {"shl", E_SHL}, {"lshr", E_LSHR}, {"ashr", E_ASHR}};
    auto bi = BIN.find(op);
    if (bi != BIN.end()) {
      while (true) { std::string w = L.peekword(); if (w == "nuw" || w == "nsw" || w == "exact" || w == "disjoint") L.word(); else break; }
      Type *t = M.parseType(L); Inst i; i.op = I_BIN; i.sub = bi->second; i.n = (uint16_t)M.leaves(t).size(); i.w = sw(t); i.a = operand(t); L.need(','); i.b = operand(t); i.dst = defSlot(dst, t); emit(i); return;
    }
    if (op == "icmp") {
      if (L.peekword() == "samesign") L.word();
      std::string cc = L.word(); Type *t = M.parseType(L); int a = operand(t); L.need(','); int b = operand(t);
      Inst i; i.op = I_ICMP; i.n = (uint16_t)M.leaves(t).size(); i.w = sw(t); bool neg = false;
      if (cc == "eq") i.sub = E_EQ; else if (cc == "ne") { i.sub = E_EQ; neg = true; }
      else if (cc == "ult") i.sub = E_ULT; else if (cc == "ule") i.sub = E_ULE; else if (cc == "slt") i.sub = E_SLT; else if (cc == "sle") i.sub = E_SLE;
      else if (cc == "ugt") { i.sub = E_ULT; std::swap(a, b); } else if (cc == "uge") { i.sub = E_ULE; std::swap(a, b); }
      else if (cc == "sgt") { i.sub = E_SLT; std::swap(a, b); } else if (cc == "sge") { i.sub = E_SLE; std::swap(a, b); } else L.fail("icmp " + cc);
      i.x = neg; i.a = a; i.b = b;
      Type *rt = t->k == T_VEC ? M.mkT("<" + std::to_string(t->n) + "x" + std::to_string((size_t)M.intT(1)), [&](Type &q) { q.k = T_VEC; q.n = t->n; q.el = M.intT(1); }) : M.intT(1);
      i.dst = defSlot(dst, rt); emit(i); return;
    }
    if (op == "phi") {
      M.skipAttrs(L); Type *t = M.parseType(L); int n = (int)std::max<size_t>(1, M.leaves(t).size()); int d = defSlot(dst, t); std::vector<std::pair<std::string, int>> in;
      do { L.need('['); int o = operand(t); L.need(','); L.need('%'); std::string b = L.ident(); L.need(']'); in.push_back({b, o}); } while (L.eat(','));
      phis[cur].push_back({d, {n, in}}); return;
    }
    if (op == "select") {
      M.skipAttrs(L); Type *ct; int c = typedOperand(&ct); L.need(','); Type *t; int a = typedOperand(&t); L.need(','); int b = typedOperand();
      Inst i; i.op = I_SELECT; i.n = (uint16_t)M.leaves(t).size(); i.c = c; i.a = a; i.b = b; i.w2 = ct->k == T_VEC; i.y = mem(t); i.dst = defSlot(dst, t); emit(i); return;
    }
    if (op == "zext" || op == "sext" || op == "trunc" || op == "ptrtoint" || op == "inttoptr" || op == "bitcast" || op == "freeze" || op == "addrspacecast" || op == "ptrtoaddr") {
      while (true) { std::string w = L.peekword(); if (w == "nneg" || w == "nuw" || w == "nsw") L.word(); else break; }
      Type *st; int a = typedOperand(&st); Type *dt = st;
      if (op != "freeze") { if (!L.eatword("to")) L.fail("to"); dt = M.parseType(L); }
      Inst i; i.a = a; i.w = sw(st); i.w2 = sw(dt); i.n = (uint16_t)M.leaves(st).size(); i.dst = defSlot(dst, dt);
      if (op == "freeze") i.op = I_COPY;
      else if (op == "bitcast" && (M.leaves(st).size() != M.leaves(dt).size() || i.w != i.w2)) { i.op = I_BITCAST; i.x = (u32)M.leaves(dt).size(); }
      else if (i.w == i.w2) i.op = I_COPY;
      else if (op == "sext") i.op = I_SEXT;
      else i.op = i.w2 > i.w ? I_ZEXT : I_TRUNC;
      emit(i); return;
    }
    if (op == "alloca") {
      if (L.peekword() == "inalloca") L.word();
      Type *t = M.parseType(L); u64 al = t->align; Inst i; i.op = I_ALLOCA; i.a = 0; bool hasN = false;
      while (L.eat(',')) { if (L.peekword() == "align") { L.word(); al = (u64)L.integer(); } else if (L.peek() == '!') break; else { Type *nt = M.parseType(L); i.a = operand(nt); hasN = true; } }
      if (!hasN) i.a = newConst({cval(1)});
      i.x = (u32)t->size; i.y = (u32)al; i.dst = defSlot(dst, M.tptr); emit(i); return;
    }
    if (op == "load") {
      while (true) { std::string w = L.peekword(); if (w == "volatile" || w == "atomic") L.word(); else break; }
      Type *t = M.parseType(L); L.need(','); int p = typedOperand(); Inst i; i.op = I_LOAD; i.a = p; i.n = (uint16_t)M.leaves(t).size(); i.w = i.n == 1 ? M.leaves(t)[0].w : 0; i.x = mem(t); i.dst = defSlot(dst, t);
      if (t->k == T_VEC && sw(t) % 8) { unsupported("load of packed vector"); return; }
      emit(i); return;
    }
    if (op == "store") {
      while (true) { std::string w = L.peekword(); if (w == "volatile" || w == "atomic") L.word(); else break; }
      Type *t; int v = typedOperand(&t); L.need(','); int p = typedOperand(); Inst i; i.op = I_STORE; i.a = p; i.b = v; i.n = (uint16_t)M.leaves(t).size(); i.w = i.n == 1 ? M.leaves(t)[0].w : 0; i.x = mem(t);
      if (t->k == T_VEC && sw(t) % 8) { unsupported("store of packed vector"); return; }
      emit(i); return;
    }
    if (op == "getelementptr") {
      while (true) { std::string w = L.peekword(); if (w == "inbounds" || w == "nuw" || w == "nusw") L.word(); else if (w == "inrange") { L.word(); L.skipParens(); } else break; }
      Type *bt = M.parseType(L); L.need(','); Type *pt; int p = typedOperand(&pt); GepInfo g; g.off = 0; bool first = true; Type *cur2 = bt; bool vec = pt->k == T_VEC;
      while (L.eat(',')) {
        if (L.peek() == '!') break;
        Type *it = M.parseType(L); if (it->k == T_VEC) vec = true; int o = operand(it); int64_t scale; bool isStruct = false;
        if (first) { scale = (int64_t)cur2->size; first = false; }
        else if (cur2->k == T_STRUCT) { isStruct = true; scale = 0; }
        else { cur2 = cur2->el; scale = (int64_t)cur2->size; }
        if (isStruct) { u64 k = F->consts[~o].lo; g.off += (int64_t)cur2->offs[k]; cur2 = cur2->f[k]; }
        else if (o < 0) { g.off += (int64_t)sextw(vk(F->consts[~o]), it->w) * scale; }
        else { g.terms.push_back({o, scale}); g.widths.push_back((uint16_t)it->w); }
      }
      if (vec) { defSlot(dst, pt); unsupported("vector gep"); return; }
      Inst i; i.op = I_GEP; i.a = p; i.x = (u32)F->geps.size(); F->geps.push_back(g); i.dst = defSlot(dst, M.tptr); emit(i); return;
    }
    if (op == "br") {
      if (L.peekword() == "label") { u32 b = label(); Inst i; i.op = I_BR; i.x = edge(cur, b); emit(i); return; }
      int c = typedOperand(); L.need(','); u32 t = label(); L.need(','); u32 f = label(); Inst i; i.op = I_CONDBR; i.a = c; i.x = edge(cur, t); i.y = edge(cur, f); emit(i); return;
    }
    if (op == "switch") {
      Type *t; int v = typedOperand(&t); L.need(','); u32 d = label(); SwitchInfo s; s.w = (uint16_t)sw(t); s.def = edge(cur, d); std::unordered_map<u32, u32> seen; L.wsnl(); L.need('[');
      for (;;) { L.wsnl(); if (L.eat(']')) break; Type *ct = M.parseType(L); std::vector<Val> k; M.parseConst(L, ct, k); L.need(','); u32 b = label(); u32 e; auto it = seen.find(b); if (it != seen.end()) e = it->second; else e = seen[b] = (b == d ? s.def : edge(cur, b)); s.cases.push_back({vk(k[0]), e}); s.fast[k[0].lo] = e; }
      Inst i; i.op = I_SWITCH; i.a = v; i.x = (u32)F->switches.size(); F->switches.push_back(s); emit(i); return;
    }
    if (op == "ret") {
      Type *t = M.parseType(L); Inst i; i.op = I_RET; i.n = 0; if (t->k != T_VOID) { i.a = operand(t); i.n = (uint16_t)M.leaves(t).size(); } emit(i); return;
    }
    if (op == "unreachable") { Inst i; i.op = I_UNREACHABLE; emit(i); return; }
    if (op == "fence") return;
    if (op == "call" || op == "tail" || op == "musttail" || op == "notail" || op == "invoke") { call(op, dst, has, cur); return; }
    if (op == "extractvalue") {
      Type *t; int a = typedOperand(&t); u32 off = 0; Type *c = t;
      while (L.eat(',')) { if (L.peek() == '!') break; u64 k = (u64)L.integer(); if (c->k == T_STRUCT) { for (u64 j = 0; j < k; j++) off += (u32)M.leaves(c->f[j]).size(); c = c->f[k]; } else { off += (u32)(k * M.leaves(c->el).size()); c = c->el; } }
      Inst i; i.op = I_EXTRACTVALUE; i.a = a; i.x = off; i.n = (uint16_t)M.leaves(c).size(); i.dst = defSlot(dst, c); emit(i); return;
    }
    if (op == "insertvalue") {
      Type *t; int a = typedOperand(&t); L.need(','); Type *vt; int b = typedOperand(&vt); u32 off = 0; Type *c = t;
      while (L.eat(',')) { if (L.peek() == '!') break; u64 k = (u64)L.integer(); if (c->k == T_STRUCT) { for (u64 j = 0; j < k; j++) off += (u32)M.leaves(c->f[j]).size(); c = c->f[k]; } else { off += (u32)(k * M.leaves(c->el).size()); c = c->el; } }
      Inst i; i.op = I_INSERTVALUE; i.a = a; i.b = b; i.x = off; i.y = (u32)M.leaves(vt).size(); i.n = (uint16_t)M.leaves(t).size(); i.dst = defSlot(dst, t); emit(i); return;
    }
    if (op == "extractelement") { Type *t; int a = typedOperand(&t); L.need(','); int b = typedOperand(); Inst i; i.op = I_EXTRACTELT; i.a = a; i.b = b; i.n = (uint16_t)t->n; i.dst = defSlot(dst, t->el); emit(i); return; }
    if (op == "insertelement") { Type *t; int a = typedOperand(&t); L.need(','); int b = typedOperand(); L.need(','); int c = typedOperand(); Inst i; i.op = I_INSERTELT; i.a = a; i.b = b; i.c = c; i.n = (uint16_t)t->n; i.dst = defSlot(dst, t); emit(i); return; }
    if (op == "shufflevector") {
      Type *t; int a = typedOperand(&t); L.need(','); int b = typedOperand(); L.need(','); Type *mt; mt = M.parseType(L); std::vector<Val> mv; M.parseConst(L, mt, mv); std::vector<int> idx; for (auto &v : mv) idx.push_back((int)v.lo);
      Inst i; i.op = I_SHUFFLE; i.a = a; i.b = b; i.n = (uint16_t)t->n; i.x = (u32)F->lists.size(); F->lists.push_back(idx);
      Type *rt = M.mkT("<" + std::to_string(mt->n) + "x" + std::to_string((size_t)t->el), [&](Type &q) { q.k = T_VEC; q.n = mt->n; q.el = t->el; });
      i.dst = defSlot(dst, rt); emit(i); return;
    }
    if (op == "atomicrmw") {
      if (L.peekword() == "volatile") L.word(); std::string o = L.word(); int p = typedOperand(); L.need(','); Type *t; int v = typedOperand(&t); Inst i; i.op = I_ATOMICRMW; i.a = p; i.b = v; i.w = sw(t); i.x = mem(t);
      static const std::unordered_map<std::string, int> R = {{"xchg", R_XCHG}, {"add", R_ADD}, {"sub", R_SUB}, {"and", R_AND}, {"or", R_OR}, {"xor", R_XOR}, {"umax", R_UMAX}, {"umin", R_UMIN}, {"max", R_MAX}, {"min", R_MIN}, {"nand", R_NAND}};
      auto it = R.find(o); if (it == R.end()) { if (has) defSlot(dst, t); unsupported("atomicrmw " + o); return; } i.sub = (u8)it->second; i.dst = has ? defSlot(dst, t) : -1; emit(i); return;
    }
    if (op == "cmpxchg") {
      while (true) { std::string w = L.peekword(); if (w == "weak" || w == "volatile") L.word(); else break; }
      int p = typedOperand(); L.need(','); Type *t; int c = typedOperand(&t); L.need(','); int n = typedOperand(); Inst i; i.op = I_CMPXCHG; i.a = p; i.b = c; i.c = n; i.w = sw(t); i.x = mem(t);
      Type *rt = M.mkT("{" + std::to_string((size_t)t) + "," + std::to_string((size_t)M.intT(1)) + ",", [&](Type &q) { q.k = T_STRUCT; q.f = {t, M.intT(1)}; });
      i.dst = defSlot(dst, rt); emit(i); return;
    }
    // anything else: an error only if it is ever executed
    size_t e = L.t.find('\n', start);
    std::string line = L.t.substr(start, e - start);
    if (has) { // give the destination a generous slot
      if (!slot.count(dst)) { slot[dst] = F->nslots; F->nslots += 8; }
    }
    unsupported(line);
    if (op == "landingpad") { // swallow clause lines
      L.eol();
      for (;;) { size_t s = L.p; L.wsnl(); std::string w = L.peekword(); if (w == "cleanup" || w == "catch" || w == "filter") L.eol(); else { L.p = s; break; } }
    }
  }

  void call(std::string op, const std::string &dst, bool has, u32 cur) {
    size_t start = L.p;
    if (op == "tail" || op == "musttail" || op == "notail") op = L.word();
    M.skipAttrs(L);
    Type *rt = M.parseCallType(L);
    M.skipAttrs(L);
    CallInfo ci; ci.rt = rt; ci.retn = rt->k == T_VOID ? 0 : (uint16_t)M.leaves(rt).size(); ci.retw = rt->k == T_INT ? rt->w : 64;
    if (rt->k == T_VEC) ci.retw = sw(rt);
    if (L.peekword() == "asm") { if (has) defSlot(dst, rt); size_t e = L.t.find('\n', start); std::string s = L.t.substr(start, e - start); if (s.find("asm sideeffect \"\"") != std::string::npos) { L.eol(); return; } unsupported("asm: " + s); L.eol(); return; }
    if (L.peek() == '@') { L.p++; std::string n = L.ident(); auto a = M.aliases.find(n); if (a != M.aliases.end()) n = a->second; auto it = M.funcs.find(n); if (it == M.funcs.end()) L.fail("unknown function @" + n); ci.callee = it->second; ci.builtin = it->second->builtin; ci.name = n; }
    else ci.fp = operand(M.tptr);
    L.need('(');
    if (!L.eat(')')) {
      do { Type *t = M.parseType(L); M.skipAttrs(L); int o = operand(t); uint16_t n = t->k == T_META ? 0 : (uint16_t)M.leaves(t).size(); ci.args.push_back({o, n}); ci.argw.push_back(t->k == T_META ? 0 : (uint16_t)sw(t)); } while (L.eat(','));
      L.need(')');
    }
    Inst i; i.op = I_CALL; i.dst = has ? defSlot(dst, rt) : -1; i.x = (u32)F->calls.size(); F->calls.push_back(ci); emit(i);
    if (op == "invoke") { // normal destination only
      size_t q = L.t.find(" to label ", L.p); q = L.t.find("label %", q); L.p = q; u32 b = label(); Inst j; j.op = I_BR; j.x = edge(cur, b); emit(j);
      L.eol(); if (L.t.find("unwind label", q) < L.t.find('\n', q)) return;
    }
  }
};
} // namespace

void Module::decode(Func *f) {
  std::lock_guard<std::recursive_mutex> g(mu);
  if (f->ready.load()) return;
  Decoder d(*this, f); d.run();
  f->ready.store(true, std::memory_order_release);
}
