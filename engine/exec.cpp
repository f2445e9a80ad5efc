#include "exec.hpp"
#include <bit>
#include <time.h>

double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- classification of callees
void classify(Func *f) {
  const std::string &n = f->name;
  auto has = [&](const char *s) { return n.find(s) != std::string::npos; };
  if (f->defined) {
    // every route into Rust's panic machinery is one observable event
    if (has("4core9panicking") || has("17rust_begin_unwind") || has("rust_begin_unwind") || has("3std9panicking11begin_panic") || has("handle_alloc_error") || has("3std7process5abort")) { f->builtin = B_PANIC; return; }
    if (has("hashmap_random_keys")) { f->builtin = B_HASHKEYS; return; }
    return;
  }
  static const std::unordered_map<std::string, int> T = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"posix_memalign", B_MEMALIGN}, {"aligned_alloc", B_ALIGNED_ALLOC}, {"free", B_FREE},
    {"memcpy", B_MEMCPY_RET}, {"memmove", B_MEMCPY_RET}, {"memset", B_MEMSET_RET}, {"bcmp", B_BCMP}, {"memcmp", B_MEMCMP}, {"strlen", B_STRLEN},
    {"getenv", B_RET0}, {"abort", B_PANIC},
    {"sym_bytes", B_SYM_BYTES}, {"sym_assume", B_SYM_ASSUME}, {"sym_fail", B_SYM_FAIL}, {"sym_cover", B_SYM_COVER},
    {"sym_concretize", B_SYM_CONCRETIZE}, {"sym_template", B_SYM_TEMPLATE}, {"sym_out", B_SYM_OUT}};
  auto it = T.find(n);
  if (it != T.end()) { f->builtin = it->second; return; }
  if (n.compare(0, 5, "llvm.") == 0) {
    static const std::vector<std::pair<const char *, int>> L = {
      {"llvm.memcpy", B_MEMCPY}, {"llvm.memmove", B_MEMCPY}, {"llvm.memset", B_MEMSET}, {"llvm.lifetime", B_NOP}, {"llvm.assume", B_NOP},
      {"llvm.experimental.noalias", B_NOP}, {"llvm.dbg", B_NOP}, {"llvm.donothing", B_NOP}, {"llvm.prefetch", B_NOP}, {"llvm.var.annotation", B_NOP}, {"llvm.sideeffect", B_NOP},
      {"llvm.is.constant", B_RET0}, {"llvm.threadlocal.address", B_RETARG0}, {"llvm.expect", B_RETARG0}, {"llvm.launder", B_RETARG0}, {"llvm.strip.invariant", B_RETARG0}, {"llvm.ptr.annotation", B_RETARG0}, {"llvm.invariant", B_RET0},
      {"llvm.umax", B_UMAX}, {"llvm.umin", B_UMIN}, {"llvm.smax", B_SMAX}, {"llvm.smin", B_SMIN}, {"llvm.usub.sat", B_USUBSAT}, {"llvm.uadd.sat", B_UADDSAT}, {"llvm.abs", B_ABS},
      {"llvm.ctpop", B_CTPOP}, {"llvm.ctlz", B_CTLZ}, {"llvm.cttz", B_CTTZ}, {"llvm.bswap", B_BSWAP}, {"llvm.bitreverse", B_BITREVERSE}, {"llvm.fshl", B_FSHL}, {"llvm.fshr", B_FSHR},
      {"llvm.uadd.with", B_UADDO}, {"llvm.usub.with", B_USUBO}, {"llvm.umul.with", B_UMULO}, {"llvm.sadd.with", B_SADDO}, {"llvm.ssub.with", B_SSUBO}, {"llvm.smul.with", B_SMULO},
      {"llvm.ucmp", B_UCMP}, {"llvm.scmp", B_SCMP}, {"llvm.load.relative", B_LOADREL},
      {"llvm.vector.reduce.add", B_REDUCE_ADD}, {"llvm.vector.reduce.or", B_REDUCE_OR}, {"llvm.vector.reduce.and", B_REDUCE_AND}, {"llvm.vector.reduce.umax", B_REDUCE_UMAX},
      {"llvm.trap", B_PANIC}, {"llvm.ubsantrap", B_PANIC}};
    for (auto &l : L) if (n.compare(0, strlen(l.first), l.first) == 0) { f->builtin = l.second; return; }
  }
  f->builtin = B_UNKNOWN;
}

// ---------------------------------------------------------------- setup
Worker::Worker(Shared &g, int id) : G(g), M(g.M), id(id) {
  glob.init(GLOBAL_BASE, M.gdata.size() + 4096); stack.init(STACK_BASE, STACK_SIZE); heap.init(HEAP_BASE, HEAP_SIZE);
  glob.writableFrom = M.gconstEnd - GLOBAL_BASE;
  memcpy(glob.data, M.gdata.data(), M.gdata.size());
  slots.resize(1 << 22); model.assign(MAXVARS, 0); fnSeen.assign(M.funcList.size(), 0);
  newCtx();
}
void Worker::newCtx() {
  Xp.reset(); Sp.reset(); Xp.reset(new ExprCtx); Sp.reset(new Solver); qcache.clear(); mval.clear(); mstamp.clear(); stamp = 1;
}

u128 Worker::evalM(Expr *e) {
  if (e->op == E_CONST) return e->k;
  if (e->op == E_VAR) return model[(unsigned)e->k];
  if (e->id >= mval.size()) { mval.resize(X().count + 4096); mstamp.resize(X().count + 4096, 0); }
  if (mstamp[e->id] == stamp) return mval[e->id];
  u128 r;
  switch (e->op) {
    case E_ITE: r = evalM(e->a) ? evalM(e->b) : evalM(e->c); break;
    case E_ZEXT: r = evalM(e->a); break;
    case E_SEXT: r = (u128)sextw(evalM(e->a), e->a->w) & maskw(e->w); break;
    case E_EXTRACT: r = (evalM(e->a) >> (unsigned)e->k) & maskw(e->w); break;
    case E_CONCAT: r = (evalM(e->a) << e->b->w) | evalM(e->b); break;
    default: { u128 x = evalM(e->a), y = evalM(e->b); r = evalop(e->op, e->w, e->a->w, x, y); }
  }
  if (e->id >= mval.size()) { mval.resize(X().count + 4096); mstamp.resize(X().count + 4096, 0); }
  mval[e->id] = r; mstamp[e->id] = stamp; return r;
}

bool Worker::sat(Expr *e, std::vector<u8> *m) {
  if (e->op == E_CONST) { if (e->k && m) *m = model; return e->k != 0; }
  // independence slicing
  VarMask vm = e->vars; static thread_local std::vector<u8> used; used.assign(pc.size(), 0);
  std::vector<u32> key; std::vector<Expr *> cons;
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i] && pc[i]->vars.inter(vm)) { used[i] = 1; if (!pc[i]->vars.subset(vm)) { vm.merge(pc[i]->vars); ch = true; } cons.push_back(pc[i]); key.push_back(pc[i]->id); }
  }
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(e->id);
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    std::vector<std::pair<u64, u64>> ck; QRes q; QShared::R sr;
    auto canon = [&](Expr *c) { Mix m; m.add((u64)c->canon); m.add((u64)(c->canon >> 64)); c->vars.each([&](unsigned v) { m.add(vm.rank(v)); }); u128 h = m.get(); return std::pair<u64, u64>((u64)h, (u64)(h >> 64)); };
    for (Expr *c : cons) ck.push_back(canon(c));
    std::sort(ck.begin(), ck.end()); ck.erase(std::unique(ck.begin(), ck.end()), ck.end()); ck.push_back(canon(e));
    Mix m; for (auto &p : ck) { m.add(p.first); m.add(p.second); }
    u128 h = m.get();
    if (G.q.find(h, sr)) nhits++;
    else {
      double t = nowS(); Solver &S = *Sp;
      S.s.push();
      for (Expr *c : cons) S.s.add(S.tr(c) == S.ctx.bv_val(1, 1));
      S.s.add(S.tr(e) == S.ctx.bv_val(1, 1));
      z3::check_result r = S.s.check(); sr.r = r == z3::sat ? 1 : r == z3::unsat ? 0 : 2;
      if (r == z3::sat) {
        z3::model mo = S.s.get_model();
        vm.each([&](unsigned v) { z3::expr x = mo.eval(S.tr(X().var(v)), true); sr.vals.push_back((u8)x.get_numeral_uint64()); });
      }
      if (getenv("SYMIR_Q")) { static std::mutex mm; std::lock_guard<std::mutex> g(mm); unsigned nv = 0; vm.each([&](unsigned) { nv++; }); fprintf(stderr, "Q vars %u cons %zu r %d %.4f %s :: %s:%u < %s:%u\n", nv, cons.size(), sr.r, nowS()-t, S.tr(e).simplify().to_string().substr(0, 300).c_str(), frames.back().f->name.c_str(), frames.back().pc, frames.size()>1?frames[frames.size()-2].f->name.c_str():"", frames.size()>1?frames[frames.size()-2].pc:0); }
      S.s.pop();
      nq++; qsec += nowS() - t; if (sr.r == 1) nsat++; else if (sr.r == 0) nunsat++; else nunknown++;
      G.q.put(h, sr);
    }
    q.r = sr.r; unsigned i = 0; if (q.r == 1) vm.each([&](unsigned v) { q.vals.push_back({(u16)v, sr.vals[i++]}); });
    it = qcache.emplace(std::move(key), std::move(q)).first;
  } else nhits++;
  if (it->second.r == 2) throw EngineError("solver returned unknown");
  if (it->second.r == 0) return false;
  if (m) { *m = model; for (auto &p : it->second.vals) (*m)[p.first] = p.second; }
  return true;
}

static const bool PROF = getenv("SYMIR_PROF") != nullptr;
static std::mutex profMu; std::map<std::string, u64> profForks;
void Worker::fork(Dec d, const std::vector<u8> &m) {
  if (PROF) {
    std::string key = std::to_string(d.kind);
    int n = 0; for (size_t i = frames.size(); i-- > 0 && n < 4; n++) key += " < " + frames[i].f->name + ":" + std::to_string(frames[i].pc);
    std::lock_guard<std::mutex> g(profMu); profForks[key]++;
  }
  Work w; w.job = job; w.prefix = trace; w.prefix.push_back(d); w.model.assign(m.begin(), m.begin() + std::max<size_t>(nvars, 1));
  { std::lock_guard<std::mutex> g(job->mu); job->pending++; job->forks++; }
  { std::lock_guard<std::mutex> g(G.mu); G.queue.push_back(std::move(w)); }
  G.cv.notify_one();
}

static const Dec &nextDec(const Work *W, size_t &pos, int kind) {
  const Dec &d = W->prefix[pos++];
  if (d.kind != kind) throw EngineError("replay divergence");
  return d;
}

bool Worker::branch(Expr *c) {
  if (c->op == E_CONST) return c->k != 0;
  if (pos < W->prefix.size()) {
    const Dec &d = nextDec(W, pos, D_BR); trace.push_back(d);
    if (!d.forced) addPc(d.v ? c : X().not1(c));
    return d.v;
  }
  bool mv = evalM(c) != 0; Expr *pos_ = mv ? c : X().not1(c), *neg = mv ? X().not1(c) : c;
  std::vector<u8> m2;
  if (sat(neg, &m2)) { fork(Dec{(u64)!mv, D_BR, 0}, m2); trace.push_back(Dec{(u64)mv, D_BR, 0}); addPc(pos_); }
  else trace.push_back(Dec{(u64)mv, D_BR, 1});
  return mv;
}

u64 Worker::concretize(const Val &v, unsigned w) {
  if (!v.e) return v.lo;
  if (pos < W->prefix.size()) {
    const Dec &d = nextDec(W, pos, D_VALUE); trace.push_back(d);
    if (!d.forced) addPc(X().bin(E_EQ, v.e, X().cst(d.v, w)));
    return d.v;
  }
  u64 v0 = (u64)evalM(v.e); Expr *eq0 = X().bin(E_EQ, v.e, X().cst(v0, w)); Expr *ne = X().not1(eq0); int n = 0; std::vector<u8> m2;
  u32 before = stamp; (void)before;
  while (sat(ne, &m2)) {
    std::vector<u8> keep = model; setModel(m2); u64 x = (u64)evalM(v.e); setModel(keep);
    fork(Dec{x, D_VALUE, 0}, m2);
    ne = X().bin(E_AND, ne, X().not1(X().bin(E_EQ, v.e, X().cst(x, w))));
    if (++n > 4096) throw EngineError("concretize: too many values");
  }
  trace.push_back(Dec{v0, D_VALUE, (u8)(n == 0)}); if (n) addPc(eq0);
  return v0;
}

void Worker::assume(const Val &v) {
  if (!v.e) { if (!(v.lo & 1)) throw PathEnd{P_KILLED, ""}; return; }
  Expr *c = v.e;
  if (pos < W->prefix.size()) { const Dec &d = nextDec(W, pos, D_ASSUME); trace.push_back(d); addPc(c); return; }
  if (!evalM(c)) { std::vector<u8> m2; if (!sat(c, &m2)) throw PathEnd{P_KILLED, ""}; setModel(m2); }
  trace.push_back(Dec{1, D_ASSUME, 0}); addPc(c);
}

/// A condition on one variable that the path has already decided becomes a constant
Expr *Worker::decided(Expr *c) {
  if (c->w != 1 || c->op == E_CONST) return c;
  if (c->vars.count() != 1) return c;
  bool mv = evalM(c) != 0;
  return sat(mv ? X().not1(c) : c, nullptr) ? c : X().cst(mv, 1);
}

void Worker::violation(const std::string &msg) { throw PathEnd{P_VIOLATION, msg}; }

// ---------------------------------------------------------------- memory
Region *Worker::region(u64 a, u64 n) {
  if (heap.contains(a, n)) return &heap;
  if (stack.contains(a, n)) return &stack;
  if (glob.contains(a, n)) return &glob;
  return nullptr;
}
Val Worker::load(u64 a, unsigned w) {
  unsigned n = (w + 7) / 8; Region *r = region(a, n);
  if (!r) violation("invalid memory access (load)");
  u64 o = a - r->base;
  if (!r->flag[o >> 8] && !r->flag[(o + n - 1) >> 8]) {
    if (n <= 8) { u64 v = 0; memcpy(&v, r->data + o, n); if (w < 64) v &= (1ull << w) - 1; return cval(v); }
    u128 v = 0; memcpy(&v, r->data + o, n); return cval128(v & maskw(w));
  }
  bool any = false; for (unsigned i = 0; i < n; i++) if (r->sh[o + i]) { any = true; break; }
  if (!any) { u128 v = 0; memcpy(&v, r->data + o, n); return cval128(v & maskw(w)); }
  Expr *acc = nullptr;
  for (int i = (int)n - 1; i >= 0; i--) { Expr *b = r->sh[o + i] ? r->sh[o + i] : X().cst(r->data[o + i], 8); acc = acc ? X().concat(acc, b) : b; }
  if (acc->w != w) acc = X().extract(acc, 0, w);
  return V(acc);
}
void Worker::store(u64 a, unsigned w, const Val &v) {
  unsigned n = (w + 7) / 8; Region *r = region(a, n);
  if (!r || a - r->base < r->writableFrom) violation("invalid memory access (store)");
  u64 o = a - r->base;
  if (!v.e) {
    if (n <= 8) memcpy(r->data + o, &v.lo, n); else { u128 k = vk(v); memcpy(r->data + o, &k, n); }
    if (r->flag[o >> 8] || r->flag[(o + n - 1) >> 8]) memset(r->sh + o, 0, n * 8);
    return;
  }
  Expr *e = v.e; if (w % 8) e = X().zext(e, n * 8);
  r->mark(o); r->mark(o + n - 1);
  for (unsigned i = 0; i < n; i++) { Expr *b = X().extract(e, 8 * i, 8); if (b->op == E_CONST) { r->data[o + i] = (u8)b->k; r->sh[o + i] = nullptr; } else r->sh[o + i] = b; }
}
void Worker::copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  Region *rs = region(s, n), *rd = region(d, n);
  if (!rs || !rd || d - rd->base < rd->writableFrom) violation("invalid memory access (copy)");
  u64 so = s - rs->base, dd = d - rd->base; bool any = false;
  for (u64 p = so >> 8; p <= (so + n - 1) >> 8; p++) if (rs->flag[p]) { any = true; break; }
  bool dany = false;
  for (u64 p = dd >> 8; p <= (dd + n - 1) >> 8; p++) if (rd->flag[p]) { dany = true; break; }
  memmove(rd->data + dd, rs->data + so, n);
  if (any) { for (u64 p = dd >> 8; p <= (dd + n - 1) >> 8; p++) rd->mark(p << 8); memmove(rd->sh + dd, rs->sh + so, n * 8); }
  else if (dany) memset(rd->sh + dd, 0, n * 8);
}
// Blocks are rounded up to a class, and reused once freed. Before a block: its size, and its class (0: not reused).
static u64 classOf(u64 n) {
  if (n <= 1024) return n ? (n + 15) / 16 * 16 : 16;
  u64 step = std::bit_ceil(n) / 8;
  return (n + step - 1) / step * step;
}
u64 Worker::alloc(u64 n, u64 al) {
  if (n > HEAP_SIZE) violation("step bound exceeded (memory)");
  u64 c = classOf(n), p;
  if (al < 16) al = 16;
  auto it = al == 16 ? freed.find(c) : freed.end();
  if (it != freed.end() && !it->second.empty()) {
    p = it->second.back(); it->second.pop_back();
  } else {
    p = (hp + 16 + al - 1) / al * al;
    if (p + c + 64 > HEAP_BASE + HEAP_SIZE) violation("step bound exceeded (memory)");
    hp = p + c;
  }
  if (al != 16) c = 0;
  memcpy(heap.data + (p - 16 - HEAP_BASE), &n, 8); memcpy(heap.data + (p - 8 - HEAP_BASE), &c, 8);
  return p;
}
void Worker::release(u64 p) {
  if (!p) return;
  if (!heap.contains(p, 1)) violation("invalid free");
  u64 o = p - HEAP_BASE, c; memcpy(&c, heap.data + (o - 8), 8);
  if (!c) return;
  for (u64 q = o >> 8; q <= (o + c - 1) >> 8; q++) if (heap.flag[q]) { memset(heap.sh + o, 0, c * 8); break; }
  freed[c].push_back(p);
}
std::string Worker::cstr(u64 p, u64 n) { std::string s; for (u64 i = 0; i < n; i++) { Val v = load(p + i, 8); s += v.e ? '?' : (char)v.lo; } return s; }

// Load through a symbolic address: table lookup in constant memory becomes an if-then-else over the table.
static u64 maybeOnes(Expr *e, int depth = 0) { // bits of e that may be set
  u64 all = e->w >= 64 ? ~0ull : (1ull << e->w) - 1;
  if (e->op == E_CONST) return (u64)e->k & all;
  if (depth > 12 || e->w > 64) return all;
  auto r = [&](Expr *x) { return maybeOnes(x, depth + 1); };
  switch (e->op) {
    case E_ZEXT: return r(e->a);
    case E_AND: return r(e->a) & r(e->b);
    case E_OR: case E_XOR: return (r(e->a) | r(e->b)) & all;
    case E_SHL: return e->b->op == E_CONST && e->b->k < 64 ? (r(e->a) << (unsigned)e->b->k) & all : all;
    case E_LSHR: return e->b->op == E_CONST && e->b->k < 64 ? r(e->a) >> (unsigned)e->b->k : all;
    case E_CONCAT: return e->b->w < 64 ? ((r(e->a) << e->b->w) | r(e->b)) & all : all;
    case E_ITE: return r(e->b) | r(e->c);
    default: return all;
  }
}
Val Worker::loadSym(const Val &p, unsigned w) {
  Expr *x = p.e; u64 ones = 0;
  for (;;) {
    ones = maybeOnes(x); if (ones < 4096) break;
    if ((x->op == E_ADD || x->op == E_MUL || x->op == E_SHL) && x->b->op == E_CONST) x = x->a;
    else if (x->op == E_ZEXT) x = x->a;
    else if (x->op == E_CONCAT && x->b->op == E_CONST) x = x->a;
    else if (x->op == E_CONCAT && x->a->op == E_CONST) x = x->b;
    else { x = nullptr; break; }
  }
  if (x) {
    std::function<u128(Expr *, u128)> ev = [&](Expr *e, u128 k) -> u128 {
      if (e == x) return k; if (e->op == E_CONST) return e->k;
      if (e->op == E_ZEXT) return ev(e->a, k);
      if (e->op == E_CONCAT) return (ev(e->a, k) << e->b->w) | ev(e->b, k);
      return evalop(e->op, e->w, e->a->w, ev(e->a, k), e->b->k);
    };
    std::map<std::pair<u64, u64>, std::vector<unsigned>> byVal; Expr *bad = X().cst(0, 1); unsigned n = (w + 7) / 8; bool ok = true;
    for (unsigned k = 0; k <= ones; k++) {
      if (k & ~ones) continue;
      u64 a = (u64)ev(p.e, k); Region *r = region(a, n);
      if (r != &glob || a - r->base >= glob.writableFrom) { bad = X().bin(E_OR, bad, X().bin(E_EQ, x, X().cst(k, x->w))); continue; }
      Val v = load(a, w); if (v.e) { ok = false; break; } byVal[{v.hi, v.lo}].push_back(k);
    }
    if (ok && !byVal.empty() && !sat(bad, nullptr)) {
      auto best = byVal.begin(); for (auto it = byVal.begin(); it != byVal.end(); ++it) if (it->second.size() > best->second.size()) best = it;
      Expr *r = X().cst(((u128)best->first.first << 64) | best->first.second, w);
      for (auto it = byVal.begin(); it != byVal.end(); ++it) if (it != best) {
        Expr *c = X().cst(0, 1); auto &ks = it->second;
        for (size_t i = 0; i < ks.size();) { size_t j = i; while (j + 1 < ks.size() && ks[j + 1] == ks[j] + 1) j++; Expr *t = i == j ? X().bin(E_EQ, x, X().cst(ks[i], x->w)) : X().bin(E_AND, X().bin(E_ULE, X().cst(ks[i], x->w), x), X().bin(E_ULE, x, X().cst(ks[j], x->w))); c = X().bin(E_OR, c, t); i = j + 1; }
        r = X().ite(c, X().cst(((u128)it->first.first << 64) | it->first.second, w), r);
      }
      return V(r);
    }
  }
  return load(concretize(p, 64), w);
}

// ---------------------------------------------------------------- interpreter
void Worker::pushFrame(Func *f, const Val *args, size_t n, int32_t dst, u16 rn) {
  if (!f->ready.load(std::memory_order_acquire)) M.decode(f);
  if (frames.size() >= G.cfg.maxFrames) violation("call depth bound exceeded");
  Val *fp = frames.empty() ? slots.data() : frames.back().fp + frames.back().f->nslots;
  if (fp + f->nslots + 64 > slots.data() + slots.size()) violation("call depth bound exceeded (registers)");
  fnSeen[(f->addr - FUNC_BASE) / 16] = 1;
  for (size_t i = 0; i < n; i++) fp[i] = args[i];
  frames.push_back(Frame{f, 0, fp, spv, dst, rn});
}

static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }

void Worker::interpret(Func *entry) {
  pushFrame(entry, nullptr, 0, -1, 0);
  std::vector<Val> tmp;
  Frame *fr = &frames.back();
  const Inst *code = fr->f->code.data();
#define GOTO(ed) do { const Edge &e_ = fr->f->edges[ed]; if (!e_.copies.empty()) { tmp.clear(); for (auto &c : e_.copies) for (unsigned k = 0; k < c.n; k++) tmp.push_back(get(*fr, c.src, k)); size_t q = 0; for (auto &c : e_.copies) for (unsigned k = 0; k < c.n; k++) fr->fp[c.dst + k] = tmp[q++]; } fr->pc = e_.target; } while (0)
  for (;;) {
    const Inst &i = code[fr->pc++];
    if ((++steps & 0xffff) == 0) {
      if (steps > G.cfg.maxSteps) violation("step bound exceeded (no termination within the bound)");
      if (G.stop) throw PathEnd{P_STOP, ""};
    }
    switch (i.op) {
      case I_BIN: {
        for (unsigned k = 0; k < i.n; k++) {
          Val a = get(*fr, i.a, k), b = get(*fr, i.b, k); Val &d = fr->fp[i.dst + k];
          if (!a.e && !b.e) {
            if (i.w <= 64) {
              u64 x = a.lo, y = b.lo, r;
              switch (i.sub) {
                case E_ADD: r = x + y; break; case E_SUB: r = x - y; break; case E_MUL: r = x * y; break;
                case E_AND: r = x & y; break; case E_OR: r = x | y; break; case E_XOR: r = x ^ y; break;
                case E_SHL: r = y >= i.w ? 0 : x << y; break; case E_LSHR: r = y >= i.w ? 0 : x >> y; break;
                default: if ((i.sub == E_UDIV || i.sub == E_UREM || i.sub == E_SDIV || i.sub == E_SREM) && !y) violation("division by zero"); r = (u64)evalop((EOp)i.sub, i.w, i.w, x, y);
              }
              d = cval(r & m64(i.w));
            } else { if ((i.sub == E_UDIV || i.sub == E_UREM || i.sub == E_SDIV || i.sub == E_SREM) && !vk(b)) violation("division by zero"); d = cval128(evalop((EOp)i.sub, i.w, i.w, vk(a), vk(b))); }
          } else d = V(X().bin((EOp)i.sub, E(a, i.w), E(b, i.w)));
        }
        break;
      }
      case I_ICMP: {
        for (unsigned k = 0; k < i.n; k++) {
          Val a = get(*fr, i.a, k), b = get(*fr, i.b, k); Val &d = fr->fp[i.dst + k];
          if (!a.e && !b.e) {
            bool r;
            if (i.w <= 64) {
              switch (i.sub) {
                case E_EQ: r = a.lo == b.lo; break; case E_ULT: r = a.lo < b.lo; break; case E_ULE: r = a.lo <= b.lo; break;
                default: { int64_t x = (int64_t)(a.lo << (64 - i.w)), y = (int64_t)(b.lo << (64 - i.w)); r = i.sub == E_SLT ? x < y : x <= y; }
              }
            } else r = evalop((EOp)i.sub, 1, i.w, vk(a), vk(b)) != 0;
            d = cval(r ^ i.x);
          } else { Expr *e = X().bin((EOp)i.sub, E(a, i.w), E(b, i.w)); if (i.x) e = X().not1(e); d = V(e); }
        }
        break;
      }
      case I_SELECT: {
        const MemInfo &m = fr->f->mems[i.y];
        tmp.clear();
        for (unsigned k = 0; k < i.n; k++) {
          Val c = get(*fr, i.c, i.w2 ? k : 0);
          if (c.e) c = V(decided(c.e));
          if (!c.e) tmp.push_back(get(*fr, (c.lo & 1) ? i.a : i.b, k));
          else { unsigned w = m.leaves[k].w; tmp.push_back(V(X().ite(c.e, E(get(*fr, i.a, k), w), E(get(*fr, i.b, k), w)))); }
        }
        for (unsigned k = 0; k < i.n; k++) fr->fp[i.dst + k] = tmp[k];
        break;
      }
      case I_ZEXT: for (unsigned k = 0; k < i.n; k++) { Val a = get(*fr, i.a, k); fr->fp[i.dst + k] = a.e ? V(X().zext(decided(a.e), i.w2)) : a; } break;
      case I_SEXT: for (unsigned k = 0; k < i.n; k++) { Val a = get(*fr, i.a, k); fr->fp[i.dst + k] = a.e ? V(X().sext(a.e, i.w2)) : cval128((u128)sextw(vk(a), i.w) & maskw(i.w2)); } break;
      case I_TRUNC: for (unsigned k = 0; k < i.n; k++) { Val a = get(*fr, i.a, k); fr->fp[i.dst + k] = a.e ? V(X().extract(a.e, 0, i.w2)) : cval128(vk(a) & maskw(i.w2)); } break;
      case I_COPY: for (unsigned k = 0; k < i.n; k++) fr->fp[i.dst + k] = get(*fr, i.a, k); break;
      case I_BITCAST: {
        if ((unsigned)i.n * i.w > 128) throw EngineError("wide bitcast");
        bool sym = false; for (unsigned k = 0; k < i.n; k++) if (get(*fr, i.a, k).e) sym = true;
        if (!sym) { u128 v = 0; for (unsigned k = 0; k < i.n; k++) v |= vk(get(*fr, i.a, k)) << (k * i.w); for (unsigned k = 0; k < i.x; k++) fr->fp[i.dst + k] = cval128((v >> (k * i.w2)) & maskw(i.w2)); }
        else { Expr *acc = nullptr; for (int k = i.n - 1; k >= 0; k--) { Expr *b = E(get(*fr, i.a, k), i.w); acc = acc ? X().concat(acc, b) : b; } for (unsigned k = 0; k < i.x; k++) fr->fp[i.dst + k] = V(X().extract(acc, k * i.w2, i.w2)); }
        break;
      }
      case I_ALLOCA: {
        u64 n = concretize(get(*fr, i.a), 64) * i.x; u64 al = std::max<u64>(i.y, 1); spv = (spv + al - 1) / al * al; fr->fp[i.dst] = cval(spv); spv += n;
        if (spv + 4096 > STACK_BASE + STACK_SIZE) violation("stack bound exceeded");
        if (spv - STACK_BASE > stack.hi) stack.hi = spv - STACK_BASE;
        break;
      }
      case I_LOAD: {
        Val p = get(*fr, i.a);
        if (!p.e) {
          if (i.n == 1) fr->fp[i.dst] = load(p.lo, i.w);
          else { const MemInfo &m = fr->f->mems[i.x]; for (unsigned k = 0; k < i.n; k++) fr->fp[i.dst + k] = load(p.lo + m.leaves[k].off, m.leaves[k].w); }
        } else {
          const MemInfo &m = fr->f->mems[i.x];
          if (i.n == 1) fr->fp[i.dst] = loadSym(p, i.w);
          else { u64 a = concretize(p, 64); for (unsigned k = 0; k < i.n; k++) fr->fp[i.dst + k] = load(a + m.leaves[k].off, m.leaves[k].w); }
        }
        break;
      }
      case I_STORE: {
        u64 a = concretize(get(*fr, i.a), 64);
        if (i.n == 1) store(a, i.w, get(*fr, i.b));
        else { const MemInfo &m = fr->f->mems[i.x]; for (unsigned k = 0; k < i.n; k++) store(a + m.leaves[k].off, m.leaves[k].w, get(*fr, i.b, k)); }
        break;
      }
      case I_GEP: {
        const GepInfo &g = fr->f->geps[i.x]; Val p = get(*fr, i.a); u64 c = (u64)g.off; Expr *e = p.e; if (!e) c += p.lo;
        for (size_t k = 0; k < g.terms.size(); k++) {
          Val v = get(*fr, g.terms[k].first); unsigned w = g.widths[k];
          if (!v.e) { u64 x = w >= 64 ? v.lo : (u64)sextw(v.lo, w); c += x * (u64)g.terms[k].second; }
          else { Expr *t = w < 64 ? X().sext(v.e, 64) : w > 64 ? X().extract(v.e, 0, 64) : v.e; t = X().bin(E_MUL, t, X().cst((u64)g.terms[k].second, 64)); e = e ? X().bin(E_ADD, e, t) : t; }
        }
        if (!e) fr->fp[i.dst] = cval(c); else fr->fp[i.dst] = V(X().bin(E_ADD, e, X().cst(c, 64)));
        break;
      }
      case I_BR: GOTO(i.x); break;
      case I_CONDBR: { Val c = get(*fr, i.a); bool t = c.e ? branch(c.e) : (c.lo & 1); GOTO(t ? i.x : i.y); break; }
      case I_SWITCH: {
        const SwitchInfo &s = fr->f->switches[i.x]; Val v = get(*fr, i.a);
        if (!v.e) { u32 ed = s.def; if (s.w <= 64) { auto it = s.fast.find(v.lo); if (it != s.fast.end()) ed = it->second; } else for (auto &c : s.cases) if (c.first == vk(v)) { ed = c.second; break; } GOTO(ed); break; }
        if (pos < W->prefix.size()) {
          const Dec &d = nextDec(W, pos, D_SWITCH); trace.push_back(d);
          if (!d.forced) {
            Expr *c = X().cst(0, 1), *nc = X().cst(1, 1);
            for (auto &k : s.cases) { Expr *q = X().bin(E_EQ, v.e, X().cst(k.first, s.w)); if (k.second == d.v) c = X().bin(E_OR, c, q); else if (d.v == s.def) nc = X().bin(E_AND, nc, X().not1(q)); }
            addPc(d.v == s.def ? nc : c);
          }
          GOTO((u32)d.v); break;
        }
        std::vector<u32> order; std::unordered_map<u32, Expr *> cond; Expr *dc = X().cst(1, 1);
        for (auto &k : s.cases) { Expr *q = X().bin(E_EQ, v.e, X().cst(k.first, s.w)); if (k.second != s.def) dc = X().bin(E_AND, dc, X().not1(q)); auto it = cond.find(k.second); if (it == cond.end()) { cond[k.second] = q; order.push_back(k.second); } else it->second = X().bin(E_OR, it->second, q); }
        // the default target keeps "none of the cases that leave to another block"
        if (!cond.count(s.def)) order.push_back(s.def); cond[s.def] = dc;
        u64 mv = (u64)evalM(v.e); u32 ch = s.def; { auto it = s.fast.find(mv); if (it != s.fast.end()) ch = it->second; }
        int others = 0; std::vector<u8> m2;
        for (u32 o : order) if (o != ch && sat(cond[o], &m2)) { others++; fork(Dec{o, D_SWITCH, 0}, m2); }
        trace.push_back(Dec{ch, D_SWITCH, (u8)(others == 0)}); if (others) addPc(cond[ch]);
        GOTO(ch); break;
      }
      case I_RET: {
        Frame me = *fr; tmp.clear(); for (unsigned k = 0; k < i.n; k++) tmp.push_back(get(me, i.a, k));
        spv = me.sp; frames.pop_back();
        if (frames.empty()) return;
        fr = &frames.back(); code = fr->f->code.data();
        if (me.dst >= 0) for (unsigned k = 0; k < i.n; k++) fr->fp[me.dst + k] = tmp[k];
        break;
      }
      case I_CALL: {
        const CallInfo &ci = fr->f->calls[i.x]; bool pushed = false;
        doCall(ci, *fr, i.dst, pushed);
        if (pushed) { fr = &frames.back(); code = fr->f->code.data(); }
        break;
      }
      case I_UNREACHABLE: violation("unreachable code reached");
      case I_EXTRACTVALUE: for (unsigned k = 0; k < i.n; k++) fr->fp[i.dst + k] = get(*fr, i.a, i.x + k); break;
      case I_INSERTVALUE: {
        tmp.clear(); for (unsigned k = 0; k < i.n; k++) tmp.push_back(k >= i.x && k < i.x + i.y ? get(*fr, i.b, k - i.x) : get(*fr, i.a, k));
        for (unsigned k = 0; k < i.n; k++) fr->fp[i.dst + k] = tmp[k];
        break;
      }
      case I_EXTRACTELT: { u64 k = concretize(get(*fr, i.b), 64); fr->fp[i.dst] = k < i.n ? get(*fr, i.a, (unsigned)k) : cval(0); break; }
      case I_INSERTELT: {
        u64 x = concretize(get(*fr, i.c), 64); tmp.clear(); for (unsigned k = 0; k < i.n; k++) tmp.push_back(k == x ? get(*fr, i.b) : get(*fr, i.a, k));
        for (unsigned k = 0; k < i.n; k++) fr->fp[i.dst + k] = tmp[k];
        break;
      }
      case I_SHUFFLE: {
        auto &ix = fr->f->lists[i.x]; tmp.clear();
        for (int x : ix) tmp.push_back((unsigned)x < i.n ? get(*fr, i.a, x) : (unsigned)x < 2u * i.n ? get(*fr, i.b, x - i.n) : cval(0));
        for (size_t k = 0; k < tmp.size(); k++) fr->fp[i.dst + k] = tmp[k];
        break;
      }
      case I_ATOMICRMW: {
        u64 a = concretize(get(*fr, i.a), 64); Val old = load(a, i.w), v = get(*fr, i.b), nv = v; auto b = [&](EOp o) { return V(X().bin(o, E(old, i.w), E(v, i.w))); };
        switch (i.sub) { case R_XCHG: break; case R_ADD: nv = b(E_ADD); break; case R_SUB: nv = b(E_SUB); break; case R_AND: nv = b(E_AND); break; case R_OR: nv = b(E_OR); break; case R_XOR: nv = b(E_XOR); break; default: throw EngineError("atomicrmw"); }
        store(a, i.w, nv); if (i.dst >= 0) fr->fp[i.dst] = old; break;
      }
      case I_CMPXCHG: {
        u64 a = concretize(get(*fr, i.a), 64); Val old = load(a, i.w), c = get(*fr, i.b); Expr *eq = X().bin(E_EQ, E(old, i.w), E(c, i.w)); bool t = branch(eq);
        if (t) store(a, i.w, get(*fr, i.c)); fr->fp[i.dst] = old; fr->fp[i.dst + 1] = cval(t); break;
      }
      case I_NOP: break;
      case I_UNSUPPORTED: throw EngineError("unsupported instruction in " + fr->f->name + ": " + fr->f->msgs[i.x]);
    }
  }
}

void Worker::doCall(const CallInfo &ci, Frame &fr, int32_t dst, bool &pushed) {
  Func *f = ci.callee;
  if (!f) {
    u64 a = concretize(get(fr, ci.fp), 64); u64 ix = (a - FUNC_BASE) / 16;
    if (a < FUNC_BASE || ix >= M.funcList.size()) violation("call through an invalid function pointer");
    f = M.funcList[ix];
  }
  if (f->builtin) {
    if (f->builtin == B_PANIC) violation("panic: " + f->name);
    if (f->builtin == B_UNKNOWN) throw EngineError("call of unmodelled external " + f->name);
    builtin(f->builtin, ci, fr, dst); return;
  }
  Val args[64]; size_t n = 0;
  for (auto &a : ci.args) for (unsigned k = 0; k < a.second; k++) { if (n >= 64) throw EngineError("too many argument leaves"); args[n++] = get(fr, a.first, k); }
  pushFrame(f, args, n, dst, ci.retn); pushed = true;
}

bool Worker::builtin(int b, const CallInfo &ci, Frame &fr, int32_t dst) {
  auto A = [&](unsigned i, unsigned k = 0) { return get(fr, ci.args[i].first, k); };
  auto C = [&](unsigned i) { return concretize(A(i), ci.argw[i]); };
  auto R = [&](const Val &v, unsigned k = 0) { if (dst >= 0) fr.fp[dst + k] = v; };
  unsigned n = std::max<unsigned>(1, ci.retn), w = ci.retw;
  switch (b) {
    case B_NOP: return true;
    case B_RET0: for (unsigned k = 0; k < n; k++) R(cval(0), k); return true;
    case B_RETARG0: for (unsigned k = 0; k < n; k++) R(A(0, k), k); return true;
    case B_MALLOC: R(cval(alloc(C(0), 16))); return true;
    case B_CALLOC: { u64 a = C(0), c = C(1), q = alloc(a * c, 16); memset(heap.data + (q - HEAP_BASE), 0, a * c); R(cval(q)); return true; }
    case B_ALIGNED_ALLOC: { u64 a = C(0), c = C(1); R(cval(alloc(c, a))); return true; }
    case B_MEMALIGN: { u64 p = C(0), al = C(1), s = C(2); store(p, 64, cval(alloc(s, al))); R(cval(0)); return true; }
    case B_REALLOC: {
      u64 p = C(0), s = C(1), old = 0, c = 0;
      if (p) { memcpy(&old, heap.data + (p - 16 - HEAP_BASE), 8); memcpy(&c, heap.data + (p - 8 - HEAP_BASE), 8); }
      if (p && s <= c) { memcpy(heap.data + (p - 16 - HEAP_BASE), &s, 8); R(cval(p)); return true; }
      u64 q = alloc(s, 16);
      if (p) { copyMem(q, p, std::min(old, s)); release(p); }
      R(cval(q)); return true;
    }
    case B_FREE: release(C(0)); return true;
    case B_MEMCPY: { u64 d = C(0), s = C(1), c = C(2); copyMem(d, s, c); return true; }
    case B_MEMCPY_RET: { u64 d = C(0), s = C(1), c = C(2); copyMem(d, s, c); R(cval(d)); return true; }
    case B_MEMSET: case B_MEMSET_RET: {
      u64 d = C(0), c = C(2); Val v = A(1); if (ci.argw[1] != 8) v = v.e ? V(X().extract(v.e, 0, 8)) : cval(v.lo & 255);
      if (!v.e && c) { Region *r = region(d, c); if (!r || d - r->base < r->writableFrom) violation("invalid memory access (memset)"); u64 o = d - r->base; memset(r->data + o, (int)v.lo, c); bool any = false; for (u64 p = o >> 8; p <= (o + c - 1) >> 8; p++) any |= r->flag[p]; if (any) memset(r->sh + o, 0, c * 8); }
      else for (u64 k = 0; k < c; k++) store(d + k, 8, v);
      if (b == B_MEMSET_RET) R(cval(d)); return true;
    }
    case B_BCMP: case B_MEMCMP: {
      u64 p = C(0), q = C(1), c = C(2);
      Expr *ne = X().cst(0, 1); std::vector<std::pair<Expr *, Expr *>> ps; bool decided = false; int res = 0;
      for (u64 k = 0; k < c; k++) {
        Val x = load(p + k, 8), y = load(q + k, 8);
        if (!x.e && !y.e) { if (x.lo == y.lo) continue; if (b == B_BCMP || ps.empty()) { decided = true; res = x.lo < y.lo ? -1 : 1; break; } ps.push_back({E(x, 8), E(y, 8)}); break; }
        if (x.e == y.e) continue;
        ps.push_back({E(x, 8), E(y, 8)});
      }
      if (decided) { R(cval((u32)(b == B_BCMP ? 1 : res))); return true; }
      if (b == B_BCMP) { for (auto &z : ps) ne = X().bin(E_OR, ne, X().not1(X().bin(E_EQ, z.first, z.second))); R(V(X().zext(ne, 32))); }
      else { Expr *r = X().cst(0, 32); for (size_t k = ps.size(); k-- > 0;) r = X().ite(X().bin(E_EQ, ps[k].first, ps[k].second), r, X().ite(X().bin(E_ULT, ps[k].first, ps[k].second), X().cst((u32)-1, 32), X().cst(1, 32))); R(V(r)); }
      return true;
    }
    case B_STRLEN: { u64 p = C(0), k = 0; while (concretize(load(p + k, 8), 8)) k++; R(cval(k)); return true; }
    case B_UMAX: case B_UMIN: case B_SMAX: case B_SMIN:
      for (unsigned k = 0; k < n; k++) { Val x = A(0, k), y = A(1, k); EOp o = (b == B_UMAX || b == B_UMIN) ? E_ULT : E_SLT; bool mx = b == B_UMAX || b == B_SMAX;
        if (!x.e && !y.e) { bool lt = evalop(o, 1, w, vk(x), vk(y)); R((lt ^ mx) ? x : y, k); }
        else { Expr *c = X().bin(o, E(x, w), E(y, w)); R(V(mx ? X().ite(c, E(y, w), E(x, w)) : X().ite(c, E(x, w), E(y, w))), k); } }
      return true;
    case B_USUBSAT: for (unsigned k = 0; k < n; k++) { Expr *x = E(A(0, k), w), *y = E(A(1, k), w); R(V(X().ite(X().bin(E_ULT, x, y), X().cst(0, w), X().bin(E_SUB, x, y))), k); } return true;
    case B_UADDSAT: for (unsigned k = 0; k < n; k++) { Expr *x = E(A(0, k), w), *y = E(A(1, k), w); Expr *s = X().bin(E_ADD, x, y); R(V(X().ite(X().bin(E_ULT, s, x), X().cst(maskw(w), w), s)), k); } return true;
    case B_ABS: for (unsigned k = 0; k < n; k++) { Expr *x = E(A(0, k), w); R(V(X().ite(X().bin(E_SLT, x, X().cst(0, w)), X().bin(E_SUB, X().cst(0, w), x), x)), k); } return true;
    case B_CTPOP: for (unsigned k = 0; k < n; k++) { Val x = A(0, k); if (!x.e) { R(cval(__builtin_popcountll(x.lo) + __builtin_popcountll(x.hi)), k); continue; } Expr *s = X().cst(0, w); for (unsigned j = 0; j < w; j++) s = X().bin(E_ADD, s, X().zext(X().extract(x.e, j, 1), w)); R(V(s), k); } return true;
    case B_CTLZ: case B_CTTZ: for (unsigned k = 0; k < n; k++) {
      Val x = A(0, k);
      if (!x.e) { u128 v = vk(x); unsigned c = 0; if (b == B_CTTZ) while (c < w && !((v >> c) & 1)) c++; else while (c < w && !((v >> (w - 1 - c)) & 1)) c++; R(cval(c), k); continue; }
      Expr *r = X().cst(w, w); for (unsigned j = 0; j < w; j++) { unsigned bit = b == B_CTTZ ? w - 1 - j : j; unsigned val = b == B_CTTZ ? bit : w - 1 - bit; r = X().ite(X().extract(x.e, bit, 1), X().cst(val, w), r); } R(V(r), k);
    } return true;
    case B_BSWAP: for (unsigned k = 0; k < n; k++) { Expr *x = E(A(0, k), w), *r = nullptr; for (unsigned j = 0; j < w / 8; j++) { Expr *y = X().extract(x, 8 * j, 8); r = r ? X().concat(r, y) : y; } R(V(r), k); } return true;
    case B_BITREVERSE: for (unsigned k = 0; k < n; k++) { Expr *x = E(A(0, k), w), *r = nullptr; for (unsigned j = 0; j < w; j++) { Expr *y = X().extract(x, j, 1); r = r ? X().concat(r, y) : y; } R(V(r), k); } return true;
    case B_FSHL: case B_FSHR: for (unsigned k = 0; k < n; k++) {
      Expr *x = E(A(0, k), w), *y = E(A(1, k), w); u64 s = concretize(A(2, k), w) % w;
      if (b == B_FSHR) s = s ? w - s : 0; else if (s == 0) { R(V(x), k); continue; }
      if (s == 0) { R(V(b == B_FSHL ? x : y), k); continue; }
      R(V(X().concat(X().extract(x, 0, w - (unsigned)s), X().extract(y, w - (unsigned)s, (unsigned)s))), k);
    } return true;
    case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
      unsigned m = ci.args[0].second, ww = ci.argw[0];
      for (unsigned k = 0; k < m; k++) {
        Expr *x = E(A(0, k), ww), *y = E(A(1, k), ww), *r, *o;
        if (b == B_UADDO) { r = X().bin(E_ADD, x, y); o = ww < 128 && x->hi + y->hi <= maskw(ww) ? X().cst(0, 1) : X().bin(E_ULT, r, x); }
        else if (b == B_UMULO && ww <= 64 && x->hi * y->hi <= maskw(ww)) { r = X().bin(E_MUL, x, y); o = X().cst(0, 1); }
        else if (b == B_USUBO) { r = X().bin(E_SUB, x, y); o = X().bin(E_ULT, x, y); }
        else {
          if (ww > 64) throw EngineError("wide overflow op"); unsigned W2 = ww * 2; bool sg = b != B_UMULO; EOp op = b == B_SADDO ? E_ADD : b == B_SSUBO ? E_SUB : E_MUL;
          Expr *xx = sg ? X().sext(x, W2) : X().zext(x, W2), *yy = sg ? X().sext(y, W2) : X().zext(y, W2), *rr = X().bin(op, xx, yy);
          r = X().bin(op, x, y); o = X().not1(X().bin(E_EQ, rr, sg ? X().sext(r, W2) : X().zext(r, W2)));
        }
        R(V(r), k); R(V(o), m + k);
      }
      return true;
    }
    case B_UCMP: case B_SCMP: { unsigned aw = ci.argw[0]; for (unsigned k = 0; k < n; k++) { Expr *x = E(A(0, k), aw), *y = E(A(1, k), aw); Expr *lt = X().bin(b == B_UCMP ? E_ULT : E_SLT, x, y); R(V(X().ite(lt, X().cst(maskw(w), w), X().ite(X().bin(E_EQ, x, y), X().cst(0, w), X().cst(1, w)))), k); } return true; }
    case B_LOADREL: { u64 p = C(0), o = C(1); Val v = load(p + o, 32); R(cval(p + (u64)(int64_t)(int32_t)(u32)concretize(v, 32))); return true; }
    case B_REDUCE_ADD: case B_REDUCE_OR: case B_REDUCE_AND: case B_REDUCE_UMAX: {
      unsigned m = ci.args[0].second; Expr *r = E(A(0, 0), w);
      for (unsigned k = 1; k < m; k++) { Expr *y = E(A(0, k), w); if (b == B_REDUCE_UMAX) r = X().ite(X().bin(E_ULT, r, y), y, r); else r = X().bin(b == B_REDUCE_ADD ? E_ADD : b == B_REDUCE_OR ? E_OR : E_AND, r, y); }
      R(V(r)); return true;
    }
    case B_HASHKEYS: R(cval(0x0123456789abcdefull), 0); R(cval(0xfedcba9876543210ull), 1); return true;
    case B_SYM_BYTES: {
      u64 p = C(0), c = C(1); if (nvars + c > (u64)MAXVARS) throw EngineError("too many symbolic bytes");
      Region *r = region(p, c); if (c && !r) violation("sym_bytes");
      for (u64 k = 0; k < c; k++) store(p + k, 8, Val{0, 0, X().var(nvars + (unsigned)k)});
      nvars += (unsigned)c; return true;
    }
    case B_SYM_ASSUME: { Val v = A(0); if (v.e && v.e->w != 1) v.e = X().extract(v.e, 0, 1); if (v.e && v.e->op == E_CONST) v = cval((u64)v.e->k); assume(v); return true; }
    case B_SYM_FAIL: { u64 p = C(0), c = C(1); violation("assert: " + cstr(p, c)); }
    case B_SYM_COVER: covers.push_back((int)C(0)); return true;
    case B_SYM_CONCRETIZE: R(cval(C(0))); return true;
    case B_SYM_TEMPLATE: { u64 p = C(0), c = C(1); const std::string &t = job->tmpl; for (size_t k = 0; k < t.size() && k < c; k++) store(p + k, 8, cval((u8)t[k])); R(cval(t.size())); return true; }
    case B_SYM_OUT: { u64 p = C(0), c = C(1); for (u64 k = 0; k < c; k++) { Val v = load(p + k, 8); out.push_back({v.e, (u8)v.lo}); } return true; }
    default: throw EngineError("builtin " + std::to_string(b));
  }
}

void Worker::runPath(const Work &w) {
  // reset
  glob.clearShadow(); stack.clearShadow(); heap.clearShadow();
  if (X().count > 3000000) newCtx();
  memcpy(glob.data + glob.writableFrom, M.gdata.data() + glob.writableFrom, M.gdata.size() - glob.writableFrom);
  memset(stack.data, 0, stack.hi); stack.hi = 0;
  if (hp > HEAP_BASE + (16ull << 20)) { madvise(heap.data, hp - HEAP_BASE, MADV_DONTNEED); madvise(heap.sh, (hp - HEAP_BASE) * 8, MADV_DONTNEED); }
  else if (hp > HEAP_BASE) memset(heap.data, 0, hp - HEAP_BASE);
  hp = HEAP_BASE + 64; for (auto &x : freed) x.second.clear(); spv = STACK_BASE + 64;
  job = w.job; W = &w; pos = 0; trace.clear(); pc.clear(); nvars = 0; frames.clear(); steps = 0; covers.clear(); out.clear();
  std::vector<u8> m(MAXVARS, 0); std::copy(w.model.begin(), w.model.end(), m.begin()); setModel(m);
  if (stamp > 0xf0000000u) { mstamp.assign(mstamp.size(), 0); stamp = 1; }
  int kind = P_DONE; std::string msg;
  try {
    auto it = M.funcs.find(job->entry); if (it == M.funcs.end() || !it->second->defined) throw EngineError("no entry " + job->entry);
    interpret(it->second);
    if (pos < w.prefix.size()) throw EngineError("replay divergence (short run)");
  } catch (PathEnd &e) { kind = e.kind; msg = e.msg; }
  std::lock_guard<std::mutex> g(job->mu);
  if (kind == P_STOP) { job->timeout = true; return; }
  job->steps += steps; job->maxSteps = std::max(job->maxSteps, steps); job->maxCons = std::max<u64>(job->maxCons, pc.size()); job->constraints += pc.size();
  if (kind == P_KILLED) { job->killed++; return; }
  job->paths++;
  std::set<int> cs(covers.begin(), covers.end());
  for (int c : cs) job->covers[c]++;
  std::vector<u8> mm(model.begin(), model.begin() + nvars);
  if (kind == P_VIOLATION) {
    std::string key = msg; std::vector<std::string> st;
    for (size_t i = frames.size(); i-- > 0;) { st.push_back(frames[i].f->name); }
    for (auto &s : st) if (s.find("latex_ast") != std::string::npos) { key += "@" + s; break; }
    if (job->violKeys.insert(key).second) {
      job->viols.push_back(Violation{msg, mm, st, {}});
      if (msg.compare(0, 10, "step bound") != 0 && ++G.bad >= G.cfg.enough) { G.stop = true; G.cv.notify_all(); }
    }
    if (job->viols.size() >= G.cfg.maxViol) job->stopped = true;
    return;
  }
  u64 h = job->paths * 0x9E3779B97F4A7C15ull + G.cfg.seed * 0xff51afd7ed558ccdull; h ^= h >> 29; 
  if (job->samples.size() < G.cfg.maxSamples && (job->paths <= 2 || h % G.cfg.sampleEvery == 0)) {
    Sample s; s.model = mm; s.covers.assign(cs.begin(), cs.end()); s.constraints = pc.size();
    for (auto &o : out) s.out += (char)(o.first ? (u8)evalM(o.first) : o.second);
    job->samples.push_back(s);
  }
}

void Worker::loop() {
  for (;;) {
    Work w;
    {
      std::unique_lock<std::mutex> g(G.mu);
      for (;;) {
        if (G.stop) return;
        if (!G.queue.empty()) { w = std::move(G.queue.back()); G.queue.pop_back(); break; }
        if (!G.waiting.empty()) { Job *j = G.waiting.front(); G.waiting.pop_front(); j->t0 = nowS(); j->pending = 1; w.job = j; break; }
        if (G.running == 0) { G.cv.notify_all(); return; }
        G.cv.wait_for(g, std::chrono::milliseconds(50));
      }
      G.running++;
    }
    bool skip; { std::lock_guard<std::mutex> g(w.job->mu); skip = w.job->stopped || !w.job->error.empty(); }
    if (!skip) {
      try { runPath(w); }
      catch (EngineError &e) { std::lock_guard<std::mutex> g(w.job->mu); if (w.job->error.empty()) w.job->error = e.what(); }
      catch (z3::exception &e) { std::lock_guard<std::mutex> g(w.job->mu); if (w.job->error.empty()) w.job->error = std::string("z3: ") + e.msg(); }
    }
    { std::lock_guard<std::mutex> g(w.job->mu); if (--w.job->pending == 0) w.job->t1 = nowS(); }
    { std::lock_guard<std::mutex> g(G.mu); G.running--; if (G.cfg.deadline && nowS() > G.cfg.deadline) { G.stop = true; } if (G.stop || G.running == 0) G.cv.notify_all(); }
  }
}
