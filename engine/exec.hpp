// Symbolic interpreter: one Worker per thread, exploring paths by re-execution from a decision prefix.
#pragma once
#include "module.hpp"
#include <chrono>
#include <atomic>
#include <condition_variable>
#include <set>
#include <sys/mman.h>
#include <thread>

enum Builtin {
  B_NONE = 0, B_MALLOC, B_CALLOC, B_REALLOC, B_MEMALIGN, B_ALIGNED_ALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_BCMP, B_MEMCMP,
  B_STRLEN, B_MEMCPY_RET, B_MEMSET_RET, B_NOP, B_RET0, B_RETARG0, B_UMAX, B_UMIN, B_SMAX, B_SMIN, B_USUBSAT, B_UADDSAT, B_ABS,
  B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_BITREVERSE, B_FSHL, B_FSHR, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO,
  B_UCMP, B_SCMP, B_LOADREL, B_REDUCE_ADD, B_REDUCE_OR, B_REDUCE_AND, B_REDUCE_UMAX, B_TRAP, B_HASHKEYS,
  B_SYM_BYTES, B_SYM_ASSUME, B_SYM_FAIL, B_SYM_COVER, B_SYM_CONCRETIZE, B_SYM_TEMPLATE, B_SYM_OUT, B_PANIC, B_UNKNOWN
};

struct Dec { u64 v; u8 kind; u8 forced; };
enum { D_BR = 1, D_SWITCH, D_VALUE, D_ASSUME };

struct PathEnd { int kind; std::string msg; };
enum { P_DONE = 0, P_KILLED, P_VIOLATION, P_STOP };

struct Violation { std::string msg; std::vector<u8> model; std::vector<std::string> stack; std::vector<std::string> pcs; };
struct Sample { std::vector<u8> model; std::string out; std::vector<int> covers; u64 constraints; };

struct Job {
  std::string id, entry, tmpl; int group = 0;
  std::mutex mu;
  u64 pending = 0;                 // items queued or running
  u64 paths = 0, killed = 0, steps = 0, forks = 0, branches = 0, constraints = 0, maxSteps = 0, maxCons = 0;
  bool stopped = false, timeout = false; std::string error;
  std::vector<Violation> viols; std::set<std::string> violKeys;
  std::map<int, u64> covers;
  std::vector<Sample> samples;
  double t0 = -1, t1 = 0;
};

struct Work { Job *job; std::vector<Dec> prefix; std::vector<u8> model; };

struct Config {
  u64 maxSteps = 30000000; u32 maxFrames = 6000; u64 maxSamples = 6; u64 maxViol = 4; u64 enough = ~0ull; u64 seed = 1; double deadline = 0; u64 sampleEvery = 997;
};

double nowS();

/// Results of queries up to the names of the variables, shared by the workers
struct QShared {
  struct R { int r; std::vector<u8> vals; };
  struct Shard { std::mutex mu; std::unordered_map<u64, std::pair<u64, R>> m; };
  Shard shards[64];
  bool find(u128 k, R &r) { Shard &s = shards[(u64)k & 63]; std::lock_guard<std::mutex> g(s.mu); auto it = s.m.find((u64)(k >> 64)); if (it == s.m.end() || it->second.first != (u64)k) return false; r = it->second.second; return true; }
  void put(u128 k, const R &r) { Shard &s = shards[(u64)k & 63]; std::lock_guard<std::mutex> g(s.mu); s.m[(u64)(k >> 64)] = {(u64)k, r}; }
};

struct Shared {
  QShared q;
  Module &M; Config cfg;
  std::mutex mu; std::condition_variable cv;
  std::deque<Work> queue; u64 running = 0; bool stop = false; std::atomic<u64> bad{0}; // violations so far
  std::deque<Job *> waiting; // jobs not started
  Shared(Module &m) : M(m) {}
};

struct Region {
  u64 base = 0, size = 0, hi = 0; u8 *data = nullptr; Expr **sh = nullptr; std::vector<u8> flag; std::vector<u32> flagged; u64 writableFrom = 0;
  void init(u64 b, u64 s) {
    base = b; size = s;
    data = (u8 *)mmap(nullptr, s, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh = (Expr **)mmap(nullptr, s * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (data == MAP_FAILED || sh == MAP_FAILED) throw EngineError("mmap");
    flag.assign((s >> 8) + 2, 0);
  }
  bool contains(u64 a, u64 n) const { return a >= base && n <= size && a - base <= size - n; }
  void mark(u64 off) { u32 p = (u32)(off >> 8); if (!flag[p]) { flag[p] = 1; flagged.push_back(p); } }
  void clearShadow() { for (u32 p : flagged) { memset(sh + ((u64)p << 8), 0, 256 * 8); flag[p] = 0; } flagged.clear(); }
};

struct Worker {
  Shared &G; Module &M; int id;
  std::unique_ptr<ExprCtx> Xp; std::unique_ptr<Solver> Sp;
  struct QRes { int r; std::vector<std::pair<u16, u8>> vals; };
  struct VH { size_t operator()(const std::vector<u32> &v) const { u64 h = v.size(); for (u32 x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } return h; } };
  std::unordered_map<std::vector<u32>, QRes, VH> qcache;
  u64 nq = 0, nsat = 0, nunsat = 0, nunknown = 0, nhits = 0; double qsec = 0;
  std::vector<u8> fnSeen;

  // per path
  Job *job = nullptr; const Work *W = nullptr;
  size_t pos = 0; std::vector<Dec> trace; std::vector<Expr *> pc; std::vector<u8> model; unsigned nvars = 0;
  std::vector<u128> mval; std::vector<u32> mstamp; u32 stamp = 1;
  Region glob, stack, heap; u64 hp = 0, spv = 0; std::unordered_map<u64, std::vector<u64>> freed; // by class
  struct Frame { Func *f; u32 pc; Val *fp; u64 sp; int32_t dst; u16 rn; };
  std::vector<Val> slots; std::vector<Frame> frames; u64 steps = 0;
  std::vector<int> covers; std::vector<std::pair<Expr *, u8>> out;
  static const u64 STACK_BASE = 0x100000000ull, HEAP_BASE = 0x200000000ull, STACK_SIZE = 64ull << 20, HEAP_SIZE = 512ull << 20;

  Worker(Shared &g, int id);
  ExprCtx &X() { return *Xp; }
  void newCtx();
  void loop();
  void runPath(const Work &w);
  void interpret(Func *entry);
  void doCall(const CallInfo &ci, Frame &fr, int32_t dst, bool &pushed);
  bool builtin(int b, const CallInfo &ci, Frame &fr, int32_t dst);
  void pushFrame(Func *f, const Val *args, size_t n, int32_t dst, u16 rn);

  Val get(const Frame &fr, int32_t o, unsigned k = 0) const { return o >= 0 ? fr.fp[o + k] : fr.f->consts[(size_t)(~o) + k]; }
  Expr *E(const Val &v, unsigned w) { return v.e ? v.e : X().cst(vk(v), w); }
  static Val V(Expr *e) { if (e->op == E_CONST) return cval128(e->k); return Val{0, 0, e}; }

  u128 evalM(Expr *e);
  bool sat(Expr *e, std::vector<u8> *m); // pc && e satisfiable? fills model
  bool branch(Expr *c);                  // decide and fork
  u64 concretize(const Val &v, unsigned w);
  void assume(const Val &v);
  void addPc(Expr *e) { if (e->op == E_CONST) return; pc.push_back(e); }
  void setModel(const std::vector<u8> &m) { model = m; stamp++; }
  Expr *decided(Expr *c);
  void fork(Dec d, const std::vector<u8> &m);
  [[noreturn]] void violation(const std::string &msg);

  Region *region(u64 a, u64 n);
  Val load(u64 a, unsigned w);
  void store(u64 a, unsigned w, const Val &v);
  Val loadSym(const Val &p, unsigned w);
  void copyMem(u64 d, u64 s, u64 n);
  u64 alloc(u64 n, u64 al); void release(u64 p);
  std::string cstr(u64 p, u64 n);
};
