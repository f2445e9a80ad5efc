// symir MODULE.ll JOBS OUT.json [--time S] [--threads N] [--steps N] [--seed N] [--viol N] [--samples N]
// JOBS: one job per line: id <TAB> entry <TAB> hex(template)
#include "exec.hpp"
#include <fstream>
#include <iostream>
#include <sstream>

extern std::map<std::string, u64> profForks;
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; }
  return r + "\"";
}
template <class T> static std::string hexs(const T &v) { std::string r; char b[4]; for (auto c : v) { snprintf(b, 4, "%02x", (unsigned)(u8)c); r += b; } return r; }

int main(int argc, char **argv) {
  if (argc < 4) { std::cerr << "usage\n"; return 2; }
  double t0 = nowS(), limit = 0; int threads = 8; Config cfg;
  for (int i = 4; i + 1 < argc; i += 2) {
    std::string k = argv[i]; double v = atof(argv[i + 1]);
    if (k == "--time") limit = v; else if (k == "--threads") threads = (int)v; else if (k == "--steps") cfg.maxSteps = (u64)v; else if (k == "--seed") cfg.seed = (u64)v;
    else if (k == "--viol") cfg.maxViol = (u64)v; else if (k == "--enough") cfg.enough = (u64)v; else if (k == "--samples") cfg.maxSamples = (u64)v; else if (k == "--frames") cfg.maxFrames = (u32)v; else if (k == "--every") cfg.sampleEvery = (u64)v;
  }
  try {
    Module M; M.load(argv[1]);
    double tload = nowS() - t0;
    Shared G(M); G.cfg = cfg; if (limit > 0) G.cfg.deadline = nowS() + limit;
    std::deque<Job> jobs; std::ifstream in(argv[2]); std::string line;
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      size_t a = line.find('\t'), b = line.find('\t', a + 1);
      jobs.emplace_back(); Job &j = jobs.back(); j.id = line.substr(0, a); j.entry = line.substr(a + 1, b - a - 1);
      std::string h = line.substr(b + 1); for (size_t i = 0; i + 1 < h.size(); i += 2) j.tmpl += (char)strtoul(h.substr(i, 2).c_str(), 0, 16);
    }
    for (auto &j : jobs) G.waiting.push_back(&j);
    std::vector<std::unique_ptr<Worker>> ws; for (int i = 0; i < threads; i++) ws.emplace_back(new Worker(G, i));
    std::vector<std::thread> ts; for (auto &w : ws) ts.emplace_back([&w] { w->loop(); });
    std::thread dog; std::atomic<bool> fin{false};
    if (limit > 0) dog = std::thread([&] { while (!fin && nowS() < G.cfg.deadline) std::this_thread::sleep_for(std::chrono::milliseconds(100)); if (!fin) { G.stop = true; G.cv.notify_all(); } });
    for (auto &t : ts) t.join();
    fin = true; if (dog.joinable()) dog.join();
    if (getenv("SYMIR_PROF")) { std::vector<std::pair<u64, std::string>> v; for (auto &p : profForks) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) std::cerr << v[i].first << " " << v[i].second << "\n"; }
    u64 q = 0, sat = 0, unsat = 0, unk = 0, hits = 0; double qs = 0; std::vector<u8> seen(M.funcList.size(), 0);
    for (auto &w : ws) { q += w->nq; sat += w->nsat; unsat += w->nunsat; unk += w->nunknown; hits += w->nhits; qs += w->qsec; for (size_t i = 0; i < seen.size(); i++) seen[i] |= w->fnSeen[i]; }
    std::ofstream o(argv[3]);
    o << "{\"load_s\":" << tload << ",\"wall_s\":" << nowS() - t0 << ",\"queries\":" << q << ",\"sat\":" << sat << ",\"unsat\":" << unsat << ",\"unknown\":" << unk << ",\"cache_hits\":" << hits << ",\"solver_s\":" << qs << ",\n\"functions\":[";
    bool first = true; for (size_t i = 0; i < seen.size(); i++) if (seen[i]) { o << (first ? "" : ",") << js(M.funcList[i]->name); first = false; }
    o << "],\n\"jobs\":[\n"; first = true;
    for (auto &j : jobs) {
      bool complete = j.t0 >= 0 && j.pending == 0 && !j.timeout && j.error.empty() && !j.stopped;
      o << (first ? "" : ",\n") << "{\"id\":" << js(j.id) << ",\"entry\":" << js(j.entry) << ",\"template\":\"" << hexs(j.tmpl) << "\",\"paths\":" << j.paths << ",\"killed\":" << j.killed << ",\"forks\":" << j.forks << ",\"steps\":" << j.steps << ",\"max_steps\":" << j.maxSteps << ",\"max_constraints\":" << j.maxCons << ",\"constraints\":" << j.constraints
        << ",\"complete\":" << (complete ? "true" : "false") << ",\"started\":" << (j.t0 >= 0 ? "true" : "false") << ",\"error\":" << js(j.error) << ",\"seconds\":" << (j.t0 >= 0 ? (j.t1 > 0 ? j.t1 : nowS()) - j.t0 : 0);
      o << ",\"covers\":{"; bool f2 = true; for (auto &c : j.covers) { o << (f2 ? "" : ",") << "\"" << c.first << "\":" << c.second; f2 = false; }
      o << "},\"violations\":["; f2 = true;
      for (auto &v : j.viols) { o << (f2 ? "" : ",") << "{\"msg\":" << js(v.msg) << ",\"model\":\"" << hexs(v.model) << "\",\"stack\":["; bool f3 = true; int n = 0; for (auto &s : v.stack) { if (n++ > 12) break; o << (f3 ? "" : ",") << js(s); f3 = false; } o << "]}"; f2 = false; }
      o << "],\"samples\":["; f2 = true;
      for (auto &s : j.samples) { o << (f2 ? "" : ",") << "{\"model\":\"" << hexs(s.model) << "\",\"out\":\"" << hexs(s.out) << "\",\"constraints\":" << s.constraints << ",\"covers\":["; bool f3 = true; for (int c : s.covers) { o << (f3 ? "" : ",") << c; f3 = false; } o << "]}"; f2 = false; }
      o << "]}"; first = false;
    }
    o << "\n]}\n"; o.close();
  } catch (std::exception &e) { std::cerr << "symir: " << e.what() << "\n"; return 3; }
  return 0;
}
