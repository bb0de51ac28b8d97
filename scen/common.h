// Shared helpers of the scenarios.
#pragma once
#include "../sim/scen.h"
#include <functional>
#include <thread>
#include <atomic>
#include <set>
#include <unordered_set>

// Runs the operations of each thread 1..n on a thread of its own (operations of thread 0 are
// run by the caller meanwhile), in order, and joins them all.
template <class F> void run_threads(const Program& p, int n, F fn) {
  std::vector<std::thread>* v;
  { sim::Quiet q; v = new std::vector<std::thread>; v->reserve(n); }
  {
    sim::NoFaults nf;
    for (int t = 1; t <= n; t++) v->emplace_back([&p, t, fn] {
      for (const Op* o = p.ops.data(), *e = o + p.ops.size(); o != e; ++o) if (o->thr == t) { sim::op_point(); fn(*o); }
    });
  }
  for (const Op* o = p.ops.data(), *e = o + p.ops.size(); o != e; ++o) if (o->thr == 0) { sim::op_point(); fn(*o); }
  for (auto& t : *v) t.join();
  { sim::Quiet q; delete v; }
}

#define CHECK(cond, cls, ...) do { if (!(cond)) sim::fail(cls, __VA_ARGS__); } while (0)

// ---- linearizability (Wing & Gong with memoisation).  Call in a Quiet section.
// H: per-thread vectors of operations with fields call, ret (stamps; ret == 0: never returned).
// Model: copyable, std::string key() const, bool step(const Op&) (false: result impossible).
template <class Model, class HOp> struct LinChecker {
  const std::vector<std::vector<HOp>>& h; std::unordered_set<std::string> seen; uint64_t nodes = 0, limit; bool gave_up = false;
  LinChecker(const std::vector<std::vector<HOp>>& hh, uint64_t lim = 400000) : h(hh), limit(lim) {}
  bool dfs(std::vector<unsigned>& idx, const Model& m) {
    bool done = true; uint64_t minret = ~0ull;
    for (size_t t = 0; t < h.size(); t++) if (idx[t] < h[t].size()) { const HOp& o = h[t][idx[t]]; if (o.ret) done = false; uint64_t r = o.ret ? o.ret : ~0ull; if (r < minret) minret = r; }
    if (done) return true;
    if (++nodes > limit) { gave_up = true; return true; }
    std::string k((const char*)idx.data(), idx.size() * sizeof(unsigned)); k += m.key();
    if (!seen.insert(std::move(k)).second) return false;
    for (size_t t = 0; t < h.size(); t++) if (idx[t] < h[t].size()) {
      const HOp& o = h[t][idx[t]];
      if (o.call > minret) continue;
      Model n = m;
      if (n.step(o)) { idx[t]++; if (dfs(idx, n)) return true; idx[t]--; }
    }
    return false;
  }
  bool check(const Model& init) { std::vector<unsigned> idx(h.size(), 0); return dfs(idx, init); }
};

// Lets the rest of the system run until pred() holds.  False: nothing can move any more (or a
// generous simulated time, so that polling implementations get their chance, has passed).
template <class P> bool settle(P pred) {
  for (int i = 0; i < 500; i++) {
    bool idle = sim::sleep_until_idle(2000000000ll);
    sim::Quiet q;
    if (pred()) return true;
    if (idle) return false;
  }
  return false;
}
// a pause of a thread; rarely one so long that anything that gives up after a while would
inline int64_t pause_knob(Rng& r, int64_t n = 28) { return r.chance(93) ? (int64_t)r.below(n) : 1000 + (int64_t)r.below(6); }
inline void pause_op(int64_t a, int mod = 14) {
  static const int64_t s[] = {2, 31, 61, 601, 3601, 90000};
  if (a >= 1000) std::this_thread::sleep_for(std::chrono::seconds(s[a % 6])); else if (a & 1) std::this_thread::sleep_for(std::chrono::microseconds(1ll << (a % mod))); else std::this_thread::yield();
}
