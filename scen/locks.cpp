// F01 F02 F03: spin locks.   A01: atomic integers.   I01: singletons.
#include "common.h"
#include <falcon/futex.h>
#include <falcon/atomic.h>
#include <falcon/singleton.h>
#include <cstdio>
#include <stdexcept>
using namespace falcon;

// ------------------------------------------------------------------------------ holds and queries
namespace {
struct Hold { uint64_t call, got, unl, done; int thr; };        // lock called, returned, unlock called, returned
struct Query { uint64_t a, b; bool ans; int thr; int kind; };   // kind 0 isLocked, 1 isOwner
struct LockHist { std::vector<Hold> holds; std::vector<Query> qs; };
LockHist* LH[4];
int inside_[4], owner_[4];
long shared_[4][3];          // data guarded by lock i: plain, instrumented memory
long expect_[4];             // model copy (only touched in quiet sections)
void hist_reset() { for (int i = 0; i < 4; i++) { sim::Quiet q; LH[i] = new LockHist; inside_[i] = 0; owner_[i] = -1; expect_[i] = 0; } }
void entered(int l, int t) {
  sim::Quiet q; sim::obligation();
  CHECK(inside_[l] == 0, "exclusion", "T%d obtains lock %d while T%d holds it", t, l, owner_[l]);
  inside_[l] = 1; owner_[l] = t;
}
void leaving(int l) { sim::Quiet q; inside_[l] = 0; owner_[l] = -1; }
void critical(int l, int steps) {
  for (int i = 0; i < steps; i++) {
    long v = shared_[l][i % 3];
    { sim::Quiet q; CHECK(owner_[l] == sim::tid(), "exclusion", "T%d is inside lock %d, which it no longer holds", sim::tid(), l); }
    shared_[l][i % 3] = v + 1;
    { sim::Quiet q; expect_[l]++; }
  }
  long sum = shared_[l][0] + shared_[l][1] + shared_[l][2];
  { sim::Quiet q; CHECK(sum == expect_[l], "lost-write", "data guarded by lock %d: holder T%d sees %ld updates of %ld made under the lock", l, sim::tid(), sum, expect_[l]); }
}
void check_queries(int nl, bool owner_q) {
  sim::Quiet q;
  for (int l = 0; l < nl; l++) for (auto& x : LH[l]->qs) {
    sim::obligation();
    if (x.kind == 1) continue;
    bool covered = false, touched = false;
    for (auto& h : LH[l]->holds) {
      if (h.got <= x.a && h.unl >= x.b) covered = true;
      if (h.call <= x.b && h.done >= x.a) touched = true;
    }
    CHECK(x.ans || !covered, "query", "locked query by T%d on lock %d answers false although one thread held the lock all the time", x.thr, l);
    CHECK(!x.ans || touched, "query", "locked query by T%d on lock %d answers true although no thread held the lock at any moment of it", x.thr, l);
  }
  (void)owner_q;
}
template <class L> struct Locks { L l[4]; };

// ------------------------------------------------------------------------------ F01
enum { OP_CRIT, OP_QUERY, OP_WORK };
template <class L> void f01_run(const Program& p) {
  Locks<L>* ls = new Locks<L>; int nl = (int)p.p[1], n = (int)p.p[2];
  hist_reset(); for (auto& a : shared_) a[0] = a[1] = a[2] = 0;
  run_threads(p, n, [ls, nl](const Op& o) {
    int i = (int)(o.a % nl); L& l = ls->l[i]; int t = sim::tid();
    switch (o.code) {
      case OP_CRIT: {
        Hold h{}; h.thr = t; h.call = sim::stamp(); l.lock(); h.got = sim::stamp(); entered(i, t);
        critical(i, 1 + (int)(o.b & 7));
        for (int64_t k = 0; k < (o.b >> 3); k++) sim::point();
        if (o.c & 1) { uint64_t a = sim::stamp(); bool r = l.isLocked(); sim::Quiet q; CHECK(r, "query", "locked query by the holder T%d answers false", t); LH[i]->qs.push_back({a, sim::stamp(), r, t, 0}); }
        if (o.c & 2) std::this_thread::yield();
        leaving(i); h.unl = sim::stamp(); l.unlock(); h.done = sim::stamp();
        sim::Quiet q; LH[i]->holds.push_back(h); sim::probe(0); if (o.b >> 3) sim::probe(3); break; }
      case OP_QUERY: { uint64_t a = sim::stamp(); bool r = l.isLocked(); uint64_t b = sim::stamp(); sim::Quiet q; LH[i]->qs.push_back({a, b, r, t, 0}); sim::probe(r ? 1 : 2); break; }
      case OP_WORK: for (int k = 0; k < o.b; k++) sim::point(); break;
    }
  });
  for (int i = 0; i < nl; i++) { bool r = ls->l[i].isLocked(); CHECK(!r, "query", "lock %d answers locked when no thread holds it", i); ls->l[i].lock(); r = ls->l[i].isLocked(); CHECK(r, "query", "lock %d answers free while held", i); critical(i, 0) ; ls->l[i].unlock(); }
  check_queries(nl, false);
  delete ls;
}
void f01_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); p.mask = 1u << sim::F_WEAKCAS;
  p.p[0] = r.below(7); p.p[1] = r.range(1, 2); int n = (int)r.range(2, tier ? 6 : 5); 
  if (r.chance(1)) n = (int)r.range(20, 70);       // a crowd
  p.p[2] = n;
  int total = (int)r.range(3, tier ? 60 : 24); if (n > 6) total = (int)r.range(n, 2 * n);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); o.code = r.chance(65) ? OP_CRIT : r.chance(75) ? OP_QUERY : OP_WORK; o.a = r.below(4); o.b = r.below(4); o.c = r.below(4); p.ops.push_back(o); }
  if (n < 7 && r.chance(2)) { static const int64_t d[] = {300, 600, 1100, 3000}; Op& o = p.ops[r.below(p.ops.size())]; o.code = OP_CRIT; o.b |= (n > 3 || r.chance(97) ? r.pick(d) : (int64_t)70000) << 3; }   // a long hold
}
void f01_dispatch(const Program& p) {
  sim::faults_global(1u << sim::F_WEAKCAS);
  switch (p.p[0]) { case 0: f01_run<Futex<0>>(p); break; case 1: f01_run<Futex<1>>(p); break; case 2: f01_run<Futex<2>>(p); break; case 3: f01_run<Futex<5>>(p); break; case 4: f01_run<Futex<100>>(p); break; case 5: f01_run<Futex<256>>(p); break; default: f01_run<Futex<1000>>(p); }
}
const char* const f01_probes[] = {"critical_sections", "queries_true", "queries_false", "long_holds", nullptr};
std::string lock_opname(const Program&, const Op& o) {
  char b[120]; static const char* n[] = {"critical section", "locked query", "work"};
  snprintf(b, sizeof b, "T%d %s on lock %ld, %ld steps", o.thr, n[o.code % 3], (long)o.a, (long)(o.b > 200 ? o.b >> 3 : o.b)); return b;
}
RegisterProp R_f01({"F01", f01_gen, f01_dispatch, 3000000, lock_opname, f01_probes});

// ------------------------------------------------------------------------------ F02
// One or more waiters contend; every atomic access to the lock and every yield is watched.
struct Waiter { bool waiting; uint64_t taken, spurious, free_obs; };
Waiter g_w[128]; unsigned g_spin; bool g_alone[128]; uint64_t g_freeval;
void f02_hook(int what, uint64_t v) {
  int t = sim::tid(); Waiter& w = g_w[t];
  if (!w.waiting) return;
  if (what == 4) {
    sim::obligation();
    CHECK(g_spin != 0, "yield", "a waiter of a lock with spin setting 0 yields");
    CHECK(w.taken <= g_spin && w.taken + w.spurious >= g_spin, "yield", "a waiter of a lock with spin setting %u yields after %lu failed attempts (%lu more failed spuriously)", g_spin, (unsigned long)w.taken, (unsigned long)w.spurious);
    sim::probe(0); w.taken = w.spurious = 0; return;
  }
  if (what == 1) return;
  if (what == 3) { w.spurious++; }
  else if (v != g_freeval) {
    w.taken++; sim::probe(1);
    CHECK(g_spin == 0 || w.taken <= g_spin, "yield", "a waiter of a lock with spin setting %u has found it taken %lu times in a row without yielding", g_spin, (unsigned long)w.taken);
  } else if (g_alone[t]) {
    w.free_obs++;
    CHECK(w.free_obs <= 3 + 3 * w.spurious, "progress", "the only waiter of a free lock fails to obtain it in %lu attempts (%lu failed spuriously)", (unsigned long)w.free_obs, (unsigned long)w.spurious);
  }
}
template <unsigned S> void f02_run(const Program& p) {
  auto* l = new Futex<S>; g_spin = S; int n = (int)p.p[2];
  for (auto& w : g_w) w = Waiter{};
  g_freeval = 0;
  { // what a free lock looks like
    static uint64_t seen; seen = 0; sim::watch(l, sizeof *l, [](int w, uint64_t v) { if (w == 0 || w == 2) seen = v; }); (void)l->isLocked(); sim::watch(nullptr, 0, nullptr); g_freeval = seen;
  }
  sim::watch(l, sizeof *l, f02_hook);
  hist_reset(); shared_[0][0] = shared_[0][1] = shared_[0][2] = 0;
  static volatile int contenders; contenders = 0; static int held; held = 0;
  run_threads(p, n, [l](const Op& o) {
    int t = sim::tid();
    switch (o.code) {
      case OP_CRIT: {
        { sim::Quiet q; contenders = contenders + 1; g_w[t] = Waiter{}; g_w[t].waiting = true; }
        { sim::Quiet q; for (int i = 0; i < 128; i++) g_alone[i] = contenders == 1 && i == t; if (contenders == 1) g_w[t].free_obs = 0; }
        l->lock();
        { sim::Quiet q; g_w[t].waiting = false; g_alone[t] = false; held = 1; }
        entered(0, t);
        for (int k = 0; k < o.b; k++) { sim::point(); if (o.c & 1 && k % 5 == 4) std::this_thread::yield(); }
        critical(0, 1);
        leaving(0); l->unlock();
        { sim::Quiet q; held = 0; contenders = contenders - 1; if (contenders == 1) for (int i = 0; i < 128; i++) if (g_w[i].waiting) { g_alone[i] = true; g_w[i].free_obs = 0; } }
        break; }
      default: for (int k = 0; k < o.b; k++) sim::point();
    }
  });
  sim::watch(nullptr, 0, nullptr);
  delete l;
}
void f02_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); p.mask = r.chance(40) ? 1u << sim::F_WEAKCAS : 0;
  p.p[0] = r.chance(94) ? r.below(6) : (int64_t)r.range(6, 10); int n = (int)r.range(2, tier ? 6 : 4); p.p[2] = n;
  int total = (int)r.range(2, tier ? 40 : 14);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); o.code = r.chance(85) ? OP_CRIT : OP_WORK; o.b = r.chance(70) ? r.below(12) : r.below(120); o.c = r.below(2); p.ops.push_back(o); }
  if (p.p[0] > 5 || r.chance(1)) { // a hold that outlasts many attempts
    static const int64_t d[] = {600, 1100, 2500}; for (int i = 0; i < 2; i++) { Op& o = p.ops[r.below(p.ops.size())]; o.code = OP_CRIT; o.c = 0; o.b = r.pick(d); }
    if (r.chance(2)) { p.p[2] = n = 2; p.ops.clear(); for (int i = 1; i < 3; i++) { Op o; o.thr = i; o.code = OP_CRIT; o.b = i == 1 ? 140000 : 3; p.ops.push_back(o); } } }
  if (p.p[0] == 10 && p.ops[0].b != 140000) p.p[0] = 9;
}
void f02_dispatch(const Program& p) {
  sim::faults_global(1u << sim::F_WEAKCAS);
  switch (p.p[0]) { case 0: f02_run<0>(p); break; case 1: f02_run<1>(p); break; case 2: f02_run<2>(p); break; case 3: f02_run<3>(p); break; case 4: f02_run<7>(p); break; case 5: f02_run<40>(p); break; case 6: f02_run<255>(p); break; case 7: f02_run<256>(p); break; case 8: f02_run<300>(p); break; case 9: f02_run<1000>(p); break; default: f02_run<65537>(p); }
}
const char* const f02_probes[] = {"yields_while_waiting", "attempts_that_found_it_taken", nullptr};
RegisterProp R_f02({"F02", f02_gen, f02_dispatch, 3000000, lock_opname, f02_probes});

// ------------------------------------------------------------------------------ F03
enum { R_NEST, R_QLOCKED, R_QOWNER, R_WORK, R_BOTH, R_DEEP, R_CROWD };
int depth_[4][128];
void f03_run(const Program& p) {
  auto* ls = new Locks<RFutex>; int nl = (int)p.p[1], n = (int)p.p[2];
  hist_reset(); for (auto& a : shared_) a[0] = a[1] = a[2] = 0; for (auto& a : depth_) for (int& d : a) d = 0;
  auto qown = [ls](int i) { int t = sim::tid(); bool r = ls->l[i].isOwner(); sim::Quiet q; sim::obligation(); sim::probe(2); bool own = depth_[i][t] > 0;
    CHECK(r == own, "query", "owner query by T%d on lock %d answers %s, but the thread %s it", t, i, r ? "true" : "false", own ? "owns" : "does not own"); };
  auto qlock = [ls](int i) { int t = sim::tid(); uint64_t a = sim::stamp(); bool r = ls->l[i].isLocked(); uint64_t b = sim::stamp(); sim::Quiet q; sim::probe(1); LH[i]->qs.push_back({a, b, r, t, 0});
    if (depth_[i][t]) CHECK(r, "query", "locked query by the owner T%d answers false", t); };
  // takes lock i `d` times in all, with work and queries at every depth
  struct Rec { static void nest(Locks<RFutex>* ls, int i, int d, int c, Hold& h, int j, decltype(qown)& qo, decltype(qlock)& ql) {
    int t = sim::tid(); bool outer; { sim::Quiet q; outer = depth_[i][t] == 0; }
    if (outer) h.call = sim::stamp();
    ls->l[i].lock();
    if (outer) { h.got = sim::stamp(); entered(i, t); }
    { sim::Quiet q; depth_[i][t]++; sim::probe(0); if (depth_[i][t] > 1) sim::probe(3); }
    critical(i, 1);
    if (c & 1) qo(i);
    if (c & 2) ql(i);
    if (d > 1) nest(ls, i, d - 1, c >> 1, h, -1, qo, ql);
    if (j >= 0) { Hold h2{}; h2.thr = t; nest(ls, j, 1 + (c & 1), c, h2, -1, qo, ql); sim::Quiet q; LH[j]->holds.push_back(h2); }
    if (d > 1 && (c & 4)) { nest(ls, i, 1, c, h, -1, qo, ql); }
    critical(i, 1);
    if (c & 8) qo(i);
    { sim::Quiet q; depth_[i][t]--; }
    if (outer) { leaving(i); h.unl = sim::stamp(); }
    ls->l[i].unlock();
    if (outer) h.done = sim::stamp();
    if (outer && (c & 16)) qo(i);
  } };
  run_threads(p, n, [&](const Op& o) {
    int i = (int)(o.a % nl);
    switch (o.code) {
      case R_NEST: { Hold h{}; h.thr = sim::tid(); Rec::nest(ls, i, 1 + (int)o.b, (int)o.c, h, -1, qown, qlock); sim::Quiet q; LH[i]->holds.push_back(h); break; }
      case R_BOTH: { Hold h{}; h.thr = sim::tid(); if (nl < 2) break; Rec::nest(ls, 0, 1 + (int)o.b, (int)o.c, h, 1, qown, qlock); sim::Quiet q; LH[0]->holds.push_back(h); break; }
      case R_DEEP: { // nested so often that a short counter wraps
        int t = sim::tid(), n = (int)o.b; Hold h{}; h.thr = t; h.call = sim::stamp(); ls->l[i].lock(); h.got = sim::stamp(); entered(i, t); critical(i, 1);
        auto probe = [&](int k) { return k == 1 || k == n || k == n - 1 || (k & 127) < 2 && (n < 1000 || (k & 32767) < 2); };
        { sim::Quiet q; depth_[i][t] = 1; sim::probe(0); }
        for (int k = 2; k <= n; k++) { ls->l[i].lock(); { sim::Quiet q; depth_[i][t]++; sim::probe(3); } if (probe(k)) { qown(i); qlock(i); critical(i, 1); } }
        for (int k = n; k >= 2; k--) { { sim::Quiet q; depth_[i][t]--; } ls->l[i].unlock(); if (probe(k)) { critical(i, 1); qown(i); qlock(i); } }
        { sim::Quiet q; depth_[i][t] = 0; } leaving(i); h.unl = sim::stamp(); ls->l[i].unlock(); h.done = sim::stamp(); qown(i); sim::Quiet q; LH[i]->holds.push_back(h); break; }
      case R_CROWD: { // so many threads, one after the other, that a short thread number wraps; the creator owns a lock meanwhile
        int t = sim::tid(), n = (int)o.b; Hold h{}; h.thr = t; h.call = sim::stamp(); ls->l[i].lock(); h.got = sim::stamp(); entered(i, t);
        { sim::Quiet q; depth_[i][t] = 1; }
        sim::reuse_threads(true);
        for (int k = 0; k < n; k++) {
          std::thread* th; { sim::NoFaults nf; th = new std::thread([&, i] {
            int me = sim::tid(); Hold g{}; g.thr = me; g.call = sim::stamp(); ls->l[3].lock(); g.got = sim::stamp(); entered(3, me); { sim::Quiet q; depth_[3][me]++; sim::probe(4); }
            qown(3); qown(i); bool r = ls->l[3].isLocked(); CHECK(r, "query", "locked query by the owner T%d answers false", me);
            { sim::Quiet q; depth_[3][me]--; } leaving(3); ls->l[3].unlock(); }); }
          th->join(); delete th;
        }
        sim::reuse_threads(false);
        critical(i, 1); qown(i); qlock(i);
        { sim::Quiet q; depth_[i][t] = 0; } leaving(i); h.unl = sim::stamp(); ls->l[i].unlock(); h.done = sim::stamp(); qown(i); sim::Quiet q; LH[i]->holds.push_back(h); break; }
      case R_QLOCKED: qlock(i); break;
      case R_QOWNER: qown(i); break;
      case R_WORK: for (int k = 0; k < o.b; k++) sim::point(); break;
    }
  });
  for (int i = 0; i < nl; i++) { bool r = ls->l[i].isLocked(); CHECK(!r, "query", "lock %d answers locked when no thread owns it", i); qown(i); }
  check_queries(nl, true);
  delete ls;
}
void f03_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); p.p[1] = r.range(1, 2); int n = (int)r.range(2, tier ? 6 : 5); p.p[2] = n;
  int total = (int)r.range(2, tier ? 40 : 18);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); int k = (int)r.below(100); o.code = k < 50 ? R_NEST : k < 60 ? R_BOTH : k < 75 ? R_QLOCKED : k < 92 ? R_QOWNER : R_WORK; o.a = r.below(2); o.b = r.chance(80) ? r.below(4) : r.below(12); o.c = r.below(32); p.ops.push_back(o); }
  if (r.chance(3)) { static const int64_t dd[] = {120, 127, 128, 129, 255, 256, 257, 258, 300, 513}; Op o; o.thr = (int)r.range(1, n); o.code = R_DEEP; o.a = r.below(2); o.b = r.chance(98) ? (int64_t)r.pick(dd) : (int64_t)65537; p.ops.insert(p.ops.begin() + (int64_t)r.below(p.ops.size() + 1), o); }
  if (r.below(1000) < 3) { static const int64_t dd[] = {20, 64, 130, 260, 300, 520}; Op o; o.thr = (int)r.range(1, n); o.code = R_CROWD; o.a = r.below(2); o.b = r.below(150) ? (int64_t)r.pick(dd) : (int64_t)65600; 
    if (o.b > 1000) p.ops.clear();     // others would spin all that time
    p.ops.insert(p.ops.begin() + (int64_t)r.below(p.ops.size() + 1), o); }
}
std::string f03_opname(const Program&, const Op& o) {
  char b[120]; static const char* n[] = {"takes and releases, nested", "locked query", "owner query", "work", "takes both locks, nested", "takes and releases many times, nested", "owns it while as many threads come and go as told by depth"};
  snprintf(b, sizeof b, "T%d %s lock %ld depth %ld", o.thr, n[o.code % 7], (long)o.a, (long)o.b + 1); return b;
}
const char* const f03_probes[] = {"lock_calls", "locked_queries", "owner_queries", "nested_lock_calls", "short_lived_threads", nullptr};
RegisterProp R_f03({"F03", f03_gen, [](const Program& p) { f03_run(p); }, 8000000, f03_opname, f03_probes});

// ------------------------------------------------------------------------------ A01
enum { A_INC, A_DEC, A_ADD, A_FETCH, A_SET, A_XCHG, A_CAS, A_AND, A_OR, A_XOR };
struct AOp { int code; int32_t a, b; int32_t res; uint64_t call, ret; };
struct AModel {
  uint32_t v = 0;
  std::string key() const { return std::string((const char*)&v, 4); }
  bool step(const AOp& o) {
    uint32_t old = v;
    switch (o.code) {
      case A_INC: v += 1; return o.res == (int32_t)v;
      case A_DEC: v -= 1; return o.res == (int32_t)v;
      case A_ADD: v += (uint32_t)o.a; return o.res == (int32_t)v;
      case A_FETCH: return o.res == (int32_t)v;
      case A_SET: v = (uint32_t)o.a; return true;
      case A_XCHG: v = (uint32_t)o.a; return o.res == (int32_t)old;
      case A_CAS: if ((int32_t)v == o.a) { v = (uint32_t)o.b; return o.res == 1; } return o.res == 0;
      case A_AND: v &= (uint32_t)o.a; return o.res == (int32_t)old;
      case A_OR: v |= (uint32_t)o.a; return o.res == (int32_t)old;
      case A_XOR: v ^= (uint32_t)o.a; return o.res == (int32_t)old;
    }
    return false;
  }
};
struct AVars { atomic_int guard0; atomic_int v[2]; atomic_int guard1; };
const char* const a_names[] = {"increment", "decrement", "add", "fetch", "set", "exchange", "compare-and-set", "and", "or", "xor"};
void a01_run(const Program& p) {
  int n = (int)p.p[2], nv = (int)p.p[1];
  auto* av = new AVars; av->guard0 = 0x5A5A5A5A; av->guard1 = 0x5A5A5A5A; av->v[0] = (int32_t)p.p[3]; av->v[1] = (int32_t)p.p[4];
  static std::vector<std::vector<AOp>>* H[2]; { sim::Quiet q; for (auto& h : H) h = new std::vector<std::vector<AOp>>(n + 2); }
  run_threads(p, n, [av, nv](const Op& o) {
    int i = (int)(o.d % nv); AOp x{}; x.code = o.code; x.a = (int32_t)o.a; x.b = (int32_t)o.b; atomic_int& v = av->v[i];
    x.call = sim::stamp();
    switch (o.code) {
      case A_INC: x.res = atomicInc(v); break; case A_DEC: x.res = atomicDec(v); break; case A_ADD: x.res = atomicAdd(v, x.a); break;
      case A_FETCH: x.res = atomicFetch(v); break; case A_SET: atomicSet(v, x.a); break; case A_XCHG: x.res = atomicExchange(v, x.a); break;
      case A_CAS: x.res = atomicCAS(v, x.a, x.b) ? 1 : 0; break; case A_AND: x.res = atomicAnd(v, x.a); break; case A_OR: x.res = atomicOr(v, x.a); break; case A_XOR: x.res = atomicXor(v, x.a); break;
    }
    x.ret = sim::stamp();
    sim::Quiet q; sim::obligation(); sim::probe(o.code); (*H[i])[sim::tid()].push_back(x);
  });
  for (int i = 0; i < nv; i++) { AOp x{}; x.code = A_FETCH; x.call = sim::stamp(); x.res = atomicFetch(av->v[i]); x.ret = sim::stamp(); sim::Quiet q; (*H[i])[0].push_back(x); }
  sim::Quiet q;
  CHECK(av->guard0 == 0x5A5A5A5A && av->guard1 == 0x5A5A5A5A, "neighbour", "an atomic operation changed memory beside its variable");
  for (int i = 0; i < nv; i++) {
    LinChecker<AModel, AOp> lc(*H[i]); AModel m; m.v = (uint32_t)p.p[3 + i];
    if (!lc.check(m)) {
      std::string s; for (size_t t = 0; t < H[i]->size(); t++) for (auto& x : (*H[i])[t]) { char b[120]; snprintf(b, sizeof b, " T%zu [%lu,%lu] %s(%d,%d)=%d;", t, (unsigned long)x.call, (unsigned long)x.ret, a_names[x.code], x.a, x.b, x.res); if (s.size() < 3500) s += b; }
      sim::fail("linearizability", "no order of the calls on variable %d (initially %d) explains the results:%s", i, (int)p.p[3 + i], s.c_str());
    }
    if (lc.gave_up) sim::probe(10);
  }
}
int32_t a_val(Rng& r) { static const int32_t b[] = {0, 1, -1, 2, 3, 5, 7, 8, 0x55, 0xFF, 0x7FFFFFFF, (int32_t)0x80000000, 0x0F0F0F0F, -2, 256}; return b[r.below(sizeof b / 4)]; }
void a01_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); int n = (int)r.range(2, 4); p.p[2] = n; p.p[1] = r.range(1, 2); p.p[3] = a_val(r); p.p[4] = a_val(r);
  int total = (int)r.range(2, tier ? 24 : 16); unsigned allow = (unsigned)r.next(); if (r.chance(40)) allow = ~0u; if (!(allow & 1023)) allow |= 1u << r.below(10);
  std::vector<int32_t> pool; for (int i = 0; i < 3; i++) pool.push_back(a_val(r)); pool.push_back((int32_t)p.p[3]);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); do o.code = (int)r.below(10); while (!(allow >> o.code & 1)); o.a = pool[r.below(pool.size())]; o.b = pool[r.below(pool.size())]; o.d = r.below(2); p.ops.push_back(o); }
}
std::string a01_opname(const Program&, const Op& o) { char b[120]; snprintf(b, sizeof b, "T%d %s(%ld,%ld) on variable %ld", o.thr, a_names[o.code % 10], (long)o.a, (long)o.b, (long)o.d); return b; }
const char* const a01_probes[] = {"increment", "decrement", "add", "fetch", "set", "exchange", "compare_and_set", "and", "or", "xor", "histories_too_long_to_decide", nullptr};
RegisterProp R_a01({"A01", a01_gen, [](const Program& p) { a01_run(p); }, 200000, a01_opname, a01_probes});

// ------------------------------------------------------------------------------ I01
struct CtorError : std::runtime_error { CtorError() : std::runtime_error("constructor fails") {} };
int s_built, s_tried, s_failed_with, s_steps;
std::vector<const void*>* s_seen;
struct Subject {
  long f[6]; std::string* text; long last;
  Subject() : text(nullptr), last(0) {
    { sim::Quiet q; s_tried++; }
    for (int i = 0; i < 6; i++) { f[i] = 100 + i; if (i < s_steps) std::this_thread::yield(); }
    if (sim::fault(sim::F_CTOR_THROW)) { { sim::Quiet q; s_failed_with++; } throw CtorError(); }
    text = new std::string("the text of the singleton, longer than a short string");
    last = 77;
    { sim::Quiet q; s_built++; CHECK(s_built == 1, "constructed-twice", "the instance is constructed %d times", s_built); }
  }
  ~Subject() { delete text; }
  long sum() const { long s = 0; for (long x : f) s += x; return s + last; }
};
Singleton<Subject>* s_one;
enum { I_GET, I_ARROW, I_STAR, I_MARROW, I_MSTAR, I_OWN, I_WRITE };
void i01_use(const Subject* s, int how) {
  long v = s->sum(); size_t n = s->text ? s->text->size() : 0;
  sim::Quiet q; sim::obligation(); sim::probe(how);
  CHECK(v == 100 * 6 + 15 + 77 && n == 53, "incomplete", "T%d sees an instance that is not fully constructed (sum %ld, text length %zu)", sim::tid(), v, n);
  s_seen->push_back(s);
  CHECK(s_seen->front() == s, "several-instances", "T%d obtains another instance than an earlier caller", sim::tid());
}
void i01_run(const Program& p) {
  sim::faults_global(1u << sim::F_CTOR_THROW);
  s_built = s_tried = s_failed_with = 0; s_steps = (int)p.p[1]; { sim::Quiet q; s_seen = new std::vector<const void*>; }
  s_one = new Singleton<Subject>;
  static int failures; failures = 0;
  run_threads(p, (int)p.p[2], [](const Op& o) {
    try {
      switch (o.code) {
        case I_GET: i01_use(s_one->get(), 0); break;
        case I_ARROW: i01_use(static_cast<const Singleton<Subject>*>(s_one)->operator->(), 1); break;
        case I_STAR: i01_use(&*static_cast<const Singleton<Subject>&>(*s_one), 2); break;
        case I_MARROW: i01_use(s_one->mtbl.operator->(), 3); break;
        case I_MSTAR: i01_use(&*s_one->mtbl, 4); break;
        case I_OWN: { Singleton<Subject> mine; i01_use(o.a & 1 ? mine.get() : mine.mtbl.operator->(), 5); break; }
        case I_WRITE: for (int k = 0; k < o.a; k++) sim::point(); break;
      }
    } catch (CtorError&) { sim::Quiet q; failures++; sim::probe(6); }
  });
  sim::Quiet q;
  CHECK(failures == s_failed_with, "error-lost", "%d constructions failed but %d callers saw the error", s_failed_with, failures);
  CHECK(s_tried == s_built + s_failed_with, "constructed-twice", "%d constructions were begun, %d failed, %d succeeded", s_tried, s_failed_with, s_built);
  CHECK(s_built == (s_seen->empty() ? 0 : 1), "constructed-twice", "the instance is constructed %d times", s_built);
  delete s_one;
}
void i01_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); p.mask = 1u << sim::F_CTOR_THROW; int n = (int)r.range(2, tier ? 8 : 5); if (r.chance(2)) n = (int)r.range(16, 70); p.p[2] = n; p.p[1] = r.below(7);
  int total = (int)r.range(n, n + 12); for (int i = 0; i < total; i++) { Op o; o.thr = i < n ? i + 1 : (int)r.range(1, n); o.code = (int)r.below(7); o.a = r.below(6); p.ops.push_back(o); }
}
std::string i01_opname(const Program&, const Op& o) { static const char* n[] = {"get()", "->", "*", "mtbl->", "mtbl *", "through an object of its own", "waits"}; return "T" + std::to_string(o.thr) + " uses the singleton: " + n[o.code % 7]; }
const char* const i01_probes[] = {"get", "arrow", "star", "mutable_arrow", "mutable_star", "own_object", "construction_errors_seen", nullptr};
RegisterProp R_i01({"I01", i01_gen, i01_run, 200000, i01_opname, i01_probes});
}
