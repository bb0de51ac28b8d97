// P01-P04: the paged stack.
#include "common.h"
#include <falcon/engine/pagedstack.h>
#include <falcon/futex.h>
#include <cstdio>
#include <deque>
#include <optional>
#include <stdexcept>
#include <mutex>
using namespace falcon;

namespace {
// ------------------------------------------------------------------------------ elements
struct CopyError : std::runtime_error { CopyError() : std::runtime_error("element copy fails") {} };
int64_t e_live, e_made, e_gone;                  // elements alive / made / destroyed (quiet sections only)
bool e_may_throw;
const uint64_t LIVE = 0x11FE11FE11FE11FEull, DEAD = 0xDEADDEADDEADDEADull;
struct Elem {
  uint64_t magic; int64_t v; int64_t* box;
  void born() {
    sim::Quiet q;
    CHECK(*(volatile uint64_t*)&magic != LIVE, "element-lifetime", "an element is constructed over a live one");
    *(volatile uint64_t*)&magic = LIVE; e_live++; e_made++;
  }
  void alive() const { CHECK(magic == LIVE, "element-lifetime", "an element that is not alive is used"); }
  static void maybe() { if (e_may_throw && sim::fault(sim::F_COPY_THROW)) throw CopyError(); }
  Elem() : v(-1), box(new int64_t(-1)) { born(); }
  explicit Elem(int64_t x) : v(x), box(nullptr) { maybe(); box = new int64_t(x); born(); }
  Elem(const Elem& o) : v(o.v), box(nullptr) { o.alive(); maybe(); box = new int64_t(*o.box); born(); }
  Elem& operator=(const Elem& o) { alive(); o.alive(); if (this != &o) { maybe(); int64_t* n = new int64_t(*o.box); delete box; box = n; v = o.v; } return *this; }
  ~Elem() { CHECK(magic == LIVE, "element-lifetime", "an element is destroyed twice, or was never constructed"); delete box; sim::Quiet q; *(volatile uint64_t*)&magic = DEAD; e_live--; e_gone++; }
};
inline int64_t val(const Elem& e) { e.alive(); int64_t a = e.v, b = *e.box; CHECK(a == b, "element-lifetime", "an element is torn: %ld and %ld", (long)a, (long)b); return a; }
inline int64_t val(const int64_t& e) { return e; }

// ------------------------------------------------------------------------------ counting allocator
struct ABlk { size_t n, sz; };
std::map<void*, ABlk>* a_live; uint64_t a_total; int64_t a_big;   // outstanding blocks of elements
template <class T> struct CAlloc {
  using value_type = T; template <class U> struct rebind { using other = CAlloc<U>; };
  int arena = 7;
  CAlloc() = default; template <class U> CAlloc(const CAlloc<U>& o) noexcept : arena(o.arena) {}
  T* allocate(size_t n) {
    T* p = static_cast<T*>(::operator new(n * sizeof(T)));
    sim::Quiet q; (*a_live)[p] = {n, sizeof(T)}; a_total++; if (sizeof(T) == sizeof(Elem) && !std::is_same<T, std::vector<Elem, CAlloc<Elem>>>::value) {} if (std::is_same<T, Elem>::value) a_big++; return p;
  }
  void deallocate(T* p, size_t n) noexcept {
    { sim::Quiet q; auto it = a_live->find(p);
      CHECK(it != a_live->end(), "allocator", "memory is returned to the allocator that it did not hand out, or twice");
      CHECK(it->second.n == n && it->second.sz == sizeof(T), "allocator", "memory obtained for %zu values is returned as if for %zu", it->second.n, n);
      CHECK(arena == 7, "allocator", "memory is returned to another allocator");
      a_live->erase(it); if (std::is_same<T, Elem>::value) a_big--; }
    ::operator delete(p);
  }
  bool operator==(const CAlloc& o) const noexcept { return arena == o.arena; }
  bool operator!=(const CAlloc& o) const noexcept { return arena != o.arena; }
};

// ------------------------------------------------------------------------------ P01
enum SOp { PUSH1, PUSHN, EMPLACE, POP0, POPN, PEEK, PEEKD, PEEKR, POPR, TOPR, TOPW, DISCARD, DISC_IT, DISC_RIT, CLEAR, SHRINK, WALK, PUSHTOP, BULK, BULKPOP, STATS, S_NOPS };
const char* const s_names[] = {"push", "push several", "emplace", "pop", "pop several", "peek", "peek_depth", "peek_reverse", "pop_reverse", "read top", "replace top", "discard", "discard to forward iterator", "discard to reverse iterator", "clear", "shrink", "traverse", "push own top", "push many", "pop many", "stats"};
template <class S, class T> struct Seq {
  S* s; std::vector<int64_t> m; int64_t next = 1000; size_t cap = 700;
  struct Guarded { bool threw = false; };
  void expect_same(const char* when) {
    sim::obligation();
    size_t n = s->size(); CHECK(n == m.size(), "contents", "after %s the size is %zu, not %zu", when, n, m.size());
    bool e = s->empty(); CHECK(e == m.empty(), "contents", "after %s with %zu elements empty() answers %d", when, m.size(), (int)e);
    if (!m.empty()) { int64_t t = val(static_cast<const S*>(s)->top()); CHECK(t == m.back(), "contents", "after %s the top is %ld, not %ld", when, (long)t, (long)m.back()); }
  }
  template <class It, class End> void walk_down(It it, End end, const char* what) {
    size_t i = m.size(); It e = end;
    while (it != e) { CHECK(i > 0, "traversal", "%s passes the bottom element", what); int64_t v = val(*it); --i; CHECK(v == m[i], "traversal", "%s yields %ld at depth %zu, not %ld", what, (long)v, m.size() - 1 - i, (long)m[i]); ++it; }
    CHECK(i == 0, "traversal", "%s ends %zu elements early", what, i);
    CHECK(it == e, "traversal", "%s: end does not equal itself", what);
  }
  template <class It> void walk_up(It it, It e, size_t i, const char* what) {
    while (it != e) { CHECK(i < m.size(), "traversal", "%s passes the top element", what); int64_t v = val(*it); CHECK(v == m[i], "traversal", "%s yields %ld at position %zu, not %ld", what, (long)v, i, (long)m[i]); ++i; ++it; }
    CHECK(i == m.size(), "traversal", "%s ends %zu elements early", what, m.size() - i);
  }
  void traverse(int64_t how) {
    const S* c = s; sim::obligation(); sim::probe(3);
    switch (how % 9) {
      case 0: walk_down(s->begin(), s->end(), "forward traversal"); break;
      case 1: walk_down(c->begin(), c->end(), "const forward traversal"); break;
      case 2: walk_up(s->rbegin(), s->rend(), 0, "reverse traversal"); break;
      case 3: walk_up(c->rbegin(), c->rend(), 0, "const reverse traversal"); break;
      case 4: { // backwards from the end
        auto it = s->end(); for (size_t i = 0; i < m.size(); i++) { --it; int64_t v = val(*it); CHECK(v == m[i], "traversal", "stepping back from the end yields %ld at position %zu, not %ld", (long)v, i, (long)m[i]); }
        CHECK(it == s->begin(), "traversal", "stepping back over all elements from the end does not reach the beginning"); break; }
      case 5: { auto it = s->rend(); for (size_t i = m.size(); i-- > 0;) { --it; int64_t v = val(*it); CHECK(v == m[i], "traversal", "stepping back from the reverse end yields %ld at position %zu, not %ld", (long)v, i, (long)m[i]); }
        CHECK(it == s->rbegin(), "traversal", "stepping back over all elements from the reverse end does not reach the reverse beginning"); break; }
      case 6: { size_t d = m.empty() ? 0 : (size_t)how / 9 % (m.size() + 1); if (how & 1) walk_up(s->from_top(d), s->rend(), m.size() - d, "traversal from a depth"); else walk_up(c->from_top(d), c->rend(), m.size() - d, "const traversal from a depth"); break; }
      case 7: { auto it = s->begin(); size_t d = m.empty() ? 0 : (size_t)how / 9 % m.size(); it += d; if (!m.empty()) { int64_t v = val(*it); CHECK(v == m[m.size() - 1 - d], "traversal", "begin() advanced by %zu yields %ld, not %ld", d, (long)v, (long)m[m.size() - 1 - d]); auto old = it++; v = val(*old); CHECK(v == m[m.size() - 1 - d], "traversal", "post-increment yields another element"); it -= d + 1; CHECK(it == s->begin(), "traversal", "going forth and back by %zu does not return", d); } break; }
      case 8: { auto it = s->rbegin(); size_t d = m.empty() ? 0 : (size_t)how / 9 % m.size(); it += d; if (!m.empty()) { int64_t v = val(*it); CHECK(v == m[d], "traversal", "rbegin() advanced by %zu yields %ld, not %ld", d, (long)v, (long)m[d]); auto old = it++; v = val(*old); CHECK(v == m[d], "traversal", "post-increment yields another element"); it -= d + 1; CHECK(it == s->rbegin(), "traversal", "going forth and back by %zu does not return", d); } break; }
    }
  }
  // after a failed operation that adds values: a completed prefix of them is there
  void resolve_push(const std::vector<int64_t>& vs, const char* what) {
    size_t n = s->size(); sim::Quiet q; sim::probe(1);
    CHECK(n >= m.size() && n < m.size() + vs.size() + 1, "failed-operation", "a failed %s of %zu values changes the size from %zu to %zu", what, vs.size(), m.size(), n);
    size_t k = n - m.size(); if (vs.size() == 1) CHECK(k == 0, "failed-operation", "a failed %s of one value leaves the stack with %zu elements more", what, k);
    for (size_t i = 0; i < k; i++) m.push_back(vs[i]);
  }
  void run(const Op& o) {
    std::vector<int64_t>* vsp; { sim::Quiet q; vsp = new std::vector<int64_t>; } std::vector<int64_t>& vs = *vsp;
    size_t n = m.size(); int64_t k = o.a; const char* name = s_names[o.code % S_NOPS]; bool threw = false;
    { sim::Quiet q; sim::probe(0); }
    auto fresh = [&](int cnt) { sim::Quiet q; vs.clear(); for (int i = 0; i < cnt; i++) vs.push_back(next++); };
    // values handed to the stack and variables read into are the caller's: they are made without faults
    std::optional<T> a, b, c, d;
    { sim::NoFaults nf; a.emplace(); b.emplace(); c.emplace(); d.emplace(); }
    T* out[4] = {&*a, &*b, &*c, &*d};
    auto load = [&](int cnt) { sim::NoFaults nf; fresh(cnt); for (int i = 0; i < cnt; i++) *out[i] = T(vs[i]); };
    auto outs = [&](int cnt, bool down, size_t from, const char* w) { for (int i = 0; i < cnt; i++) { int64_t v = val(*out[i]), x = down ? m[from - i] : m[from + i]; CHECK(v == x, "read-order", "%s of %d values yields %ld as number %d, not %ld", w, cnt, (long)v, i + 1, (long)x); } };
    try {
      switch (o.code) {
        case PUSH1: load(1); s->push(*a); { sim::Quiet q; m.push_back(vs[0]); } break;
        case PUSHN: { int cnt = 2 + (int)(k % 3); load(cnt); if (cnt == 2) s->push(*a, *b); else if (cnt == 3) s->push(*a, *b, *c); else s->push(*a, *b, *c, *d); sim::Quiet q; for (auto v : vs) m.push_back(v); break; }
        case EMPLACE: fresh(1); s->push_emplace(vs[0]); { sim::Quiet q; m.push_back(vs[0]); } break;
        case PUSHTOP: if (n) { { sim::Quiet q; vs.assign(1, m.back()); } s->push(static_cast<const S*>(s)->top()); sim::Quiet q; m.push_back(vs[0]); } break;
        case POP0: if (n) { s->pop(); sim::Quiet q; m.pop_back(); } break;
        case POPN: { int cnt = 1 + (int)(k % 3); if (n < (size_t)cnt) break; if (cnt == 1) s->pop(*a); else if (cnt == 2) s->pop(*a, *b); else s->pop(*a, *b, *c);
          outs(cnt, true, n - 1, "pop"); sim::Quiet q; m.resize(n - cnt); break; }
        case PEEK: { int cnt = 1 + (int)(k % 3); if (n < (size_t)cnt) break; const S* cs = s; if (cnt == 1) cs->peek(*a); else if (cnt == 2) cs->peek(*a, *b); else cs->peek(*a, *b, *c); outs(cnt, true, n - 1, "peek"); break; }
        case PEEKD: { int cnt = 1 + (int)(k % 3); if (n < (size_t)cnt) break; size_t dep = cnt + (size_t)o.b % (n - cnt + 1); const S* cs = s; if (cnt == 1) cs->peek_depth(dep, *a); else if (cnt == 2) cs->peek_depth(dep, *a, *b); else cs->peek_depth(dep, *a, *b, *c); outs(cnt, false, n - dep, "peek_depth"); break; }
        case PEEKR: { int cnt = 1 + (int)(k % 3); if (n < (size_t)cnt) break; const S* cs = s; if (cnt == 1) cs->peek_reverse(*a); else if (cnt == 2) cs->peek_reverse(*a, *b); else cs->peek_reverse(*a, *b, *c); outs(cnt, false, n - cnt, "peek_reverse"); break; }
        case POPR: { int cnt = 1 + (int)(k % 3); if (n < (size_t)cnt) break; if (cnt == 1) s->pop_reverse(*a); else if (cnt == 2) s->pop_reverse(*a, *b); else s->pop_reverse(*a, *b, *c); outs(cnt, false, n - cnt, "pop_reverse"); sim::Quiet q; m.resize(n - cnt); break; }
        case TOPR: if (n) { int64_t v = val(static_cast<const S*>(s)->top()); CHECK(v == m.back(), "contents", "top is %ld, not %ld", (long)v, (long)m.back()); } break;
        case TOPW: if (n) { load(1); s->top(*a); sim::Quiet q; m.back() = vs[0]; } break;
        case DISCARD: { size_t cnt = n ? (size_t)k % (n + 1) : 0; if (o.b & 1 && cnt > 5) cnt %= 6; s->discard(cnt); sim::Quiet q; m.resize(n - cnt); break; }
        case DISC_IT: if (n) { size_t dep = (size_t)k % n; if (o.b & 1) dep %= 6; auto it = s->begin(); it += dep; s->discard(it); sim::Quiet q; m.resize(n - 1 - dep); } break;
        case DISC_RIT: if (n) { size_t dep = 1 + (size_t)k % n; if (o.b & 1 && dep > 6) dep = 1 + dep % 6; if (o.b & 2) { auto it = s->from_top(dep); s->discard(it); } else { auto it = s->rbegin(); it += n - dep; s->discard(it); } sim::Quiet q; m.resize(n - dep); } break;
        case CLEAR: s->clear(); { sim::Quiet q; m.clear(); } break;
        case SHRINK: s->shrink_to_fit(); break;
        case WALK: traverse(k); break;
        case BULK: for (int64_t i = 0; i < k; i++) { if (m.size() >= cap) break; load(1); s->push(*a); sim::Quiet q; m.push_back(vs[0]); } break;
        case BULKPOP: for (int64_t i = 0; i < k && !m.empty(); i++) { s->pop(*a); int64_t v = val(*a); CHECK(v == m.back(), "read-order", "pop yields %ld, not %ld", (long)v, (long)m.back()); sim::Quiet q; m.pop_back(); } break;
        case STATS: { size_t bl, de, cb, cd; s->getStats(bl, de, cb, cd); CHECK(bl >= cb && (cb - 1) * de + cd == m.size() && cd <= de, "contents", "the statistics (block %zu of %zu, %zu of %zu entries) contradict the size %zu", cb, bl, cd, de, m.size()); break; }
      }
    } catch (CopyError&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
    sim::NoFaults nf;
    if (threw) {
      sim::probe(2);
      switch (o.code) {
        case PUSH1: case PUSHN: case EMPLACE: case PUSHTOP: case BULK: resolve_push(vs, name); break;
        case POPN: { size_t now = s->size(); CHECK(now <= n && now + (size_t)(1 + k % 3) > n, "failed-operation", "a failed pop of %ld values changes the size from %zu to %zu", (long)(1 + k % 3), n, now); sim::Quiet q; m.resize(now); break; }
        default: break;
      }
      name = "a failed operation";
    }
    expect_same(name);
    if (threw) { traverse(0); traverse(2); }
    a.reset(); b.reset(); c.reset(); d.reset();
    sim::Quiet q; delete vsp;
  }
};
template <class S, class T> void p01_go(const Program& p) {
  Seq<S, T>* q; { sim::Quiet x; q = new Seq<S, T>; if (p.p[4]) q->cap = 140000; }
  try { q->s = new S((size_t)p.p[1], (size_t)p.p[2]); } catch (std::bad_alloc&) { sim::Quiet x; delete q; sim::probe(2); return; }
  { sim::NoFaults nf; q->expect_same("construction"); q->traverse(0); q->traverse(2); }
  for (const Op* o = p.ops.data(), *e = o + p.ops.size(); o != e; ++o) q->run(*o);
  { sim::NoFaults nf; for (int i = 0; i < 9; i++) q->traverse(i); }
  delete q->s; sim::Quiet x; delete q;
}
void p01_run(const Program& p) {
  uint64_t mark = sim::alloc_seq();
  e_live = 0; e_may_throw = true;
  if (p.p[3]) sim::faults_global(1u << sim::F_ALLOC | 1u << sim::F_COPY_THROW);
  switch (p.p[0]) {
    case 0: p01_go<PagedStack<Elem>, Elem>(p); break;
    case 1: p01_go<PagedStack<int64_t>, int64_t>(p); break;
    default: p01_go<PagedStack<Elem, std::allocator, std::mutex>, Elem>(p); break;
  }
  CHECK(e_live == 0, "element-lifetime", "%ld elements are alive after the stack is gone", (long)e_live);
  sim::check_leaks(mark, "after the stack is destroyed");
}
void p01_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p);
  static const int ps[] = {1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 16, 64, 1024, 0};
  p.p[0] = r.below(3); p.p[1] = r.pick(ps); static const int pre[] = {1, 1, 1, 2, 2, 3, 4, 0}; p.p[2] = r.pick(pre); if (r.chance(1)) p.p[2] = r.chance(50) ? r.range(200, 300) : 1024; p.p[3] = r.chance(50);
  p.mask = p.p[3] ? (1u << sim::F_ALLOC | 1u << sim::F_COPY_THROW) : 0;
  int total = (int)r.range(1, r.chance(70) ? 25 : tier ? 160 : 80);
  uint64_t allow = r.next() | r.next(); if (r.chance(30)) allow = ~0ull; allow |= 1u << PUSH1;
  for (int i = 0; i < total; i++) {
    Op o; do o.code = (int)r.below(S_NOPS); while (!(allow >> o.code & 1)); if (r.chance(12)) o.code = PUSH1;
    o.a = o.code == BULK || o.code == BULKPOP ? (r.chance(80) ? r.below(12) : r.below(150)) : o.code == CLEAR || o.code == SHRINK ? 0 : (int64_t)r.below(1000); o.b = r.below(64);
    if ((o.code == CLEAR || o.code == DISCARD) && r.chance(50)) o.code = BULK, o.a = r.below(10);
    p.ops.push_back(o);
  }
  if (r.chance(1)) { Op o; o.code = BULK; o.a = !tier || r.chance(95) ? (int64_t)r.range(250, 600) : (int64_t)r.range(65530, 66000); if (o.a > 1000) { p.p[0] = 1; p.p[4] = 1; p.p[1] = r.chance(50) ? 64 : 1024; p.p[3] = 0; p.mask = 0; if (p.ops.size() > 12) p.ops.resize(12); } p.ops.insert(p.ops.begin() + (int64_t)r.below(p.ops.size() + 1), o); }
}
std::string p01_opname(const Program&, const Op& o) { return std::string(s_names[o.code % S_NOPS]) + " " + std::to_string(o.a); }
const char* const p01_probes[] = {"operations", "failed_pushes", "failed_operations", "traversals", nullptr};
RegisterProp R_p01({"P01", p01_gen, p01_run, 3000000, p01_opname, p01_probes});

// ------------------------------------------------------------------------------ P02
enum { C_PUSH, C_PUSHN, C_EMPLACE, C_POP, C_POPN, C_POPR, C_PEEK, C_PEEKR, C_DISCARD, C_TOPW, C_CLEAR, C_SIZE, C_EMPTY, C_SHRINK, C_STATS, C_PEEKD, C_DISCIT, C_FROMTOP, C_NOPS };
const char* const c_names[] = {"push", "push several", "emplace", "pop", "pop several", "pop_reverse", "peek", "peek_reverse", "discard", "replace top", "clear", "size", "empty", "shrink", "stats", "peek_depth", "discard to an iterator", "from_top"};
struct COp { int code, n; int64_t v[4]; uint64_t call, ret; };
struct CModel {
  std::vector<int64_t> s;
  std::string key() const { return std::string((const char*)s.data(), s.size() * 8); }
  bool step(const COp& o) {
    size_t n = s.size();
    switch (o.code) {
      case C_PUSH: case C_PUSHN: case C_EMPLACE: for (int i = 0; i < o.n; i++) s.push_back(o.v[i]); return true;
      case C_POP: case C_POPN: if (n < (size_t)o.n) return false; for (int i = 0; i < o.n; i++) if (s[n - 1 - i] != o.v[i]) return false; s.resize(n - o.n); return true;
      case C_PEEK: if (n < (size_t)o.n) return false; for (int i = 0; i < o.n; i++) if (s[n - 1 - i] != o.v[i]) return false; return true;
      case C_POPR: if (n < (size_t)o.n) return false; for (int i = 0; i < o.n; i++) if (s[n - o.n + i] != o.v[i]) return false; s.resize(n - o.n); return true;
      case C_PEEKR: if (n < (size_t)o.n) return false; for (int i = 0; i < o.n; i++) if (s[n - o.n + i] != o.v[i]) return false; return true;
      case C_DISCARD: if (n < (size_t)o.n) return false; s.resize(n - o.n); return true;
      case C_TOPW: if (!n) return false; s.back() = o.v[0]; return true;
      case C_CLEAR: s.clear(); return true;
      case C_SIZE: case C_STATS: return o.v[0] == (int64_t)n;
      case C_EMPTY: return (o.v[0] != 0) == (n == 0);
      case C_SHRINK: case C_FROMTOP: return true;
      case C_PEEKD: if (n < (size_t)o.v[3]) return false; for (int i = 0; i < o.n; i++) if (s[n - o.v[3] + i] != o.v[i]) return false; return true;
      case C_DISCIT: if (n <= (size_t)o.v[0]) return false; s.resize(o.v[0]); return true;
    }
    return false;
  }
};
std::string chist(const std::vector<std::vector<COp>>& h) {
  std::string s; for (size_t t = 0; t < h.size(); t++) for (auto& x : h[t]) { char b[160]; snprintf(b, sizeof b, " T%zu [%lu,%lu] %s", t, (unsigned long)x.call, (unsigned long)x.ret, c_names[x.code]); std::string l = b; for (int i = 0; i < x.n; i++) l += (i ? "," : " ") + std::to_string(x.v[i]); if (s.size() < 4000) s += l + ";"; }
  return s;
}
struct PlainLock { std::atomic<int> f{0}; void lock() { while (f.exchange(1, std::memory_order_acquire)) std::this_thread::yield(); } void unlock() { f.store(0, std::memory_order_release); } };
template <class S> void p02_go(const Program& p) {
  S* s = new S((size_t)p.p[3], (size_t)p.p[4]); int n = (int)p.p[2];
  static std::vector<std::vector<COp>>* H; { sim::Quiet q; H = new std::vector<std::vector<COp>>(n + 2); }
  static int64_t budget[130]; for (auto& b : budget) b = 0; static int64_t seq[130]; for (auto& x : seq) x = 0;
  bool budgeted = p.p[5] == 0;
  // elements at the bottom that only a discard down to them removes, and iterators to them
  using It = typename S::iterator; using Rit = typename S::reverse_iterator; std::vector<It> its; std::vector<Rit> rits; static int pos; pos = (int)p.p[6];
  for (int i = 0; i < (int)p.p[6]; i++) { COp x{}; x.code = C_PUSH; x.n = 1; x.v[0] = 9000000 + i; { Elem a(x.v[0]); x.call = sim::stamp(); s->push(a); x.ret = sim::stamp(); } sim::Quiet q; (*H)[0].push_back(x); }
  if (p.p[6] && !budgeted) { for (It i = s->begin(); i != s->end(); ++i) { sim::Quiet q; its.insert(its.begin(), i); } for (Rit i = s->rbegin(); i != s->rend(); ++i) { sim::Quiet q; rits.push_back(i); } sim::Quiet q; CHECK(its.size() == (size_t)p.p[6] && rits.size() == its.size(), "linearizability", "the iterators go over %zu and %zu elements, there are %d", its.size(), rits.size(), (int)p.p[6]); }
  int64_t base = budgeted ? p.p[6] : 0;       // elements that stay
  run_threads(p, n, [s, budgeted, base, &its, &rits](const Op& o) {
    int t = sim::tid(); COp x{}; x.code = o.code; int64_t& bud = budget[t];
    int k = 1 + (int)(o.a % 3); Elem a, b, c; Elem* out[3] = {&a, &b, &c};
    auto fresh = [&](int cnt) { x.n = cnt; for (int i = 0; i < cnt; i++) { x.v[i] = t * 100000 + ++seq[t]; *out[i] = Elem(x.v[i]); } };
    auto got = [&](int cnt) { x.n = cnt; for (int i = 0; i < cnt; i++) x.v[i] = val(*out[i]); };
    bool needs = o.code == C_POP || o.code == C_POPN || o.code == C_POPR || o.code == C_PEEK || o.code == C_PEEKR || o.code == C_DISCARD || o.code == C_TOPW || o.code == C_PEEKD || o.code == C_FROMTOP;
    if (needs && (!budgeted || bud == 0)) return;
    if (o.code == C_CLEAR && (budgeted || its.size())) return;
    if (o.code == C_DISCIT && (t != 1 || budgeted || !pos || its.empty())) return;    // one thread goes down
    if (k > bud) k = (int)bud;
    // a push that fails for want of memory has no effect
    auto failing = [&](auto f) { try { sim::FaultWindow w(1u << sim::F_ALLOC); f(); return false; } catch (std::bad_alloc&) { sim::Quiet q; sim::probe(C_NOPS + 1); CHECK(sim::fault_hits(sim::F_ALLOC), "unexpected-error", "a push reports a lack of memory that does not exist"); return true; } };
    switch (o.code) {
      case C_PUSH: fresh(1); x.call = sim::stamp(); if (!failing([&] { s->push(a); })) { x.ret = sim::stamp(); bud += 1; } break;
      case C_PUSHN: { int cnt = 2 + (int)(o.a & 1); fresh(cnt); x.call = sim::stamp(); if (cnt == 2) s->push(a, b); else s->push(a, b, c); x.ret = sim::stamp(); bud += cnt; break; }
      case C_EMPLACE: fresh(1); x.call = sim::stamp(); if (!failing([&] { s->push_emplace(x.v[0]); })) { x.ret = sim::stamp(); bud += 1; } break;
      case C_POP: x.call = sim::stamp(); if (o.b & 1) { s->pop(); x.ret = sim::stamp(); x.code = C_DISCARD; x.n = 1; } else { s->pop(a); x.ret = sim::stamp(); got(1); } bud -= 1; break;
      case C_POPN: x.call = sim::stamp(); if (k == 1) s->pop(a); else if (k == 2) s->pop(a, b); else s->pop(a, b, c); x.ret = sim::stamp(); got(k); bud -= k; break;
      case C_POPR: x.call = sim::stamp(); if (k == 1) s->pop_reverse(a); else if (k == 2) s->pop_reverse(a, b); else s->pop_reverse(a, b, c); x.ret = sim::stamp(); got(k); bud -= k; break;
      case C_PEEK: { const S* cs = s; x.call = sim::stamp(); if (k == 1) cs->peek(a); else if (k == 2) cs->peek(a, b); else cs->peek(a, b, c); x.ret = sim::stamp(); got(k); break; }
      case C_PEEKR: { const S* cs = s; x.call = sim::stamp(); if (o.b & 1) { if (k == 1) cs->peek_depth(1, a); else if (k == 2) cs->peek_depth(2, a, b); else cs->peek_depth(3, a, b, c); } else { if (k == 1) cs->peek_reverse(a); else if (k == 2) cs->peek_reverse(a, b); else cs->peek_reverse(a, b, c); } x.ret = sim::stamp(); got(k); break; }
      case C_DISCARD: { int64_t cnt = o.b % (bud + 1); x.n = 0; x.call = sim::stamp(); s->discard((size_t)cnt); x.ret = sim::stamp(); x.n = (int)cnt; bud -= cnt; break; }
      case C_TOPW: fresh(1); x.call = sim::stamp(); s->top(a); x.ret = sim::stamp(); break;
      case C_CLEAR: x.call = sim::stamp(); s->clear(); x.ret = sim::stamp(); break;
      case C_SIZE: x.call = sim::stamp(); x.v[0] = (int64_t)s->size(); x.ret = sim::stamp(); break;
      case C_EMPTY: x.call = sim::stamp(); x.v[0] = s->empty(); x.ret = sim::stamp(); break;
      case C_SHRINK: x.call = sim::stamp(); s->shrink_to_fit(); x.ret = sim::stamp(); break;
      case C_STATS: { size_t bl, de, cb, cd; x.call = sim::stamp(); s->getStats(bl, de, cb, cd); x.ret = sim::stamp(); CHECK(cb <= bl && cd <= de, "linearizability", "torn statistics"); x.v[0] = (int64_t)((cb - 1) * de + cd); break; }
      case C_PEEKD: { int64_t d = k + (base > 6 ? o.b * 29 : o.b) % (base + bud - k + 1); const S* cs = s; x.call = sim::stamp(); if (k == 1) cs->peek_depth((size_t)d, a); else if (k == 2) cs->peek_depth((size_t)d, a, b); else cs->peek_depth((size_t)d, a, b, c); x.ret = sim::stamp(); got(k); x.v[3] = d; break; }
      case C_DISCIT: { pos -= 1 + (int)(o.b % pos); x.v[0] = pos; x.call = sim::stamp(); if (o.a & 1) s->discard(its[pos]); else s->discard(rits[pos]); x.ret = sim::stamp(); break; }
      case C_FROMTOP: { size_t d = 1 + (size_t)((base > 6 ? o.b * 29 : o.b) % (base + bud)); const S* cs = s; x.call = sim::stamp(); if (o.a & 1) s->from_top(d); else cs->from_top(d); x.ret = sim::stamp(); break; }
    }
    sim::Quiet q; sim::obligation(); sim::probe(o.code); if (x.ret) (*H)[t].push_back(x);
  });
  // what is left, popped one by one, completes the history
  for (;;) { bool e = s->empty(); if (e) break; COp x{}; x.code = C_POP; x.n = 1; { Elem a; x.call = sim::stamp(); s->pop(a); x.ret = sim::stamp(); x.v[0] = val(a); } sim::Quiet q; (*H)[0].push_back(x); CHECK((*H)[0].size() < 800, "linearizability", "the stack never becomes empty"); }
  { COp x{}; x.code = C_SIZE; x.call = sim::stamp(); x.v[0] = (int64_t)s->size(); x.ret = sim::stamp(); sim::Quiet q; (*H)[0].push_back(x); }
  { sim::Quiet q; LinChecker<CModel, COp> lc(*H); if (!lc.check(CModel())) sim::fail("linearizability", "no order of the calls explains the results:%s", chist(*H).c_str()); if (lc.gave_up) sim::probe(C_NOPS); }
  delete s;
}
void p02_run(const Program& p) {
  e_live = 0; e_may_throw = false; uint64_t mark = sim::alloc_seq(); sim::faults_global(1u << sim::F_WEAKCAS);
  switch (p.p[0]) {
    case 0: case 1: p02_go<PagedStack<Elem, std::allocator, std::mutex>>(p); break;
    case 2: p02_go<PagedStack<Elem, std::allocator, Futex<3>>>(p); break;
    case 3: p02_go<PagedStack<Elem, std::allocator, std::recursive_mutex>>(p); break;
    default: p02_go<PagedStack<Elem, std::allocator, PlainLock>>(p); break;
  }
  CHECK(e_live == 0, "element-lifetime", "%ld elements are alive after the stack is gone", (long)e_live);
  sim::check_leaks(mark, "after the stack is destroyed");
}
void p02_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); p.mask = 1u << sim::F_WEAKCAS; if (r.chance(20)) p.mask |= 1u << sim::F_ALLOC; p.p[0] = r.below(5); int n = (int)r.range(2, 4); p.p[2] = n; static const int ps[] = {1, 2, 2, 3, 4, 8}; p.p[3] = r.pick(ps); p.p[4] = r.range(1, 3); p.p[5] = r.chance(25); p.p[6] = r.chance(p.p[5] ? 60 : 25) ? r.range(1, 6) : 0; if (r.chance(3)) p.p[6] = r.range(120, 300);
  int total = (int)r.range(3, tier ? 30 : 18); uint64_t allow = r.next() | r.next(); if (r.chance(30)) allow = ~0ull; allow |= 1;
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); do o.code = (int)r.below(C_NOPS); while (!(allow >> o.code & 1)); if (r.chance(30)) o.code = r.chance(50) ? C_PUSH : C_PUSHN; o.a = r.below(12); o.b = r.below(12); p.ops.push_back(o); }
}
std::string p02_opname(const Program&, const Op& o) { return "T" + std::to_string(o.thr) + " " + c_names[o.code % C_NOPS] + " " + std::to_string(o.a); }
const char* const p02_probes[] = {"push", "push_several", "emplace", "pop", "pop_several", "pop_reverse", "peek", "peek_reverse", "discard", "replace_top", "clear", "size", "empty", "shrink", "stats", "peek_depth", "discard_to_iterator", "from_top", "histories_too_long_to_decide", "push_failed", nullptr};
RegisterProp R_p02({"P02", p02_gen, p02_run, 600000, p02_opname, p02_probes});

// ------------------------------------------------------------------------------ P03
enum { I_BEGIN, I_END, I_COPY, I_ASSIGN, I_DROP, I_GET, I_INC, I_DEC, I_EQ, I_WALK, I_PUSH, I_PUSHN, I_POP, I_DISCARD, I_TOPW, I_SHRINK, I_CLEAR, I_NOPS };
const char* const i_names[] = {"sync_begin", "sync_end", "copy iterator", "assign iterator", "destroy iterator", "read", "move down", "move up", "compare", "walk", "push", "push several", "pop", "discard", "replace top", "shrink", "clear"};
enum { NSLOTS = 3 };
struct IOp { int code, slot, slot2; int n; int64_t v[3]; int res; uint64_t call, ret; };   // res: -1 error, else outcome
struct IModel {
  std::vector<int64_t> s; std::vector<int64_t> pos; // per thread*NSLOTS: -2 none, -1 end, else position; 1<<40|p: p or anything above (went up from the top)
  std::string key() const { std::string k((const char*)s.data(), s.size() * 8); k.append((const char*)pos.data(), pos.size() * 8); return k; }
  static const int64_t UP = 1ll << 40;
  // brings the position into the stack; false: was not there (now at the top)
  int sync(int64_t& p) { if (p >= 0 && p < (int64_t)s.size()) return 1; if (s.empty()) return -1; p = (int64_t)s.size() - 1; return 0; }
  bool step(const IOp& o) {
    size_t n = s.size();
    switch (o.code) {
      case I_BEGIN: pos[o.slot] = (int64_t)n - 1; return true;
      case I_END: pos[o.slot] = -1; return true;
      case I_COPY: case I_ASSIGN: pos[o.slot] = pos[o.slot2]; return true;
      case I_DROP: pos[o.slot] = -2; return true;
      case I_GET: { int r = sync(pos[o.slot]); if (r < 0) return o.res == -1; return o.res == 0 && o.v[0] == s[pos[o.slot]]; }
      case I_INC: { int64_t& p = pos[o.slot]; int r = sync(p); if (r < 0) return o.res == -1; if (o.res) return false; if (r == 1) p--; return true; }
      case I_DEC: { int64_t& p = pos[o.slot]; int r = sync(p); if (r < 0) return o.res == -1; if (o.res) return false; if (r == 1 && p + 1 < (int64_t)n) p++; return true; }
      case I_EQ: return o.res == (pos[o.slot] == pos[o.slot2]);
      case I_PUSH: case I_PUSHN: for (int i = 0; i < o.n; i++) s.push_back(o.v[i]); return true;
      case I_POP: if (n < (size_t)o.n) return false; for (int i = 0; i < o.n; i++) if (s[n - 1 - i] != o.v[i]) return false; s.resize(n - o.n); return true;
      case I_DISCARD: if (n < (size_t)o.n) return false; s.resize(n - o.n); return true;
      case I_TOPW: if (!n) return false; s.back() = o.v[0]; return true;
      case I_CLEAR: s.clear(); return true;
      case I_SHRINK: return true;
    }
    return false;
  }
};
template <class S, bool CONST> void p03_go(const Program& p) {
  using SI = std::conditional_t<CONST, typename S::const_sync_iterator, typename S::sync_iterator>;
  S* s = new S((size_t)p.p[3], (size_t)p.p[4]); std::conditional_t<CONST, const S*, S*> si = s; int n = (int)p.p[2];
  static std::vector<std::vector<IOp>>* H; { sim::Quiet q; H = new std::vector<std::vector<IOp>>(n + 2); }
  static int64_t budget[130]; for (auto& b : budget) b = 0; static int64_t seq[130]; for (auto& x : seq) x = 0;
  static std::optional<SI>* slots; { sim::Quiet q; slots = new std::optional<SI>[130 * NSLOTS]; }
  static int where_[130 * NSLOTS]; for (auto& w : where_) w = 0;     // 1: may be at the top going up is untested
  std::vector<int64_t>* pre; { sim::Quiet q; pre = new std::vector<int64_t>; } for (int64_t i = 0; i < p.p[6]; i++) { Elem e(5000000 + i); s->push(e); sim::Quiet q; pre->push_back(5000000 + i); }      // so many that a short position counter wraps
  bool budgeted = p.p[5] == 0;
  auto ops = [s, si, budgeted](const Op& o) {
    int t = sim::tid(); IOp x{}; x.code = o.code; int base = t * NSLOTS; x.slot = base + (int)(o.b % NSLOTS); x.slot2 = base + (int)(o.c % NSLOTS);
    int64_t& bud = budget[t]; auto& it = slots[x.slot]; auto& it2 = slots[x.slot2];
    auto rec = [&] { sim::Quiet q; sim::obligation(); sim::probe(o.code); (*H)[t].push_back(x); };
    Elem a, b; Elem* out[2] = {&a, &b};
    auto fresh = [&](int cnt) { x.n = cnt; for (int i = 0; i < cnt; i++) { x.v[i] = t * 100000 + ++seq[t]; *out[i] = Elem(x.v[i]); } };
    auto drop = [&](int sl) { if (!slots[sl]) return; IOp d{}; d.code = I_DROP; d.slot = sl; d.call = sim::stamp(); slots[sl].reset(); d.ret = sim::stamp(); sim::Quiet q; (*H)[t].push_back(d); };
    switch (o.code) {
      case I_BEGIN: drop(x.slot); x.call = sim::stamp(); it.emplace(si->sync_begin()); x.ret = sim::stamp(); rec(); break;
      case I_END: drop(x.slot); x.call = sim::stamp(); it.emplace(si->sync_end()); x.ret = sim::stamp(); rec(); break;
      case I_COPY: if (!it2 || x.slot == x.slot2) break; drop(x.slot); x.call = sim::stamp(); it.emplace(*it2); x.ret = sim::stamp(); rec(); break;
      case I_ASSIGN: if (!it2 || !it) break; x.call = sim::stamp(); *it = *it2; x.ret = sim::stamp(); rec(); break;
      case I_DROP: drop(x.slot); break;
      case I_GET: if (!it) break; x.call = sim::stamp(); try { it->get(a); x.res = 0; } catch (std::runtime_error&) { x.res = -1; } x.ret = sim::stamp(); if (!x.res) { x.v[0] = val(a); x.n = 1; } rec(); break;
      case I_INC: if (!it) break; x.call = sim::stamp(); try { ++*it; x.res = 0; } catch (std::runtime_error&) { x.res = -1; } x.ret = sim::stamp(); rec(); break;
      case I_DEC: if (!it) break; x.call = sim::stamp(); try { --*it; x.res = 0; } catch (std::runtime_error&) { x.res = -1; } x.ret = sim::stamp(); rec(); break;
      case I_EQ: if (!it || !it2) break; x.call = sim::stamp(); x.res = o.a & 1 ? *it == *it2 : !(*it != *it2); x.ret = sim::stamp(); rec(); break;
      case I_WALK: { // a whole traversal with reads, as a user writes it
        drop(x.slot); x.code = I_BEGIN; x.call = sim::stamp(); it.emplace(si->sync_begin()); x.ret = sim::stamp(); rec();
        SI end = si->sync_end();
        for (int i = 0; i < 12; i++) {
          bool fin = *it == end; if (fin) break;
          IOp g{}; g.code = I_GET; g.slot = x.slot; g.call = sim::stamp(); try { it->get(a); g.res = 0; } catch (std::runtime_error&) { g.res = -1; } g.ret = sim::stamp(); if (!g.res) { g.v[0] = val(a); g.n = 1; } { sim::Quiet q; (*H)[t].push_back(g); }
          IOp m{}; m.code = I_INC; m.slot = x.slot; m.call = sim::stamp(); try { ++*it; m.res = 0; } catch (std::runtime_error&) { m.res = -1; } m.ret = sim::stamp(); { sim::Quiet q; (*H)[t].push_back(m); }
          if (g.res < 0 || m.res < 0) break;
        }
        sim::probe(I_WALK); break; }
      case I_PUSH: fresh(1); x.call = sim::stamp(); s->push(a); x.ret = sim::stamp(); bud++; rec(); break;
      case I_PUSHN: fresh(2); x.call = sim::stamp(); s->push(a, b); x.ret = sim::stamp(); bud += 2; rec(); break;
      case I_POP: if (!budgeted || !bud) break; x.call = sim::stamp(); s->pop(a); x.ret = sim::stamp(); bud--; x.n = 1; x.v[0] = val(a); rec(); break;
      case I_DISCARD: { if (!budgeted) break; int64_t c = o.a % (bud + 1); x.call = sim::stamp(); s->discard((size_t)c); x.ret = sim::stamp(); bud -= c; x.n = (int)c; rec(); break; }
      case I_TOPW: if (!budgeted || !bud) break; fresh(1); x.call = sim::stamp(); s->top(a); x.ret = sim::stamp(); rec(); break;
      case I_SHRINK: x.call = sim::stamp(); s->shrink_to_fit(); x.ret = sim::stamp(); rec(); break;
      case I_CLEAR: if (budgeted) break; x.call = sim::stamp(); s->clear(); x.ret = sim::stamp(); rec(); break;
    }
  };
  run_threads(p, n, ops);
  // an undisturbed traversal
  { std::vector<int64_t>* seen; { sim::Quiet q; seen = new std::vector<int64_t>; }
    S* other = new S(2, 1); { Elem e(1); other->push(e); } std::conditional_t<CONST, const S*, S*> oi = other;      // the iterator belonged to another stack before
    { SI it = oi->sync_begin(); it = si->sync_begin(); SI end = si->sync_end(); while (it != end) { Elem e; it.get(e); int64_t v = val(e); { sim::Quiet q; seen->push_back(v); CHECK(seen->size() < 400 + pre->size(), "traversal", "an undisturbed traversal does not end"); } ++it; } }
    delete other; size_t n2 = s->size(); sim::Quiet q; CHECK(seen->size() == n2, "traversal", "an undisturbed traversal of %zu elements visits %zu", n2, seen->size());
    size_t left = seen->size(); for (auto v : *seen) { if (left-- < pre->size() && p.p[6] > 12) break; IOp x{}; x.code = I_POP; x.n = 1; x.v[0] = v; x.call = sim::stamp(); x.ret = sim::stamp(); (*H)[0].push_back(x); } delete seen; }
  for (int i = 0; i < 130 * NSLOTS; i++) slots[i].reset();
  { sim::Quiet q; LinChecker<IModel, IOp> lc(*H, 200000); IModel m; m.s = *pre; delete pre; m.pos.assign((n + 2) * NSLOTS, -2);
    if (!lc.check(m)) {
      std::string h; for (size_t t = 0; t < H->size(); t++) for (auto& x : (*H)[t]) { char b[160]; snprintf(b, sizeof b, " T%zu [%lu,%lu] %s", t, (unsigned long)x.call, (unsigned long)x.ret, i_names[x.code]); std::string l = b; if (x.code <= I_EQ) l += " it" + std::to_string(x.slot % NSLOTS); if (x.code == I_COPY || x.code == I_ASSIGN || x.code == I_EQ) l += " it" + std::to_string(x.slot2 % NSLOTS); if (x.code == I_EQ || x.res < 0) l += " -> " + std::to_string(x.res); for (int i = 0; i < x.n; i++) l += " " + std::to_string(x.v[i]); if (h.size() < 4500) h += l + ";"; }
      sim::fail("linearizability", "no order of the calls explains the results:%s", h.c_str());
    }
    if (lc.gave_up) sim::probe(I_NOPS); }
  delete s; sim::Quiet q; delete[] slots;
}
void p03_run(const Program& p) {
  e_live = 0; e_may_throw = false; uint64_t mark = sim::alloc_seq(); sim::faults_global(1u << sim::F_WEAKCAS);
  switch (p.p[0]) {
    case 0: p03_go<PagedStack<Elem, std::allocator, std::mutex>, false>(p); break;
    case 1: p03_go<PagedStack<Elem, std::allocator, std::mutex>, true>(p); break;
    default: p03_go<PagedStack<Elem, std::allocator, PlainLock>, false>(p); break;
  }
  CHECK(e_live == 0, "element-lifetime", "%ld elements are alive after the stack is gone", (long)e_live);
  sim::check_leaks(mark, "after the stack and its iterators are destroyed");
}
void p03_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); p.p[0] = r.below(3); int n = r.chance(25) ? 1 : (int)r.range(2, 3); p.p[2] = n; static const int ps[] = {1, 2, 2, 3, 4, 8}; p.p[3] = r.pick(ps); p.p[4] = r.range(1, 3); p.p[5] = r.chance(25);
  int total = (int)r.range(3, tier ? 36 : 22); uint64_t allow = r.next() | r.next(); if (r.chance(40)) allow = ~0ull; allow |= 1u << I_PUSH | 1u << I_BEGIN | 1u << I_GET;
  if (r.chance(10)) p.p[6] = r.chance(70) ? r.range(1, 9) : r.range(120, 300);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); do o.code = (int)r.below(I_NOPS); while (!(allow >> o.code & 1)); if (r.chance(35)) { static const int f[] = {I_PUSH, I_PUSHN, I_BEGIN, I_GET, I_INC, I_DEC, I_POP}; o.code = r.pick(f); } o.a = r.below(8); o.b = r.below(NSLOTS); o.c = r.below(NSLOTS); p.ops.push_back(o); }
}
std::string p03_opname(const Program&, const Op& o) { return "T" + std::to_string(o.thr) + " " + i_names[o.code % I_NOPS] + " it" + std::to_string(o.b) + " it" + std::to_string(o.c); }
const char* const p03_probes[] = {"sync_begin", "sync_end", "copies", "assignments", "destroyed", "reads", "moves_down", "moves_up", "comparisons", "walks", "push", "push_several", "pop", "discard", "replace_top", "shrink", "clear", "histories_too_long_to_decide", nullptr};
RegisterProp R_p03({"P03", p03_gen, p03_run, 600000, p03_opname, p03_probes});

// ------------------------------------------------------------------------------ P04
enum { M_PUSH, M_BULK, M_POP, M_BULKPOP, M_DISCARD, M_CLEAR, M_SHRINK, M_ITNEW, M_ITCOPY, M_ITASSIGN, M_ITDROP, M_ITGET, M_ITMOVE, M_POPR, M_DISCIT, M_ITMANY, M_ITNONE, M_ITOTHER, M_OTHER, M_NOPS };
const char* const m_names[] = {"push", "push many", "pop", "pop many", "discard", "clear", "shrink", "new iterator", "copy iterator", "assign iterator", "destroy iterator", "read iterator", "move iterator", "pop_reverse", "discard to iterator", "many more iterators", "destroy them", "assign an iterator of another stack", "change the other stack"};
template <class S> void p04_go(const Program& p, bool counted) {
  using SI = typename S::sync_iterator;
  size_t page = (size_t)p.p[3]; int n = (int)p.p[2];
  S *s, *s2;      // the second one is there for iterators that change sides
  try { s = new S(page, (size_t)p.p[4]); } catch (std::bad_alloc&) { sim::probe(M_NOPS); return; }
  try { s2 = new S(page, 1); } catch (std::bad_alloc&) { delete s; sim::probe(M_NOPS); return; }
  static std::optional<SI> *slots; { sim::Quiet q; slots = new std::optional<SI>[130 * NSLOTS]; }
  static std::deque<SI>* crowd; { sim::NoFaults nf; crowd = new std::deque<SI>[130]; }
  static int nit; nit = 0; static bool pending; pending = false; static int nit2; nit2 = 0; static bool pending2; pending2 = false; static signed char owner[130 * NSLOTS]; memset(owner, 0, sizeof owner); static int64_t budget[130]; for (auto& b : budget) b = 0;
  bool single = n == 0;
  static size_t maxsize; maxsize = 0;
  auto stats = [s](size_t& blocks, size_t& cur) { size_t de, cd; s->getStats(blocks, de, cur, cd); };
  auto exact2 = [=](const char* when) { size_t bl, de, cb, cd; s2->getStats(bl, de, cb, cd); size_t sz = s2->size(), use = sz ? (sz + page - 1) / page : 1; sim::Quiet q; sim::obligation(); CHECK(bl == use, "pages", "%s %zu pages of the second stack are kept for %zu elements of which %zu fit a page (expected %zu)", when, bl, sz, page, use); };
  auto exact = [&, counted](const char* when) {        // only called single-threaded
    size_t bl, cb, b2, d2, c2, e2; stats(bl, cb); s2->getStats(b2, d2, c2, e2); size_t sz = s->size(), sz2 = s2->size(); size_t use = sz ? (sz + page - 1) / page : 1;
    CHECK(bl == use, "pages", "%s %zu pages are kept for %zu elements of which %zu fit a page (expected %zu)", when, bl, sz, page, use);
    sim::Quiet q; sim::obligation(); (void)sz2; if (counted) CHECK(a_big <= (int64_t)(use + b2), "pages", "%s %ld blocks of elements are outstanding, %zu pages are in use", when, (long)a_big, use + b2);
  };
  static bool released; released = false;
  auto gone = [&] { if (pending && nit == 0) { pending = false; released = true; if (single) exact("when the last synchronised iterator is gone after a shrink request"); } if (pending2 && nit2 == 0) { pending2 = false; if (single) exact2("when the last synchronised iterator is gone after a shrink request"); } };
  auto owns = [&](int slot, int o) { { sim::Quiet q; if (o == 1) nit++; if (o == 2) nit2++; if (owner[slot] == 1) nit--; if (owner[slot] == 2) nit2--; owner[slot] = (signed char)o; } gone(); };
  auto fn = [&, s](const Op& o) {
    int t = sim::tid(), sl = t * NSLOTS + (int)(o.b % NSLOTS), sl2 = t * NSLOTS + (int)(o.c % NSLOTS); auto& it = slots[sl]; auto& it2 = slots[sl2]; int64_t& bud = budget[t]; size_t was_bl = 0, was_cur; if (single) { released = false; stats(was_bl, was_cur); }
    { sim::Quiet q; sim::probe(o.code); sim::obligation(); }
    try {
      switch (o.code) {
        case M_PUSH: { Elem* e; { sim::NoFaults nf; e = new Elem(bud); } try { s->push(*e); } catch (...) { delete e; throw; } delete e; bud++; break; }
        case M_BULK: for (int64_t i = 0; i < o.a; i++) { s->push_emplace(i); bud++; } break;
        case M_POP: if (bud) { s->pop(); bud--; } break;
        case M_BULKPOP: for (int64_t i = 0; i < o.a && bud; i++) { s->pop(); bud--; } break;
        case M_DISCARD: { int64_t c = o.a % (bud + 1); s->discard((size_t)c); bud -= c; break; }
        case M_POPR: if (bud >= 2) { Elem *a, *b; { sim::NoFaults nf; a = new Elem; b = new Elem; } try { s->pop_reverse(*a, *b); } catch (...) { delete a; delete b; throw; } delete a; delete b; bud -= 2; } break;
        case M_DISCIT: if (single && bud) { int64_t d = o.a % bud; auto i = s->begin(); i += (size_t)d; s->discard(i); bud -= d + 1; } break;
        case M_CLEAR: if (single) { s->clear(); bud = 0; } break;
        case M_SHRINK: {
          size_t b0, c0, b1, c1; if (single) stats(b0, c0);
          { sim::Quiet q; if (single && nit > 0) pending = true; }
          s->shrink_to_fit(); if (single && nit == 0) released = true;
          if (single) { if (nit == 0) exact("after a shrink"); else { stats(b1, c1); CHECK(b1 == b0, "pages", "a shrink with %d synchronised iterators alive changes the pages from %zu to %zu", nit, b0, b1); } }
          break; }
        case M_ITNEW: if (it) { it.reset(); owns(sl, 0); } if (o.a & 1) it.emplace(s->sync_begin()); else it.emplace(s->sync_end()); owns(sl, 1); break;
        case M_ITCOPY: if (!it2 || &it == &it2) break; if (it) { it.reset(); owns(sl, 0); } it.emplace(*it2); owns(sl, owner[sl2]); break;
        case M_ITASSIGN: if (it && it2) { *it = *it2; owns(sl, owner[sl2]); } break;
        case M_ITOTHER: if (it) { SI o2 = s2->sync_begin(); { sim::Quiet q; nit2++; } *it = o2; owns(sl, 2); } else { it.emplace(s2->sync_begin()); owns(sl, 2); break; } { sim::Quiet q; nit2--; } gone(); break;
        case M_OTHER: if (t <= 1) { size_t b0, d0, c0, e0, b1; switch (o.a % 4) { case 0: case 1: for (int i = 0; i < 1 + o.a % 9; i++) s2->push_emplace(i); break; case 2: s2->discard((size_t)o.a % (s2->size() + 1)); break;
          case 3: s2->getStats(b0, d0, c0, e0); { sim::Quiet q; if (single && nit2 > 0) pending2 = true; } s2->shrink_to_fit(); if (single) { if (nit2 == 0) exact2("after a shrink"); else { s2->getStats(b1, d0, c0, e0); CHECK(b1 == b0, "pages", "a shrink with %d synchronised iterators alive changes the pages from %zu to %zu", nit2, b0, b1); } } break; } } break;
        case M_ITDROP: if (it) { it.reset(); owns(sl, 0); } break;
        case M_ITMANY: for (int64_t i = 0; i < o.a; i++) { sim::NoFaults nf; if (it && owner[sl] == 1 && i & 1) crowd[t].emplace_back(*it); else crowd[t].emplace_back(s->sync_begin()); sim::Quiet q; nit++; } break;
        case M_ITNONE: while (!crowd[t].empty()) { crowd[t].pop_front(); { sim::Quiet q; nit--; } gone(); } break;
        case M_ITGET: if (it) { Elem* e; { sim::NoFaults nf; e = new Elem; } try { it->get(*e); val(*e); } catch (...) { delete e; throw; } delete e; } break;
        case M_ITMOVE: if (it) { if (o.a & 1) ++*it; else --*it; } break;
      }
    } catch (CopyError&) { sim::probe(M_NOPS + 1); } catch (std::bad_alloc&) { sim::probe(M_NOPS + 1); } catch (std::runtime_error&) {}
    if (single) {
      sim::NoFaults nf;
      size_t sz = s->size(), now_bl, now_cur; stats(now_bl, now_cur);
      sim::Quiet q;
      CHECK(released || now_bl >= was_bl, "pages", "%s releases pages nobody asked to be released: %zu before, %zu after", m_names[o.code], was_bl, now_bl);
      CHECK(e_live >= (int64_t)sz, "element-lifetime", "the stack holds %zu elements of which only %ld are alive", sz, (long)e_live);
      budget[t] = (int64_t)sz;
    }
  };
  if (single) { for (const Op* o = p.ops.data(), *e = o + p.ops.size(); o != e; ++o) { Op x = *o; fn(x); } }
  else run_threads(p, n, fn);
  sim::NoFaults nf;
  bool was = pending; (void)was;
  for (int i = 0; i < 130 * NSLOTS; i++) if (slots[i]) { slots[i].reset(); sim::Quiet q; if (owner[i] == 1) nit--; else nit2--; }
  for (int i = 0; i < 130; i++) while (!crowd[i].empty()) { crowd[i].pop_back(); sim::Quiet q; nit--; }
  if (single) gone();
  s->shrink_to_fit(); exact("after a shrink"); s2->shrink_to_fit(); exact2("after a shrink"); exact("after a shrink");
  { size_t sz = s->size(); auto it = s->begin(); for (size_t i = 0; i < sz; i++) { val(*it); ++it; } }
  delete s; delete s2;
  delete[] crowd; sim::Quiet q; delete[] slots;
  CHECK(e_live == 0, "element-lifetime", "%ld elements are alive after the stack is gone", (long)e_live);
  if (counted) CHECK(a_live->empty(), "allocator", "%zu blocks are not returned to the stack's allocator", a_live->size());
}
void p04_run(const Program& p) {
  e_live = 0; e_may_throw = true; a_big = 0; { sim::Quiet q; a_live = new std::map<void*, ABlk>; }
  uint64_t mark = sim::alloc_seq();
  if (p.p[5]) sim::faults_global(1u << sim::F_ALLOC | 1u << sim::F_COPY_THROW);
  if (p.p[2] == 0) { if (p.p[0] & 1) p04_go<PagedStack<Elem, CAlloc>>(p, true); else p04_go<PagedStack<Elem, CAlloc, std::mutex>>(p, true); }
  else p04_go<PagedStack<Elem, CAlloc, std::mutex>>(p, true);
  sim::faults_global(0);
  sim::check_leaks(mark, "after the stack and its iterators are destroyed");
}
void p04_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); p.p[0] = r.below(2); int n = r.chance(55) ? 0 : (int)r.range(2, 3); p.p[2] = n; static const int ps[] = {1, 1, 2, 2, 3, 4, 8, 32}; p.p[3] = r.pick(ps); p.p[4] = r.range(1, 4); p.p[5] = r.chance(35); p.mask = p.p[5] ? (1u << sim::F_ALLOC | 1u << sim::F_COPY_THROW) : 0;
  int total = (int)r.range(2, tier ? 70 : 36); uint64_t allow = r.next() | r.next(); if (r.chance(40)) allow = ~0ull; allow |= 3 | 1u << M_SHRINK;
  for (int i = 0; i < total; i++) { Op o; o.thr = n ? (int)r.range(1, n) : 0; do o.code = (int)r.below(M_NOPS); while (!(allow >> o.code & 1)); if (r.chance(25)) { static const int f[] = {M_BULK, M_PUSH, M_SHRINK, M_BULKPOP, M_ITNEW, M_ITDROP}; o.code = r.pick(f); } o.a = o.code == M_BULK || o.code == M_BULKPOP ? r.below(14) : r.below(64); if (o.code == M_ITMANY) { if (r.chance(60)) o.code = M_ITNEW; else o.a = r.below(12); } o.b = r.below(NSLOTS); o.c = r.below(NSLOTS); p.ops.push_back(o); }
  static const int64_t mm[] = {127, 128, 129, 254, 255, 256, 257, 258, 300, 520};
  if (r.chance(2)) { Op o; o.thr = n ? (int)r.range(1, n) : 0; o.code = r.chance(50) ? M_BULK : M_ITMANY; o.a = r.pick(mm); p.ops.insert(p.ops.begin() + (int64_t)r.below(p.ops.size() + 1), o); }
}
std::string p04_opname(const Program&, const Op& o) { return "T" + std::to_string(o.thr) + " " + m_names[o.code % M_NOPS] + " " + std::to_string(o.a) + " it" + std::to_string(o.b) + " it" + std::to_string(o.c); }
const char* const p04_probes[] = {"push", "push_many", "pop", "pop_many", "discard", "clear", "shrink", "new_iterator", "copy_iterator", "assign_iterator", "destroy_iterator", "read_iterator", "move_iterator", "pop_reverse", "discard_to_iterator", "many_iterators", "many_iterators_destroyed", "assigned_from_another_stack", "changes_of_the_other_stack", "failed_constructions", "failed_operations", nullptr};
RegisterProp R_p04({"P04", p04_gen, p04_run, 1000000, p04_opname, p04_probes});
}
