// L01-L10: the asynchronous logging service.
#include "common.h"
#include <falcon/logsystem.h>
#include <falcon/logproxy.h>
#include <chrono>
#include <cstdio>
#include <map>
#include <optional>
#include <iostream>
#include <stdexcept>
#include <unistd.h>
#include <sys/syscall.h>
using falcon::LogSystem;
using LEVEL = LogSystem::LEVEL;

namespace {
// ------------------------------------------------------------------------------ categories and patterns
bool has_prefix(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
bool has_suffix(const std::string& s, const char* p) { size_t n = strlen(p); return s.size() >= n && s.compare(s.size() - n, n, p) == 0; }
struct Pattern { const char* re; bool (*match)(const std::string&); };
const Pattern patterns[] = {
  {"", [](const std::string&) { return true; }},
  {"net", [](const std::string& s) { return s == "net"; }},
  {"net.*", [](const std::string& s) { return has_prefix(s, "net"); }},
  {".*::INTERNAL", [](const std::string& s) { return has_suffix(s, "::INTERNAL"); }},
  {"net|disk", [](const std::string& s) { return s == "net" || s == "disk"; }},
  {"[a-d]+", [](const std::string& s) { if (s.empty()) return false; for (char c : s) if (c < 'a' || c > 'd') return false; return true; }},
  {"disk[0-9]{2,3}", [](const std::string& s) { if (!has_prefix(s, "disk") || s.size() < 6 || s.size() > 7) return false; for (size_t i = 4; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false; return true; }},
  {".*", [](const std::string& s) { return s.find('\n') == std::string::npos; }},
  {".+k.*", [](const std::string& s) { size_t i = s.find('k', 1); return i != std::string::npos; }},
  {"zzz", [](const std::string& s) { return s == "zzz"; }},
};
enum { NPAT = sizeof patterns / sizeof *patterns };
const char* const bad_patterns[] = {"*", "(", "[z-a]", "a{2,1}", "net)", "[", "+x", "\\"};
using namespace std::string_literals;
const std::string cats[] = {"", "net", "disk", "network", "net::INTERNAL", "::INTERNAL", "abcd", "disk07", "disk1234", "x", "disk777", "xnet", "abcde", "a-category-name-that-needs-its-own-block-of-memory::INTERNAL", "net\0work"s, "\0net"s, "NET", "Network", "Abcd", " ", "net ", " net", "  "};
enum { NCAT = sizeof cats / sizeof *cats };

// ------------------------------------------------------------------------------ the world
struct Msg { int id, thr, level, cat; int line; std::string* file; std::string* text; uint64_t call = 0, ret = 0; bool threw = false, ptr = false; };
struct Got { int msg; uint64_t begin, end; };
template <class T> struct Change { uint64_t call, ret; T v; };     // a setting's history (first entry: initial)
struct LInfo {
  std::vector<Got> got; uint64_t a_call = 0, a_ret = 0, d_call = 0, d_ret = 0; bool attached = false, attach_threw = false, detached = false, dead = false;
  std::vector<Change<int>> level, cat, enabled; int caught = 0;
};
struct SSOp { uint64_t call, ret; bool start; };
struct World {
  std::deque<Msg> msgs; std::unordered_map<int, int> by_line; std::vector<LInfo> ls; std::vector<Change<int>> level; std::vector<SSOp> ss;
  int inside = 0; int unknown = 0; int nreent = 0;
};
World* W;
LogSystem* S;
bool w_nomem;                                          // allocations may fail: buffers may not find back into the pool
std::atomic<int> w_feed{0}; int w_fed;                // a listener that logs again from every call
bool w_content, w_reent, w_throws; int w_slow; bool w_nested; int w_points;
enum { MAXL = 8 };
class Lst;
std::shared_ptr<LogSystem::Listener>* slots;      // the callers' references
std::atomic<int> w_done{0};                        // orders the call-back actions before what the main thread does once all is quiet
struct Action { int code; int a, b; };
enum { CB_NONE, CB_ATTACH, CB_DETACH, CB_LOG, CB_DIAGS, CB_LEVEL, CB_CATEGORY, CB_ENABLE };
struct Script { int at; Action act; };             // on the at-th call of listener l
std::vector<Script>* scripts[MAXL];

void do_action(const Action& a);
void do_log(int level, int cat, int64_t fsz, int64_t tsz, bool ptr);
struct Odd { int x; };
struct Listener : LogSystem::Listener {
  uint64_t magic = 0x600D600D600D600Dull; int idx; int calls = 0; std::vector<Script>* scr;
  explicit Listener(int i, int rec = -1) noexcept : idx(rec < 0 ? i : rec), scr(scripts[i]) {}
  ~Listener() override { CHECK(magic == 0x600D600D600D600Dull, "listener-lifetime", "listener %d is destroyed twice", idx); magic = 0xBAD; sim::Quiet q; W->ls[idx].dead = true; }
  void onMessage(const LogSystem::Message& m) override {
    CHECK(magic == 0x600D600D600D600Dull, "listener-lifetime", "listener %d is called after its destruction", idx);
    int line = m.m_line, id = -1; const std::string *f = nullptr, *t = nullptr; const std::string* c = nullptr; int lev = -1;
    {
      sim::Quiet q; sim::obligation();
      if (w_reent) CHECK(W->inside == 0, "concurrent-callbacks", "listener %d is called while another call-back is running", idx);
      W->inside++;
      auto it = W->by_line.find(line);
      if (it == W->by_line.end()) { if (w_content) sim::fail("altered-message", "listener %d receives a message with line %d, which nobody logged", idx, line); W->unknown++; }
      else { id = it->second; Msg& x = W->msgs[id]; f = x.file; t = x.text; c = &cats[x.cat]; lev = x.level; W->ls[idx].got.push_back({id, sim::stamp(), 0}); }
    }
    if (id >= 0 && w_content) {
      bool okf = m.m_file == *f, okt = m.m_message == *t, okc = m.m_category == *c, okl = (int)m.m_level == lev;
      CHECK(okf && okt && okc && okl, "altered-message", "listener %d receives message %d with a changed %s", idx, id, !okf ? "file" : !okt ? "text" : !okc ? "category" : "level");
    }
    for (int i = 0; i < w_points; i++) sim::point();
    if (w_slow && (calls % w_slow) == 0) std::this_thread::sleep_for(std::chrono::milliseconds(3));
    int k = calls++;
    if (w_feed.load(std::memory_order_relaxed)) { CHECK(++w_fed < 4000, "stop-never-returns", "stop() has not returned after 4000 messages, which a listener logs one by one from its call-back, were delivered"); do_log(0, 1, 1, 2, false); }
    for (auto& s : *scr) if (s.at == k) { do_action(s.act); w_done.fetch_add(1, std::memory_order_release); }
    CHECK(magic == 0x600D600D600D600Dull, "listener-lifetime", "listener %d is destroyed while it is being called", idx);
    bool thr = w_throws && sim::fault(sim::F_LISTENER_THROW);
    { sim::Quiet q; W->inside--; W->ls[idx].got.back().end = sim::stamp(); if (thr) W->ls[idx].caught++; }
    if (thr) switch (k % 4) { case 0: throw 42; case 1: throw Odd{7}; case 2: throw std::string("listener"); default: throw std::runtime_error("listener"); }
  }
};

std::string* junk_text(uint64_t seed, int64_t n) {
  std::string* s = new std::string; s->reserve(n); Rng r(seed * 77 + 5);
  if (seed % 3 == 0 && n > 5) s->assign((size_t)n - 5, 'j'), n = 5;       // some differ from each other in the end only
  for (int64_t i = 0; i < n; i++) s->push_back((char)(r.chance(95) ? 32 + r.below(95) : r.below(256)));
  return s;
}
int new_msg(int level, int cat, int64_t fsz, int64_t tsz, bool ptr) {      // quiet
  int id = (int)W->msgs.size(); W->msgs.emplace_back(); Msg& m = W->msgs.back();
  m.id = id; m.thr = sim::tid(); m.level = level; m.cat = cat; m.line = (int)((uint32_t)(id + 1) * 2654435761u); m.file = junk_text(id * 2 + 1, fsz); m.text = junk_text(id * 2, tsz); m.ptr = ptr;
  W->by_line[m.line] = id; return id;
}
void do_log(int level, int cat, int64_t fsz, int64_t tsz, bool ptr) {
  int id; Msg* m; { sim::Quiet q; id = new_msg(level, cat, fsz, tsz, ptr); m = &W->msgs[id]; }
  std::optional<std::string> c; { sim::NoFaults nf; c.emplace(cats[cat]); }
  if (ptr) {
    LogSystem::Message* x; { sim::NoFaults nf; x = new LogSystem::Message(*m->file, m->line, (LEVEL)level, *c, *m->text); }
    m->call = sim::stamp(); S->log(x); m->ret = sim::stamp();
  } else {
    uint64_t t = sim::stamp(); m->call = t; bool threw = false;
    try { S->log(*m->file, m->line, (LEVEL)level, *c, *m->text); } catch (std::exception&) { threw = true; }
    uint64_t r = sim::stamp(); sim::Quiet q; m->ret = r; m->threw = threw;
  }
}
void set_level(int l) { Change<int> c{sim::stamp(), 0, l}; S->level((LEVEL)l); c.ret = sim::stamp(); sim::Quiet q; W->level.push_back(c); }
void attach(int i) {
  LInfo& li = W->ls[i]; { sim::Quiet q; if (li.a_call || !slots[i]) return; li.a_call = sim::stamp(); }
  bool ok = true; try { S->addListener(slots[i]); } catch (std::bad_alloc&) { ok = false; }
  sim::Quiet q; if (!ok) { li.attach_threw = true; li.a_call = 0; } else { li.attached = true; li.a_ret = sim::stamp(); }
}
void detach(int i) {
  LInfo& li = W->ls[i]; { sim::Quiet q; if (li.d_call || !slots[i]) return; li.d_call = sim::stamp(); }
  slots[i]->detach(); sim::Quiet q; li.detached = true; li.d_ret = sim::stamp();
}
void set_llevel(int i, int l) { if (!slots[i]) return; Change<int> c{sim::stamp(), 0, l}; slots[i]->level((LEVEL)l); c.ret = sim::stamp(); sim::Quiet q; W->ls[i].level.push_back(c); }
void set_enabled(int i, bool b) { if (!slots[i]) return; Change<int> c{sim::stamp(), 0, b}; slots[i]->enable(b); c.ret = sim::stamp(); sim::Quiet q; W->ls[i].enabled.push_back(c); }
void set_cat(int i, int k) {
  if (!slots[i]) return; std::optional<std::string> s; { sim::NoFaults nf; s.emplace(patterns[k].re); }
  Change<int> c{sim::stamp(), 0, k}; bool ok = true; try { slots[i]->category(*s); } catch (std::bad_alloc&) { ok = false; }
  c.ret = sim::stamp(); sim::Quiet q; if (ok) W->ls[i].cat.push_back(c);
}
bool bad_cat(int i, int k) {
  if (!slots[i]) return true; std::optional<std::string> s; { sim::NoFaults nf; s.emplace(bad_patterns[k]); } bool rej = false;
  try { slots[i]->category(*s); } catch (LogSystem::InvalidCategory&) { rej = true; } catch (std::bad_alloc&) { rej = true; }
  return rej;
}
void svc_start() { SSOp o{sim::stamp(), 0, true}; try { S->start(); } catch (std::exception&) {} o.ret = sim::stamp(); sim::Quiet q; W->ss.push_back(o); }
void svc_stop() { SSOp o{sim::stamp(), 0, false}; S->stop(); o.ret = sim::stamp(); sim::Quiet q; W->ss.push_back(o); }
std::atomic<size_t>* seen_received;         // highest received count anybody has read
void diags_check(bool) {
  size_t low = seen_received->load();
  LogSystem::Diags d; memset(&d, 0xEE, sizeof d); S->getDiags(d);
  { sim::Quiet q; sim::obligation(); size_t logged = 0; for (auto& m : W->msgs) if (m.call) logged++;
    CHECK(d.m_msgReceived >= low, "diagnostics", "the received-message count went back from %zu to %zu", low, d.m_msgReceived);
    CHECK(d.m_msgReceived <= logged, "diagnostics", "%zu messages are reported as received, only %zu were ever logged", d.m_msgReceived, logged);
    CHECK(d.m_maxMsgQueueSize <= logged, "diagnostics", "a longest backlog of %zu is reported, only %zu messages were ever logged", d.m_maxMsgQueueSize, logged);
    CHECK(d.m_poolSize <= LogSystem::MESSAGE_POOL_THRESHOLD, "diagnostics", "%zu buffers are reported in the pool, its bound is %d", d.m_poolSize, (int)LogSystem::MESSAGE_POOL_THRESHOLD);
    CHECK(d.m_msgsCreated <= logged, "diagnostics", "%zu buffers are reported as created beyond the pool for %zu messages", d.m_msgsCreated, logged);
    size_t users = 0; for (auto& m : W->msgs) if (m.ptr) users++;
    CHECK(d.m_msgsDiscarded <= d.m_msgsCreated + users + (w_nomem ? LogSystem::MESSAGE_POOL_THRESHOLD : 8), "diagnostics", "%zu buffers are reported as discarded, %zu were created", d.m_msgsDiscarded, d.m_msgsCreated);
    size_t att = 0; for (auto& l : W->ls) if (l.a_call) att++;
    CHECK(d.m_pendingListeners <= att && d.m_activeListeners <= att && d.m_enabledListeners <= d.m_activeListeners, "diagnostics", "impossible listener figures: %zu pending, %zu active, %zu enabled of %zu attached", d.m_pendingListeners, d.m_activeListeners, d.m_enabledListeners, att); }
  size_t cur = seen_received->load(); while (cur < d.m_msgReceived && !seen_received->compare_exchange_strong(cur, d.m_msgReceived)) {}
}
void do_action(const Action& a) {
  switch (a.code) {
    case CB_ATTACH: attach(a.a); break;
    case CB_DETACH: detach(a.a); break;
    case CB_LOG: do_log(a.a, a.b, 3, 9, false); break;
    case CB_DIAGS: diags_check(true); break;
    case CB_LEVEL: set_llevel(a.a, a.b); break;
    case CB_ENABLE: set_enabled(a.a, a.b); break;
    case CB_CATEGORY: set_cat(a.a, a.b); break;
  }
}

// ------------------------------------------------------------------------------ programs
enum { LOGOP, LOGPTR, ATTACH, DETACH, RELEASE, SETLEVEL, SETLLEVEL, SETCAT, BADCAT, READCAT, ENABLE, DIAGS, START, STOP, PAUSE, SCRIPT, BURST, NOPS };
const char* const op_names[] = {"log", "log a message of its own", "attach", "detach", "release", "set level", "set listener level", "set category", "set invalid category", "read category", "enable/disable", "diagnostics", "start", "stop", "pause", "call-back action", "log many times"};
// p0: threads, p1: listeners, p2: start in constructor, p3: call-back points, p4: slow modulus, p5: service level,
// p6: listener levels (base 8), p7: listener patterns (base 16), p8: which listeners are attached first (bits), p9: variant
int lv(const Program& p, int i) { return (int)(p.p[6] >> (3 * i) & 7); }
int pt(const Program& p, int i) { return (int)(p.p[7] >> (4 * i) & 15) % NPAT; }

struct Setup {
  const Program& p; uint64_t mark;
  explicit Setup(const Program& pp) : p(pp) {
    w_content = w_reent = w_throws = w_nested = w_nomem = false; w_feed.store(0, std::memory_order_relaxed); w_fed = 0; w_slow = (int)p.p[4]; w_points = (int)p.p[3];
    mark = sim::alloc_seq();
    { sim::Quiet q; W = new World; W->ls.resize(MAXL); slots = new std::shared_ptr<LogSystem::Listener>[MAXL]; seen_received = new std::atomic<size_t>{0};
      for (int i = 0; i < MAXL; i++) scripts[i] = new std::vector<Script>;
      for (auto& o : p.ops) if (o.code == SCRIPT) scripts[o.a % MAXL]->push_back({(int)o.b, {(int)(o.c & 15), (int)(o.c >> 4 & 15), (int)(o.c >> 8)}}); }
  }
  int nl() const { return (int)p.p[1]; }
  bool make() {                       // may run with faults on; false: the constructor reported one
    try { S = new LogSystem(p.p[2] != 0); } catch (std::exception&) { S = nullptr; return false; }
    uint64_t t = sim::stamp(); sim::Quiet q; if (p.p[2]) W->ss.push_back({0, t, true}); W->level.push_back({0, 0, (int)LEVEL::TRACE}); return true;
  }
  void listeners() { listeners_made([](int i) -> std::shared_ptr<LogSystem::Listener> { return std::make_shared<Listener>(i); }); }
  template <class Make> void listeners_made(Make make) {
    sim::NoFaults nf;
    for (int i = 0; i < nl(); i++) {
      slots[i] = make(i);
      { sim::Quiet q; LInfo& l = W->ls[i]; l.level.push_back({0, 0, (int)LEVEL::TRACE}); l.cat.push_back({0, 0, 0}); l.enabled.push_back({0, 0, 1}); }
      if (lv(p, i) < LEVEL::TRACE) set_llevel(i, lv(p, i)); if (pt(p, i)) set_cat(i, pt(p, i));
      if (p.p[8] >> i & 1) attach(i);
    }
    if (p.p[5] < LEVEL::TRACE) set_level((int)p.p[5]);
  }
  void op(const Op& o) {
    { sim::Quiet q; if (o.code < NOPS) sim::probe(o.code); }
    switch (o.code) {
      case LOGOP: do_log((int)(o.a % 6), (int)(o.b % NCAT), o.c, o.d, false); break;
      case LOGPTR: do_log((int)(o.a % 6), (int)(o.b % NCAT), o.c, o.d, true); break;
      case ATTACH: attach((int)(o.a % nl())); break;
      case DETACH: detach((int)(o.a % nl())); break;
      case SETLEVEL: set_level((int)(o.a % 6)); break;
      case SETLLEVEL: set_llevel((int)(o.a % nl()), (int)(o.b % 6)); break;
      case SETCAT: set_cat((int)(o.a % nl()), (int)(o.b % NPAT)); break;
      case BADCAT: { bool r = bad_cat((int)(o.a % nl()), (int)(o.b % 8)); CHECK(r, "invalid-pattern", "the pattern '%s' is accepted", bad_patterns[o.b % 8]); break; }
      case READCAT: { int i = (int)(o.a % nl()); if (!slots[i]) break; uint64_t a = sim::stamp(); sim::NoFaults nf; std::string s = slots[i]->category(); uint64_t b = sim::stamp();
        sim::Quiet q; bool ok = false; auto& h = W->ls[i].cat; (void)a; (void)b; for (int k = 0; k < NPAT; k++) if (s == patterns[k].re) { ok = true; } CHECK(ok, "category", "the filter reads as '%.40s', which was never set", s.c_str()); (void)h; break; }
      case ENABLE: set_enabled((int)(o.a % nl()), o.b & 1); break;
      case BURST: for (int64_t i = 0; i < o.a; i++) do_log((int)(i % 6), (int)(o.b % NCAT), o.c, o.d, false); break;
      case DIAGS: diags_check(false); break;
      case START: svc_start(); for (int k = 1; o.d == -1 && k <= o.b; k++) { svc_stop(); if (k % 64 == 33) do_log(0, 1, 1, 2, false); svc_start(); } break;
      case STOP: svc_stop(); break;
      case PAUSE: pause_op(o.a); break;
    }
  }
  void run() { run_threads(p, (int)p.p[0], [this](const Op& o) { if (o.code != SCRIPT) op(o); }); }
  void release_all() { for (int i = 0; i < MAXL; i++) slots[i].reset(); }
  bool accepts(const Msg& m, int i) { return m.level <= lv(p, i) && (m.cat == 0 || patterns[pt(p, i)].match(cats[m.cat])); }
  bool system_accepts(const Msg& m) { return m.ptr || m.level <= p.p[5]; }
  void destroy(const char* when) {
    delete S; S = nullptr; release_all();
    { sim::Quiet q; for (int i = 0; i < nl(); i++) CHECK(!slots[i] && W->ls[i].dead, "listener-lifetime", "listener %d is not let go %s", i, when); }
    sim::check_leaks(mark, when);
  }
};
std::string opname(const Program&, const Op& o) {
  std::string s = "T" + std::to_string(o.thr) + " " + op_names[o.code % NOPS];
  switch (o.code) { case LOGOP: case LOGPTR: s += " level " + std::to_string(o.a % 6) + " category '" + cats[o.b % NCAT].c_str() + "' file " + std::to_string(o.c) + " text " + std::to_string(o.d) + " bytes"; break;
    case SETCAT: s += " listener " + std::to_string(o.a) + " '" + patterns[o.b % NPAT].re + "'"; break; case BURST: s = "T" + std::to_string(o.thr) + " log " + std::to_string(o.a) + " times, category '" + cats[o.b % NCAT].c_str() + "'"; break;
    case SCRIPT: s = "listener " + std::to_string(o.a) + " call " + std::to_string(o.b) + " action " + std::to_string(o.c & 15); break;
    default: s += " " + std::to_string(o.a) + " " + std::to_string(o.b); }
  return s;
}
const char* const probes_[] = {"log", "log_own_message", "attach", "detach", "release", "set_level", "set_listener_level", "set_category", "set_invalid_category", "read_category", "enable_disable", "diagnostics", "start", "stop", "pause", "call_back_actions", "bursts", "messages", "deliveries", "reported_errors", "dropped_messages", "backlog_over_pool", "restarts_with_backlog", "proxied_deliveries_due", nullptr};
enum { PR_MSG = 17, PR_DELIV, PR_ERR, PR_DROP, PR_OVER, PR_RESTART, PR_PROXY };

void log_op(Rng& r, Op& o, bool big, bool filt) {
  o.code = r.chance(88) ? LOGOP : LOGPTR; o.a = r.below(6); o.b = filt ? r.below(NCAT) : r.chance(70) ? 1 : (int64_t)r.below(NCAT); o.c = big ? size_knob(r, 600) : r.below(20); o.d = big ? size_knob(r, r.chance(5) ? 4096 : 300) : r.below(30);
}
// so many messages at once that short counters wrap and any hidden limit shows
const int64_t many[] = {65, 100, 129, 130, 200, 256, 257, 258, 300, 400, 513, 600};
void burst_op(Rng& r, Program& p, int nthr) { Op o; o.thr = (int)r.range(1, nthr); o.code = BURST; o.a = r.pick(many); o.b = r.chance(70) ? 1 : (int64_t)r.below(NCAT); o.c = r.below(4); o.d = r.below(8); p.ops.insert(p.ops.begin() + (int64_t)r.below(p.ops.size() + 1), o); }
void base_gen(Rng& r, Program& p, int nthr, int nl) {
  common_knobs(r, p); if (p.tick > 20000) p.tick = 20000;
  p.mask = 1u << sim::F_SPURIOUS; p.p[0] = nthr; p.p[1] = nl; p.p[2] = 1; p.p[3] = r.chance(50) ? 0 : r.below(6); p.p[4] = r.chance(70) ? 0 : r.range(1, 4); p.p[5] = LEVEL::TRACE;
  for (int i = 0; i < nl; i++) p.p[6] |= (int64_t)LEVEL::TRACE << (3 * i); p.p[8] = (1 << nl) - 1;
}
// deliveries of each message at each listener
std::vector<std::vector<int>> counts() { std::vector<std::vector<int>> c(W->ls.size(), std::vector<int>(W->msgs.size(), 0)); for (size_t l = 0; l < W->ls.size(); l++) for (auto& g : W->ls[l].got) c[l][g.msg]++; return c; }
// a crowd of further listeners, which accept everything and only count
struct Crowd : LogSystem::Listener { std::vector<unsigned char>* got; explicit Crowd(std::vector<unsigned char>* g) noexcept : got(g) {}
  void onMessage(const LogSystem::Message& m) override { sim::Quiet q; auto it = W->by_line.find(m.m_line); if (it == W->by_line.end()) return; if (got->size() <= (size_t)it->second) got->resize(it->second + 1); (*got)[it->second]++; } };
struct Crowds { std::vector<std::vector<unsigned char>*> got; std::vector<std::shared_ptr<LogSystem::Listener>>* l; std::vector<std::weak_ptr<LogSystem::Listener>>* w; int n;
  explicit Crowds(int nn) : n(nn) { sim::NoFaults nf; { sim::Quiet q; l = new std::vector<std::shared_ptr<LogSystem::Listener>>; w = new std::vector<std::weak_ptr<LogSystem::Listener>>; for (int i = 0; i < n; i++) got.push_back(new std::vector<unsigned char>); }
    for (int i = 0; i < n; i++) { auto c = std::make_shared<Crowd>(got[i]); S->addListener(c); sim::Quiet q; w->push_back(c); l->push_back(c); } }
  int count(int i, int msg) const { return (size_t)msg < got[i]->size() ? (*got[i])[msg] : 0; }
  void drop() { l->clear(); }
  void end() { l->clear(); sim::Quiet q; delete l; delete w; for (auto g : got) delete g; got = {}; } };
void stats() { sim::probe(PR_MSG, W->msgs.size()); for (auto& l : W->ls) sim::probe(PR_DELIV, l.got.size()); sim::obligation(W->msgs.size()); }

// ------------------------------------------------------------------------------ L01
void l01_run(const Program& p) {
  Setup s(p); w_content = true; sim::faults_global(1u << sim::F_SPURIOUS);
  s.make(); s.listeners(); Crowds cr((int)p.p[11]); if (!p.p[2] && !p.p[12]) svc_start();
  s.run(); if (p.p[12]) svc_start();
  auto missing = [&]() -> std::pair<int, int> { auto c = counts(); for (int l = 0; l < s.nl(); l++) for (auto& m : W->msgs) if (s.system_accepts(m) && s.accepts(m, l) && !c[l][m.id]) return {l, m.id}; return {-1, -1}; };
  settle([&] { return missing().first < 0; });
  settle([&] { return false; });
  { sim::Quiet q; stats(); auto mi = missing(); CHECK(mi.first < 0, "lost-message", "message %d never reaches listener %d, which accepts it, although all callers are done", mi.second, mi.first);
    auto c = counts(); for (int l = 0; l < s.nl(); l++) for (auto& m : W->msgs) { CHECK(c[l][m.id] <= 1, "duplicate-message", "message %d reaches listener %d %d times", m.id, l, c[l][m.id]);
      CHECK(!c[l][m.id] || (s.system_accepts(m) && s.accepts(m, l)), "unwanted-message", "message %d reaches listener %d, whose filter or the service's excludes it", m.id, l); }
    for (int l = 0; l < cr.n; l++) for (auto& m : W->msgs) { int k = cr.count(l, m.id), e = s.system_accepts(m); CHECK(k == e, k < e ? "lost-message" : "duplicate-message", "message %d reaches one of %d further listeners, which accept everything, %d times, not %d", m.id, cr.n, k, e); } }
  cr.end(); s.destroy("after the service is destroyed");
}
void l01_gen(Rng& r, Program& p, int tier) {
  int n = (int)r.range(1, 4), nl = (int)r.range(1, 3); base_gen(r, p, n, nl); p.p[2] = r.chance(70);
  if (r.chance(40)) p.p[5] = r.below(6); if (r.chance(40)) { p.p[6] = 0; for (int i = 0; i < nl; i++) p.p[6] |= (int64_t)r.below(6) << (3 * i); }
  if (r.chance(30)) for (int i = 0; i < nl; i++) p.p[7] |= (int64_t)r.below(NPAT) << (4 * i);
  int total = r.chance(90) ? (int)r.range(1, 20) : (int)r.range(20, tier ? 220 : 130); bool big = total < 40 && r.chance(50);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); log_op(r, o, big, p.p[7] != 0); if (r.chance(8)) { o.code = PAUSE; o.a = pause_knob(r); } p.ops.push_back(o); }
  if (r.chance(25)) { Op o; o.code = SCRIPT; o.thr = 99; o.a = r.below(nl); o.b = r.below(4); o.c = CB_LOG | r.below(6) << 4 | r.below(NCAT) << 8; p.ops.push_back(o); }
  if (r.chance(4)) p.p[11] = r.chance(50) ? r.range(1, 12) : r.range(13, 70);
  if (r.chance(5)) { p.p[2] = 0; p.p[12] = 1; } if (r.chance(2)) { burst_op(r, p, n); p.p[4] = 0; p.p[3] = 0; }
}
RegisterProp R01({"L01", l01_gen, l01_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ L02
void l02_run(const Program& p) {
  Setup s(p); w_reent = true; sim::faults_global(1u << sim::F_SPURIOUS);
  s.make(); s.listeners(); s.run();
  settle([&] { return false; });
  { sim::Quiet q; stats();
    for (int l = 0; l < s.nl(); l++) { auto& g = W->ls[l].got;
      // real-time order: the latest call time seen so far must not exceed a later message's return
      for (size_t i = 0; i < g.size(); i++) for (size_t j = i + 1; j < g.size(); j++) { const Msg &a = W->msgs[g[i].msg], &b = W->msgs[g[j].msg];
        if (a.id == b.id) continue;
        CHECK(!(b.ret && b.ret < a.call), "order", "listener %d gets message %d before message %d, which was logged completely before it", l, a.id, b.id); }
      for (int k = 0; k < l; k++) { // common order of common messages
        std::unordered_map<int, size_t> pos; auto& h = W->ls[k].got; for (size_t i = 0; i < h.size(); i++) pos[h[i].msg] = i;
        size_t last = 0; int lm = -1; for (auto& x : g) { auto it = pos.find(x.msg); if (it == pos.end()) continue; CHECK(lm < 0 || lm == x.msg || it->second >= last, "common-order", "listeners %d and %d get messages %d and %d in different orders", k, l, lm, x.msg); last = it->second; lm = x.msg; } } } }
  delete S; s.release_all();
}
void l02_gen(Rng& r, Program& p, int tier) {
  int n = (int)r.range(1, 4), nl = (int)r.range(1, 4); base_gen(r, p, n, nl); p.p[3] = r.below(8);
  if (r.chance(40)) { p.p[6] = 0; for (int i = 0; i < nl; i++) p.p[6] |= (int64_t)r.range(2, 5) << (3 * i); }
  int total = r.chance(90) ? (int)r.range(2, 18) : (int)r.range(20, tier ? 200 : 110);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); log_op(r, o, false, false); if (r.chance(8)) { o.code = PAUSE; o.a = pause_knob(r); } if (r.chance(5)) { o.code = SETLLEVEL; o.a = r.below(nl); o.b = r.below(6); } p.ops.push_back(o); }
  for (int k = r.chance(30) ? (int)r.range(1, 3) : 0; k > 0; k--) { Op o; o.code = SCRIPT; o.thr = 99; o.a = r.below(nl); o.b = r.below(5); o.c = CB_LOG | r.below(6) << 4 | 1 << 8; p.ops.push_back(o); }
  if (r.chance(1)) { burst_op(r, p, n); p.p[4] = 0; p.p[3] = 0; }
}
RegisterProp R02({"L02", l02_gen, l02_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ L03
// possible values of a setting in the window [a,b]
template <class F> void possible(const std::vector<Change<int>>& h, uint64_t a, uint64_t b, F f) {
  for (size_t i = 0; i < h.size(); i++) {
    if (h[i].call > b) continue;
    bool super = false; for (size_t j = 0; j < h.size(); j++) if (j != i && h[j].ret < a && h[j].call > h[i].ret) super = true;
    if (!super) f(h[i].v);
  }
}
struct Verdict { bool can_accept, can_reject; };
template <class F> Verdict judge(const std::vector<Change<int>>& h, uint64_t a, uint64_t b, F ok) { Verdict v{false, false}; possible(h, a, b, [&](int x) { if (ok(x)) v.can_accept = true; else v.can_reject = true; }); return v; }
// Latest moment at which message m was still being judged: the start of the next message at listener w
// (accepts everything, is attached throughout), or the end.
std::vector<uint64_t> judged_before(int w) {
  std::vector<uint64_t> t(W->msgs.size(), ~0ull >> 1); auto& g = W->ls[w].got; for (size_t i = 0; i + 1 < g.size(); i++) t[g[i].msg] = g[i + 1].begin; return t;
}
int w_out_fd = -1, w_save1, w_save2;
void l03_run(const Program& p) {
  { sim::Quiet q; fflush(nullptr); if (w_out_fd < 0) { w_out_fd = (int)syscall(SYS_memfd_create, "out", 0u); } w_save1 = dup(1); w_save2 = dup(2); dup2(w_out_fd, 1); dup2(w_out_fd, 2); }
  Setup s(p); sim::faults_global(1u << sim::F_SPURIOUS | (p.p[9] ? 1u << sim::F_ALLOC : 0)); sim::faults_global(1u << sim::F_SPURIOUS);
  s.make(); s.listeners(); int w = s.nl() - 1;          // the witness
  s.run();
  settle([&] { return false; });
  { sim::Quiet q; std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(nullptr); off_t n = lseek(w_out_fd, 0, SEEK_END); dup2(w_save1, 1); dup2(w_save2, 2); close(w_save1); close(w_save2);
    stats(); CHECK(n == 0, "output", "logging and filtering wrote %ld bytes to the process's standard streams", (long)n);
    auto c = counts(); auto jb = judged_before(w);
    for (auto& m : W->msgs) {
      // window of the service's level is the log call; of the listeners' settings, from the call to the delivery
      Verdict sv = m.ptr ? Verdict{true, false} : judge(W->level, m.call, m.ret ? m.ret : ~0ull >> 1, [&](int l) { return m.level <= l; });
      CHECK(c[w][m.id] <= 1, "duplicate-message", "message %d reaches listener %d %d times", m.id, w, c[w][m.id]);
      CHECK(c[w][m.id] || sv.can_reject, "filter", "message %d (level %d) passes the service's level but is not delivered at all", m.id, m.level);
      CHECK(!c[w][m.id] || sv.can_accept, "filter", "message %d (level %d) is delivered although the service's level excludes it", m.id, m.level);
      for (int l = 0; l < w; l++) {
        LInfo& li = W->ls[l]; uint64_t a = m.call, b = jb[m.id]; for (auto& g : li.got) if (g.msg == m.id && g.begin < b) b = g.begin;
        Verdict v1 = judge(li.level, a, b, [&](int x) { return m.level <= x; });
        Verdict v2 = judge(li.enabled, a, b, [&](int x) { return x != 0; });
        Verdict v3 = judge(li.cat, a, b, [&](int x) { return m.cat == 0 || patterns[x].match(cats[m.cat]); });
        CHECK(c[l][m.id] <= 1, "duplicate-message", "message %d reaches listener %d %d times", m.id, l, c[l][m.id]);
        if (c[l][m.id]) CHECK(v1.can_accept && v2.can_accept && v3.can_accept && c[w][m.id], "filter", "listener %d gets message %d (level %d, category '%s') although its %s excludes it", l, m.id, m.level, cats[m.cat].c_str(), !v1.can_accept ? "level" : !v2.can_accept ? "enabled flag" : !v3.can_accept ? "category filter" : "service's level");
        else if (c[w][m.id]) CHECK(v1.can_reject || v2.can_reject || v3.can_reject, "filter", "listener %d does not get message %d (level %d, category '%s') although every one of its settings accepts it", l, m.id, m.level, cats[m.cat].c_str());
      }
    }
    // what the settings read as at the end
    for (int l = 0; l < w; l++) { LInfo& li = W->ls[l]; bool ok = false; std::string now = slots[l]->category(); possible(li.cat, ~0ull >> 2, ~0ull >> 2, [&](int x) { if (now == patterns[x].re) ok = true; }); CHECK(ok, "category", "listener %d's filter reads as '%.40s', which is not the last one set", l, now.c_str());
      ok = false; int lev = slots[l]->level(); possible(li.level, ~0ull >> 2, ~0ull >> 2, [&](int x) { if (x == lev) ok = true; }); CHECK(ok, "level", "listener %d's level reads as %d, which is not the last one set", l, lev);
      ok = false; int en = slots[l]->isEnabled(); possible(li.enabled, ~0ull >> 2, ~0ull >> 2, [&](int x) { if (x == en) ok = true; }); CHECK(ok, "enabled", "listener %d's enabled flag reads as %d, which is not the last one set", l, en); }
    int lev = S->level(); bool ok = false; possible(W->level, ~0ull >> 2, ~0ull >> 2, [&](int x) { if (x == lev) ok = true; }); CHECK(ok, "level", "the service's level reads as %d, which is not the last one set", lev);
  }
  delete S; s.release_all();
}
void l03_gen(Rng& r, Program& p, int tier) {
  int n = (int)r.range(1, 3), nl = (int)r.range(2, 4); base_gen(r, p, n, nl);
  if (r.chance(50)) for (int i = 0; i < nl - 1; i++) p.p[7] |= (int64_t)r.below(NPAT) << (4 * i);
  if (r.chance(50)) { p.p[6] = (int64_t)LEVEL::TRACE << (3 * (nl - 1)); for (int i = 0; i < nl - 1; i++) p.p[6] |= (int64_t)r.below(6) << (3 * i); }
  int total = (int)r.range(2, tier ? 50 : 28); uint64_t allow = r.next() | r.next();
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); log_op(r, o, false, true); if (r.chance(40)) { static const int k[] = {SETLEVEL, SETLLEVEL, SETLLEVEL, SETCAT, SETCAT, BADCAT, READCAT, ENABLE, ENABLE, PAUSE, PAUSE}; int c = r.pick(k); if (allow >> c & 1) { o.code = c; o.a = c == SETLEVEL ? r.below(6) : c == PAUSE ? pause_knob(r) : r.below(nl - 1); o.b = r.below(60); } } p.ops.push_back(o); }
  for (int k = r.chance(30) ? (int)r.range(1, 3) : 0; k > 0; k--) { Op o; o.code = SCRIPT; o.thr = 99; o.a = r.below(nl); o.b = r.below(5); static const int kk[] = {CB_LEVEL, CB_CATEGORY, CB_ENABLE}; int c = r.pick(kk); o.c = c | r.below(nl - 1) << 4 | (c == CB_LEVEL ? r.below(6) : c == CB_CATEGORY ? r.below(NPAT) : r.below(2)) << 8; p.ops.push_back(o); }
}
RegisterProp R03({"L03", l03_gen, l03_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ L04
void l04_run(const Program& p) {
  Setup s(p); w_reent = false; sim::faults_global(1u << sim::F_SPURIOUS);
  s.make(); s.listeners(); int w = s.nl() - 1;
  s.run();
  settle([&] { return false; }); w_done.load(std::memory_order_acquire);
  // references of the callers go, then the service is kept moving: detached listeners must go
  std::weak_ptr<LogSystem::Listener>* wk; { sim::Quiet q; wk = new std::weak_ptr<LogSystem::Listener>[MAXL]; }
  for (int i = 0; i < s.nl(); i++) { if (p.p[9] >> i & 1) detach(i); bool keep = i == w || (W->ls[i].attached && !W->ls[i].detached); if (!keep) slots[i].reset(); }
  for (int k = 0; k < 2; k++) { do_log(0, 1, 2, 2, false); settle([&] { return false; }); }
  if (p.p[11]) { // a crowd comes at once, and parts of it go at once
    Crowds cr((int)p.p[11]); int id; { sim::Quiet q; id = (int)W->msgs.size(); } do_log(0, 1, 2, 2, false); settle([&] { return false; });
    { sim::Quiet q; sim::obligation(); for (int i = 0; i < cr.n; i++) CHECK(cr.count(i, id) == 1, "attach", "of %d listeners attached at once, one gets the next message %d times", cr.n, cr.count(i, id)); }
    auto gone = [&](int i) { return (p.p[12] >> (i % 40) & 1) != 0; };
    for (int i = 0; i < cr.n; i++) if (gone(i)) (*cr.l)[i]->detach();
    cr.drop(); int ids[2]; for (int k = 0; k < 2; k++) { { sim::Quiet q; ids[k] = (int)W->msgs.size(); } do_log(0, 1, 2, 2, false); settle([&] { return false; }); }
    { sim::Quiet q; sim::obligation(); for (int i = 0; i < cr.n; i++) for (int m : ids) { int k = cr.count(i, m), e = !gone(i); CHECK(k == e, gone(i) ? "detach" : "attach", "one of %d listeners%s gets a message %d times", cr.n, gone(i) ? ", detached together with others before," : "", k);
        if (gone(i)) CHECK((*cr.w)[i].expired(), "listener-lifetime", "one of many listeners that were detached at once is not let go although nobody uses it and delivery moved on"); else CHECK(!(*cr.w)[i].expired(), "listener-lifetime", "an attached listener is let go"); } }
    cr.end(); }
  { sim::Quiet q; stats(); auto c = counts(); auto jb = judged_before(w);
    for (int l = 0; l < s.nl(); l++) { LInfo& li = W->ls[l];
      for (auto& m : W->msgs) {
        if (!c[w][m.id] && (l != w || (!m.ptr && judge(W->level, m.call, m.ret ? m.ret : ~0ull >> 1, [&](int x) { return m.level <= x; }).can_reject))) continue;
        uint64_t b = jb[m.id]; int k = c[l][m.id]; CHECK(k <= 1, "duplicate-message", "message %d reaches listener %d %d times", m.id, l, k);
        if (k) { CHECK(li.attached || li.a_call, "attach", "listener %d gets message %d but was never attached", l, m.id); CHECK(!(li.d_ret && li.d_ret < m.call), "detach", "listener %d gets message %d, which was logged after its detach had returned", l, m.id); }
        else CHECK(!(li.attached && li.a_ret < m.call && (!li.d_call || li.d_call > b)), "attach", "listener %d does not get message %d, which was logged after it was attached%s", l, m.id, li.d_call ? " and delivered before it was detached" : "");
      }
      if (l != w && li.detached && li.attached && !slots[l]) CHECK(li.dead, "listener-lifetime", "listener %d was detached, nobody uses it and delivery moved on, but it is not let go", l);
    }
    delete[] wk; }
  s.destroy("after the service is destroyed");
}
void l04_gen(Rng& r, Program& p, int tier) {
  int n = (int)r.range(1, 3), nl = (int)r.range(2, 5); base_gen(r, p, n, nl); p.p[8] = (r.next() & ((1 << nl) - 1)) | 1 << (nl - 1); p.p[9] = r.next() & ((1 << (nl - 1)) - 1);
  int total = (int)r.range(2, tier ? 44 : 24); bool lev = r.chance(30);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); log_op(r, o, false, false); o.a = r.below(6); if (r.chance(35)) { o.code = r.chance(50) ? ATTACH : r.chance(70) ? DETACH : PAUSE; o.a = o.code == PAUSE ? pause_knob(r) : r.below(nl - 1); } if (r.chance(4)) o.code = DIAGS; else if (lev && r.chance(10)) { o.code = SETLEVEL; o.a = r.below(6); } p.ops.push_back(o); }
  for (int k = r.chance(55) ? (int)r.range(1, 4) : 0; k > 0; k--) { Op o; o.code = SCRIPT; o.thr = 99; o.a = r.below(nl); o.b = r.below(5); static const int kk[] = {CB_ATTACH, CB_ATTACH, CB_DETACH, CB_DETACH, CB_LOG}; int c = r.pick(kk); o.c = c | (c == CB_LOG ? r.below(6) : r.below(nl - 1)) << 4 | 1 << 8; p.ops.push_back(o); }
  if (r.chance(4)) { p.p[11] = r.chance(50) ? r.range(1, 12) : r.range(13, 70); p.p[12] = (int64_t)((r.chance(30) ? ~0ull : r.next()) & 0xffffffffff); }
}
RegisterProp R04({"L04", l04_gen, l04_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ L05
void l05_run(const Program& p) {
  for (auto& o : p.ops) if (o.code == START && o.d == -1) sim::reuse_threads(true);
  Setup s(p); w_content = true; sim::faults_global(1u << sim::F_SPURIOUS);
  s.make(); s.listeners();
  if (p.p[13]) { sim::reuse_threads(true);     // restarted so often that a short counter wraps; every single start must work
    for (int k = 1; k <= p.p[13]; k++) { svc_start(); int m; { sim::Quiet q; m = (int)W->msgs.size(); } do_log(0, 1, 1, 2, false);
      settle([&] { sim::Quiet q; auto c = counts(); for (int l = 0; l < s.nl(); l++) if (!c[l][m]) return false; return true; });
      { sim::Quiet q; auto c = counts(); for (int l = 0; l < s.nl(); l++) CHECK(c[l][m] == 1, "lost-message", "message %d, logged while the service is started for the %dth time, is not delivered", m, k); }
      svc_stop(); } }
  s.run();
  bool restart = p.p[9] & 1;
  if (p.p[10]) { svc_start(); sim::fair(true); w_feed.store(1, std::memory_order_relaxed); do_log(0, 1, 1, 2, false); if (p.p[10] & 2) std::this_thread::sleep_for(std::chrono::milliseconds(1)); svc_stop(); w_feed.store(0, std::memory_order_relaxed); }
  if (p.p[9] & 2) { svc_stop(); if (p.p[9] & 4) do_log(0, 1, 2, 2, false); }
  if (restart) {
    svc_start();
    auto missing = [&] { auto c = counts(); for (int l = 0; l < s.nl(); l++) for (auto& m : W->msgs) if (!c[l][m.id]) return m.id; return -1; };
    settle([&] { return missing() < 0; });
    sim::Quiet q; int m = missing(); sim::probe(PR_RESTART); CHECK(m < 0, "lost-message", "message %d is not delivered although the service is started and all callers are done", m);
  }
  if (p.p[9] & 8) svc_stop();
  uint64_t d0 = sim::stamp(); delete S; S = nullptr; uint64_t d1 = sim::stamp(); { sim::Quiet q; W->ss.push_back({d0, d1, false}); }
  settle([&] { return false; });
  { sim::Quiet q; stats(); auto c = counts();
    for (int l = 0; l < s.nl(); l++) { for (auto& m : W->msgs) CHECK(c[l][m.id] <= 1, "duplicate-message", "message %d reaches listener %d %d times", m.id, l, c[l][m.id]);
      for (auto& g : W->ls[l].got) for (auto& st : W->ss) { if (st.start || st.ret > g.end) continue;
        bool maybe = false; for (auto& x : W->ss) if (x.start && x.ret >= st.call && x.call <= g.end) maybe = true;
        CHECK(maybe, "stopped", "listener %d is called with message %d after stop() had returned and before any start", l, g.msg); } } }
  s.release_all(); sim::check_leaks(s.mark, "after the service is destroyed");
}
void l05_gen(Rng& r, Program& p, int tier) {
  int n = (int)r.range(1, 3), nl = (int)r.range(1, 2); base_gen(r, p, n, nl); p.p[2] = r.chance(60); p.p[9] = r.below(16); if (r.chance(50)) p.p[4] = r.range(1, 3); if (r.chance(10)) p.p[10] = r.range(1, 3);
  int total = (int)r.range(0, tier ? 40 : 20); int w = (int)r.range(10, 60);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); log_op(r, o, r.chance(10), false); if (r.chance(w)) { o.code = r.chance(45) ? START : r.chance(80) ? STOP : PAUSE; o.a = pause_knob(r); } p.ops.push_back(o); }
  if (r.chance(6)) { int t = (int)r.range(1, n); for (int i = 0, e = (int)r.range(50, 90); i < e; i++) { Op o; o.thr = t; log_op(r, o, false, false); p.ops.push_back(o); } }
  if (r.chance(2)) { burst_op(r, p, n); p.p[3] = 0; p.p[4] = 0; }
  if (r.below(1000) < 5) { static const int64_t d[] = {10, 40, 140, 270, 530}; Op o; o.thr = (int)r.range(1, n); o.code = START; o.d = -1; o.b = r.pick(d); if (r.chance(50)) { p.p[13] = o.b; p.p[3] = 0; p.p[4] = 0; o.b = 1; } p.ops.insert(p.ops.begin() + (int64_t)r.below(p.ops.size() + 1), o); }   // restarted very often
}
RegisterProp R05({"L05", l05_gen, l05_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ L06
void l06_run(const Program& p) {
  Setup s(p); w_content = true; sim::faults_global(1u << sim::F_SPURIOUS); int rounds = (int)p.p[9];
  s.make(); s.listeners(); settle([&] { return false; });
  uint64_t base_blocks = sim::live_blocks(), base_bytes = sim::live_bytes(); int64_t maxf = 0, maxt = 0; for (auto& o : p.ops) { if (o.c > maxf) maxf = o.c; if (o.d > maxt) maxt = o.d; }
  uint64_t pool = LogSystem::MESSAGE_POOL_THRESHOLD;
  for (int k = 0; k < rounds; k++) {
    s.run(); settle([&] { return false; });
    sim::Quiet q; uint64_t b = sim::live_blocks(), y = sim::live_bytes(); sim::obligation();
    uint64_t lim = base_blocks + 3 * pool + 24, limy = base_bytes + pool * (2 * (uint64_t)(maxf + maxt + 80) + 160) + 16384;
    CHECK(b <= lim, "memory-growth", "after %zu messages, all delivered, the service holds %lu blocks of memory; with its pool of %lu buffers it can need %lu", W->msgs.size(), (unsigned long)b, (unsigned long)pool, (unsigned long)lim);
    CHECK(y <= limy, "memory-growth", "after %zu messages, all delivered, the service holds %lu bytes of memory; with its pool of %lu buffers it can need %lu", W->msgs.size(), (unsigned long)y, (unsigned long)pool, (unsigned long)limy);
  }
  if (p.p[10] & 1) svc_stop();
  if (p.p[10] & 2) for (int i = 0; i < (int)(p.p[10] >> 2); i++) do_log(i % 6, i % NCAT, i % 40, (i * 7) % 90, i % 5 == 0);
  if (p.p[10] & 1 && p.p[11]) { svc_start(); }
  { sim::Quiet q; stats(); size_t mx = 0; for (auto& m : W->msgs) mx += !m.ptr; if (mx > pool) sim::probe(PR_OVER); }
  s.destroy("after the service is destroyed");
}
void l06_gen(Rng& r, Program& p, int tier) {
  int n = (int)r.range(1, 3), nl = (int)r.range(1, 2); base_gen(r, p, n, nl); p.p[9] = r.range(1, 4); p.p[10] = r.below(8) | (r.chance(80) ? r.below(10) : r.chance(80) ? r.below(90) : (int64_t)r.pick(many)) << 2; p.p[11] = r.below(2);
  bool burst = r.chance(25); if (burst) p.p[4] = 1; else if (r.chance(50)) p.p[4] = 0;
  int total = burst ? (int)r.range(60, tier ? 200 : 130) : (int)r.range(1, tier ? 80 : 40); bool big = r.chance(60);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); log_op(r, o, big, false); if (burst) { o.c %= 64; o.d %= 64; } if (r.chance(5)) { o.code = PAUSE; o.a = pause_knob(r); o.c = o.d = 0; } p.ops.push_back(o); }
  if (r.chance(2)) { burst_op(r, p, n); p.p[3] = 0; p.p[4] = 0; }
}
RegisterProp R06({"L06", l06_gen, l06_run, 6000000, opname, probes_});

// ------------------------------------------------------------------------------ L07
void l07_run(const Program& p) {
  Setup s(p); unsigned fm = 1u << sim::F_SPURIOUS | (p.p[11] ? 1u << sim::F_ALLOC : 0); sim::faults_global(1u << sim::F_SPURIOUS);
  s.make(); s.listeners(); int w = s.nl() - 1;
  if (p.p[11]) { do_log(0, 1, 2, 2, false); settle([&] { return false; }); }   // the last listener is in before memory may fail: it sees every message
  w_nomem = p.p[11]; sim::faults_global(fm);
  s.run();
  sim::faults_global(1u << sim::F_SPURIOUS); settle([&] { return false; });
  const size_t pool = LogSystem::MESSAGE_POOL_THRESHOLD;
  auto idle_figures = [&](const char* when, bool delivered) {
    LogSystem::Diags d; memset(&d, 0xEE, sizeof d); S->getDiags(d); sim::Quiet q; sim::obligation();
    size_t acc = 0, ptr = 0, attached = 0, active = 0, enabled = 0;
    auto c = counts(); for (auto& m : W->msgs) { if (c[w][m.id]) { acc++; } if (m.ptr) ptr++; }
    for (int l = 0; l < s.nl(); l++) { LInfo& li = W->ls[l]; if (!li.attached || li.detached) continue; attached++; active++; bool en = true; possible(li.enabled, ~0ull >> 2, ~0ull >> 2, [&](int x) { en = x; }); if (en) enabled++; }
    CHECK(d.m_msgReceived == acc, "diagnostics", "%s %zu messages are reported as received, %zu were", when, d.m_msgReceived, acc);
    CHECK(d.m_poolSize + d.m_msgsDiscarded == pool + d.m_msgsCreated + ptr, "diagnostics", "%s the buffers do not add up: %zu in the pool and %zu discarded, of %zu first and %zu created and %zu given", when, d.m_poolSize, d.m_msgsDiscarded, pool, d.m_msgsCreated, ptr);
    CHECK(d.m_poolSize <= pool, "diagnostics", "%s %zu buffers are in the pool, its bound is %zu", when, d.m_poolSize, pool);
    CHECK(d.m_maxMsgQueueSize <= acc && (acc == 0 || d.m_maxMsgQueueSize >= 1), "diagnostics", "%s the longest backlog is reported as %zu after %zu messages", when, d.m_maxMsgQueueSize, acc);
    if (delivered) { // a message was delivered after the last change of the listeners: nothing is pending
      CHECK(d.m_pendingListeners == 0 && d.m_activeListeners == active, "diagnostics", "%s %zu listeners are reported as active and %zu as pending; %zu are attached", when, d.m_activeListeners, d.m_pendingListeners, attached);
      CHECK(d.m_enabledListeners == enabled, "diagnostics", "%s %zu listeners are reported as enabled, %zu are", when, d.m_enabledListeners, enabled);
    }
  };
  idle_figures("when idle,", false);
  do_log(0, 1, 3, 3, false); settle([&] { return false; });
  idle_figures("when idle after one more message,", true);
  // attaching without a message leaves the new one pending
  int spare = MAXL - 1; bool att = false;
  { sim::NoFaults nf; slots[spare] = std::make_shared<Listener>(spare); } { sim::Quiet q; LInfo& l = W->ls[spare]; l.level.push_back({0, 0, 5}); l.cat.push_back({0, 0, 0}); l.enabled.push_back({0, 0, 1}); }
  if (p.p[10] & 1) { LogSystem::Diags d0, d1; S->getDiags(d0); attach(spare); att = true; S->getDiags(d1); sim::Quiet q; CHECK(d1.m_pendingListeners + d1.m_activeListeners == d0.m_pendingListeners + d0.m_activeListeners + 1, "diagnostics", "after attaching a listener %zu are reported pending and %zu active, before it was %zu and %zu", d1.m_pendingListeners, d1.m_activeListeners, d0.m_pendingListeners, d0.m_activeListeners); }
  // a backlog of known length
  if (p.p[9] > 0) {
    LogSystem::Diags d0, d1, d2; svc_stop(); S->getDiags(d0);
    if (p.p[11]) { // failing allocations on the way: what adds up in the end is checked
      { sim::FaultWindow fw(1u << sim::F_ALLOC); for (int i = 0; i < p.p[9]; i++) do_log(i % 6, 0, 1, i % 3 ? 1 : 60, i % 7 == 6); }
      svc_start(); settle([&] { return false; }); idle_figures("after a backlog with failed allocations,", !att);
      { sim::Quiet q; stats(); } delete S; s.release_all(); return;
    }
    for (int i = 0; i < p.p[9]; i++) do_log(i % 6, 0, 1, 1, false);
    S->getDiags(d1);
    { sim::Quiet q; size_t n = (size_t)p.p[9], made = n > d0.m_poolSize ? n - d0.m_poolSize : 0, left = n > d0.m_poolSize ? 0 : d0.m_poolSize - n, mx = n > d0.m_maxMsgQueueSize ? n : d0.m_maxMsgQueueSize; sim::obligation(); if (made) sim::probe(PR_OVER);
      CHECK(d1.m_msgReceived == d0.m_msgReceived, "diagnostics", "the received-message count changes while the service is stopped");
      CHECK(d1.m_maxMsgQueueSize == mx, "diagnostics", "with %zu messages waiting the longest backlog is reported as %zu, not %zu", n, d1.m_maxMsgQueueSize, mx);
      CHECK(d1.m_poolSize == left && d1.m_msgsCreated - d0.m_msgsCreated == made && d1.m_msgsDiscarded == d0.m_msgsDiscarded, "diagnostics", "with %zu messages waiting, of %zu pooled buffers, %zu are reported pooled and %zu created", n, d0.m_poolSize, d1.m_poolSize, d1.m_msgsCreated - d0.m_msgsCreated); }
    svc_start(); settle([&] { return false; }); S->getDiags(d2);
    { sim::Quiet q; size_t n = (size_t)p.p[9]; CHECK(d2.m_msgReceived == d1.m_msgReceived + n, "diagnostics", "%zu messages were delivered, the received-message count grew by %zu", n, d2.m_msgReceived - d1.m_msgReceived);
      if (n > pool) CHECK(d2.m_poolSize == pool, "diagnostics", "after a backlog of %zu messages %zu buffers are pooled", n, d2.m_poolSize);
      if (att) { LInfo& l = W->ls[spare]; CHECK(l.got.size() == n, "diagnostics", "the attached listener got %zu of %zu messages", l.got.size(), n); } }
  }
  { sim::Quiet q; stats(); }
  delete S; s.release_all();
}
void l07_gen(Rng& r, Program& p, int tier) {
  int n = (int)r.range(1, 3), nl = (int)r.range(2, 4); base_gen(r, p, n, nl); p.p[8] = (r.next() & ((1 << nl) - 1)) | 1 << (nl - 1); p.p[9] = r.chance(60) ? 0 : r.chance(80) ? (int64_t)r.range(1, 12) : r.chance(80) ? r.range(60, 75) : (int64_t)r.pick(many); p.p[10] = r.below(2); if (r.chance(25)) { p.p[11] = 1; p.mask |= 1u << sim::F_ALLOC; if (r.chance(40)) p.p[9] = r.range(58, 80); }
  int total = (int)r.range(2, tier ? 40 : 22);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); log_op(r, o, false, false); if (r.chance(55)) { static const int k[] = {DIAGS, DIAGS, DIAGS, ATTACH, DETACH, ENABLE, PAUSE}; o.code = r.pick(k); o.a = o.code == PAUSE ? pause_knob(r) : r.below(nl - 1); o.b = r.below(2); } p.ops.push_back(o); }
  if (r.chance(12)) { int t = (int)r.range(1, n); for (int i = 0, e = (int)r.range(60, 80); i < e; i++) { Op o; o.thr = t; log_op(r, o, false, false); p.ops.push_back(o); } p.p[4] = 1; }
  for (int k = r.chance(40) ? (int)r.range(1, 3) : 0; k > 0; k--) { Op o; o.code = SCRIPT; o.thr = 99; o.a = r.below(nl); o.b = r.below(5); o.c = CB_DIAGS; p.ops.push_back(o); }
  if (r.chance(2)) { burst_op(r, p, n); p.p[3] = 0; p.p[4] = 0; }
}
RegisterProp R07({"L07", l07_gen, l07_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ L08
struct Filler : LogSystem::Listener { void onMessage(const LogSystem::Message&) override {} };
void l08_run(const Program& p) {
  Setup s(p); w_content = true; w_throws = true;
  unsigned mask = 1u << sim::F_ALLOC | 1u << sim::F_THREAD_CREATE | 1u << sim::F_LISTENER_THROW | 1u << sim::F_SPURIOUS;
  sim::faults_global(mask);
  bool made = s.make();
  if (!made) { { sim::Quiet q; sim::probe(PR_ERR); } sim::faults_global(0); s.release_all(); sim::check_leaks(s.mark, "after the constructor reported an error"); if (!s.make()) sim::fail("construction", "the service cannot be created although nothing fails"); sim::faults_global(mask); }
  for (int i = 0; i < p.p[9]; i++) { sim::NoFaults nf; S->addListener(std::make_shared<Filler>()); }      // so that the lists of listeners grow into new blocks
  s.listeners(); if (!p.p[2]) svc_start();
  s.run();
  sim::faults_global(0);
  for (int i = 0; i < s.nl(); i++) if (!W->ls[i].attached) attach(i);
  svc_start(); settle([&] { return false; });
  int first = (int)W->msgs.size();
  for (int k = 0; k < 3; k++) { do_log(k, k, 4, 20, k == 1); settle([&] { return false; }); }
  { sim::Quiet q; stats(); auto c = counts(); uint64_t affected = 0;
    for (auto& m : W->msgs) {
      bool any_missing = false;
      for (int l = 0; l < s.nl(); l++) { LInfo& li = W->ls[l]; int k = c[l][m.id];
        CHECK(k <= 1, "duplicate-message", "message %d reaches listener %d %d times", m.id, l, k);
        CHECK(!(k && m.threw), "reported-message", "message %d reaches listener %d although the log call reported an error", m.id, l);
        bool due = !m.threw && li.a_ret && li.a_ret < m.call && s.accepts(m, l);
        if (due && !k) { any_missing = true; CHECK(m.id < first, "recovery", "message %d, logged after the faults had stopped, does not reach listener %d", m.id, l); }
      }
      if (m.threw) { CHECK(m.id < first, "recovery", "logging reports an error although nothing fails any more"); sim::probe(PR_ERR); }
      else if (any_missing) { affected++; sim::probe(PR_DROP); }
    }
    uint64_t nf = sim::fault_hits(sim::F_ALLOC) + sim::fault_hits(sim::F_THREAD_CREATE) + sim::fault_hits(sim::F_LISTENER_THROW);
    CHECK(affected <= nf, "lost-message", "%lu messages are not delivered completely but only %lu faults happened", (unsigned long)affected, (unsigned long)nf); 
    uint64_t na = sim::fault_hits(sim::F_ALLOC); CHECK(affected <= na, "lost-message", "%lu messages are not delivered completely but only %lu allocations failed (the other faults were listeners that threw after they had the message)", (unsigned long)affected, (unsigned long)na); }
  s.destroy("after the service is destroyed");
}
void l08_gen(Rng& r, Program& p, int tier) {
  int n = (int)r.range(1, 3), nl = (int)r.range(1, 3); base_gen(r, p, n, nl); p.p[2] = r.chance(60); p.mask = 1u << sim::F_SPURIOUS; if (r.chance(80)) p.mask |= 1u << sim::F_ALLOC; if (r.chance(40)) p.mask |= 1u << sim::F_THREAD_CREATE; if (r.chance(50)) p.mask |= 1u << sim::F_LISTENER_THROW;
  p.p[8] = r.next() & ((1 << nl) - 1); if (r.chance(40)) for (int i = 0; i < nl; i++) p.p[7] |= (int64_t)r.below(NPAT) << (4 * i);
  if (r.chance(15)) p.p[9] = r.range(25, 33);
  int total = r.chance(90) ? (int)r.range(1, tier ? 40 : 22) : (int)r.range(60, 120);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); log_op(r, o, r.chance(60), p.p[7] != 0); if (r.chance(20)) { static const int k[] = {ATTACH, ATTACH, SETCAT, START, STOP, PAUSE}; o.code = r.pick(k); if (o.code == SETCAT) o.code = PAUSE; o.a = o.code == PAUSE ? pause_knob(r) : r.below(nl); } p.ops.push_back(o); }
}
RegisterProp R08({"L08", l08_gen, l08_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ L09: proxies
// Listeners 0..nl-2 are proxies (the last one is the witness); their targets are recording listeners
// nl.., with settings of their own which must not matter.  p12: target of each proxy (base 8),
// p13: settings of the targets (4 bits each), p14: targets whose outside reference goes early (bits)
void l09_run(const Program& p) {
  Setup s(p); w_reent = false; w_content = true; w_throws = true; int nl = s.nl(), w = nl - 1, nt = (int)p.p[11];
  sim::faults_global(1u << sim::F_SPURIOUS); s.make();
  std::shared_ptr<LogSystem::Listener>* tg; { sim::Quiet q; tg = new std::shared_ptr<LogSystem::Listener>[MAXL]; W->ls.resize(MAXL + MAXL); }
  auto target = [&](int i) { return (int)(p.p[12] >> (3 * i) & 7) % nt; };
  { sim::NoFaults nf;
    for (int t = 0; t < nt; t++) {
      tg[t] = std::make_shared<Listener>(t, MAXL + t); int k = (int)(p.p[13] >> (4 * t) & 15);
      if (k & 1) tg[t]->enable(false); if (k & 2) tg[t]->level(LEVEL::CRITICAL); if (k & 4) { std::string z("zzz"); tg[t]->category(z); } if (k & 8) tg[t]->detach(); }
    s.listeners_made([&](int i) -> std::shared_ptr<LogSystem::Listener> { if (i == w) return std::make_shared<Listener>(i); return std::make_shared<falcon::LogProxyListener>(tg[target(i)]); });
    for (int t = 0; t < nt; t++) if (p.p[14] >> t & 1) tg[t].reset(); }
  sim::faults_global(1u << sim::F_SPURIOUS | 1u << sim::F_LISTENER_THROW);
  s.run();
  sim::faults_global(1u << sim::F_SPURIOUS);
  settle([&] { return false; }); w_done.load(std::memory_order_acquire);
  { sim::Quiet q; stats(); auto c = counts(); auto jb = judged_before(w);
    for (auto& m : W->msgs) {
      CHECK(c[w][m.id] == 1, "lost-message", "message %d, which the service accepts, reaches a listener that accepts it %d times", m.id, c[w][m.id]);
      for (int t = 0; t < nt; t++) {
        int must = 0, may = 0;
        uint64_t a = m.call, b = jb[m.id];
        for (int i = 0; i < w; i++) { if (target(i) != t) continue; LInfo& li = W->ls[i];
          Verdict v1 = judge(li.level, a, b, [&](int x) { return m.level <= x; });
          Verdict v2 = judge(li.enabled, a, b, [&](int x) { return x != 0; });
          Verdict v3 = judge(li.cat, a, b, [&](int x) { return m.cat == 0 || patterns[x].match(cats[m.cat]); });
          bool can = v1.can_accept && v2.can_accept && v3.can_accept && li.a_call && li.a_call <= b && !(li.d_ret && li.d_ret < m.call);
          bool sure = !v1.can_reject && !v2.can_reject && !v3.can_reject && li.attached && li.a_ret < m.call && (!li.d_call || li.d_call > b);
          may += can; must += sure; }
        int k = c[MAXL + t][m.id]; if (must) sim::probe(PR_PROXY);
        CHECK(k >= must, "proxy", "target %d gets message %d (level %d, category '%s') %d times although %d of its proxies accept it", t, m.id, m.level, cats[m.cat].c_str(), k, must);
        CHECK(k <= may, "proxy", "target %d gets message %d (level %d, category '%s') %d times although only %d of its proxies can have accepted it", t, m.id, m.level, cats[m.cat].c_str(), k, may);
      }
    }
    for (int t = 0; t < nt; t++) if (tg[t]) { int k = (int)(p.p[13] >> (4 * t) & 15); std::string ct = tg[t]->category(); bool same = tg[t]->isEnabled() == !(k & 1) && tg[t]->level() == (k & 2 ? LEVEL::CRITICAL : LEVEL::TRACE) && ct == (k & 4 ? "zzz" : "") && tg[t]->isDetached() == !!(k & 8);
      CHECK(same, "proxy-settings", "the settings of target %d changed although nobody set them", t); }
    for (int t = 0; t < nt; t++) { bool held = false; for (int i = 0; i < w; i++) if (target(i) == t) held = true; if (held) CHECK(!W->ls[MAXL + t].dead, "proxy-lifetime", "target %d is destroyed although a proxy of it exists", t); }
  }
  for (int t = 0; t < nt; t++) tg[t].reset();
  delete S; S = nullptr; s.release_all();
  { sim::Quiet q; for (int t = 0; t < nt; t++) CHECK(W->ls[MAXL + t].dead, "proxy-lifetime", "target %d is not let go although its proxies are gone", t); delete[] tg; }
  sim::check_leaks(s.mark, "after the service is destroyed");
}
void l09_gen(Rng& r, Program& p, int tier) {
  int n = (int)r.range(1, 3), nl = (int)r.range(2, 5); base_gen(r, p, n, nl); p.p[11] = r.range(1, 3);
  p.p[8] = (r.next() | r.next()) & ((1 << nl) - 1); p.p[8] |= 1 << (nl - 1); for (int i = 0; i < nl - 1; i++) p.p[12] |= (int64_t)r.below(8) << (3 * i);
  p.p[13] = r.next() & 0xfff; if (r.chance(40)) p.p[13] = 0; p.p[14] = r.below(8);
  if (r.chance(40)) p.mask |= 1u << sim::F_LISTENER_THROW;
  if (r.chance(50)) for (int i = 0; i < nl - 1; i++) p.p[7] |= (int64_t)r.below(NPAT) << (4 * i);
  if (r.chance(50)) { p.p[6] = (int64_t)LEVEL::TRACE << (3 * (nl - 1)); for (int i = 0; i < nl - 1; i++) p.p[6] |= (int64_t)r.below(6) << (3 * i); }
  int total = (int)r.range(2, tier ? 44 : 24); uint64_t allow = r.next() | r.next();
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); log_op(r, o, r.chance(20), true); if (r.chance(40)) { static const int k[] = {SETLLEVEL, SETCAT, ENABLE, ATTACH, ATTACH, DETACH, DETACH, PAUSE, PAUSE}; int c = r.pick(k); if (allow >> c & 1) { o.code = c; o.a = c == PAUSE ? pause_knob(r) : r.below(nl - 1); o.b = r.below(60); } } p.ops.push_back(o); }
  for (int k = r.chance(30) ? (int)r.range(1, 3) : 0; k > 0; k--) { Op o; o.code = SCRIPT; o.thr = 99; o.a = r.below(std::min(nl, (int)p.p[11])); o.b = r.below(5); static const int kk[] = {CB_LEVEL, CB_CATEGORY, CB_ENABLE, CB_DETACH, CB_ATTACH, CB_LOG}; int c = r.pick(kk); o.c = c | (c == CB_LOG ? r.below(6) : r.below(nl - 1)) << 4 | (c == CB_LEVEL ? r.below(6) : c == CB_CATEGORY ? r.below(NPAT) : c == CB_LOG ? 1 : r.below(2)) << 8; p.ops.push_back(o); }
}
RegisterProp R09({"L09", l09_gen, l09_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ L10: several services
// p0: threads, p1: listeners, p2: services, p3: call-back points, p5: levels of the services (3 bits each),
// p6/p7: listeners' levels and patterns, p8: which listener is on which service at first (4 bits per listener), p9: service 0 is thread 1's own and is renewed
struct MMsg { int id, inst, level, cat, line; std::string *file, *text; uint64_t call = 0, ret = 0; };
struct MGot { int msg; uint64_t begin, end; };
struct MInst { int slot; uint64_t gone_call = 0, gone_ret = 0; std::vector<SSOp> ss; };     // one LogSystem object
struct MList { std::vector<MGot> got; bool dead = false; uint64_t d_call = 0, d_ret = 0; std::map<int, std::pair<uint64_t, uint64_t>> on; };
struct MWorld { std::deque<MMsg> msgs; std::unordered_map<int, int> by_line; std::vector<MInst> inst; std::vector<MList> ls; };
MWorld* MW; LogSystem** msvc; int* minst; std::shared_ptr<LogSystem::Listener>* mlst;
enum { MLOG, MSTOP, MSTART, MATTACH, MDETACH, MRENEW, MDIAGS, MPAUSE, MSCRIPT, MNOPS };
const Program* mprog; std::atomic<bool> mscripts; void m_act(const Op& o, int slot);
struct MListener : LogSystem::Listener {
  int idx; std::atomic<int> calls{0}; uint64_t magic = 0x600D600D600D600Dull; int points;
  MListener(int i, int pt) noexcept : idx(i), points(pt) {}
  ~MListener() override { CHECK(magic == 0x600D600D600D600Dull, "listener-lifetime", "listener %d is destroyed twice", idx); magic = 0xBAD; sim::Quiet q; MW->ls[idx].dead = true; }
  void onMessage(const LogSystem::Message& m) override {
    CHECK(magic == 0x600D600D600D600Dull, "listener-lifetime", "listener %d is called after its destruction", idx);
    size_t at; const MMsg* x; int line = m.m_line;
    { sim::Quiet q; sim::obligation(); auto it = MW->by_line.find(line); if (it == MW->by_line.end()) sim::fail("altered-message", "listener %d receives a message with line %d, which nobody logged", idx, line);
      x = &MW->msgs[it->second]; at = MW->ls[idx].got.size(); MW->ls[idx].got.push_back({x->id, sim::stamp(), 0}); }
    bool ok = m.m_file == *x->file && m.m_message == *x->text && m.m_category == cats[x->cat] && (int)m.m_level == x->level;
    CHECK(ok, "altered-message", "listener %d receives message %d of service %d changed", idx, x->id, x->inst);
    for (int i = 0; i < points; i++) sim::point();
    int k = calls.fetch_add(1, std::memory_order_relaxed);
    if (mscripts.load(std::memory_order_relaxed)) for (const Op* o = mprog->ops.data(), *e = o + mprog->ops.size(); o != e; ++o) if (o->code == MSCRIPT && o->a == idx && o->b == k) { int slot; { sim::Quiet q; slot = MW->inst[x->inst].slot; sim::probe(MSCRIPT); } m_act(*o, slot); }
    { sim::Quiet q; MW->ls[idx].got[at].end = sim::stamp(); }
  }
};
const char* const mnames[] = {"log on service", "stop service", "start service", "attach (listener, service)", "detach listener", "destroy the own service and create another", "diagnostics of service", "pause", "call-back action (listener, call, action, service)"};
std::string mopname(const Program&, const Op& o) { return "T" + std::to_string(o.thr) + " " + mnames[o.code % MNOPS] + " " + std::to_string(o.a) + " " + std::to_string(o.b) + " " + std::to_string(o.c) + " " + std::to_string(o.d); }
void m_new(const Program& p, int k) { sim::NoFaults nf; msvc[k] = new LogSystem(true); uint64_t t = sim::stamp(); msvc[k]->level((LEVEL)(p.p[5] >> (3 * k) & 7)); sim::Quiet q; minst[k] = (int)MW->inst.size(); MInst n; n.slot = k; n.ss.push_back({t, t, true}); MW->inst.push_back(n); }
void m_attach(int l, int k) {
  uint64_t c = sim::stamp(); int in; { sim::Quiet q; in = minst[k]; auto& on = MW->ls[l].on; if (on.count(in) || MW->ls[l].d_call) return; on[in] = {c, 0}; }
  { sim::NoFaults nf; msvc[k]->addListener(mlst[l]); } c = sim::stamp(); sim::Quiet q; MW->ls[l].on[in].second = c;
}
void m_log(int k, int level, int cat, int64_t fsz, int64_t tsz) {
  MMsg* m; { sim::Quiet q; int id = (int)MW->msgs.size(); MW->msgs.emplace_back(); m = &MW->msgs.back(); m->id = id; m->inst = minst[k]; m->level = level; m->cat = cat; m->line = (int)((uint32_t)(id + 1) * 2654435761u); m->file = junk_text(id * 2 + 1, fsz); m->text = junk_text(id * 2, tsz); MW->by_line[m->line] = id; }
  std::string c(cats[cat]); m->call = sim::stamp(); msvc[k]->log(*m->file, m->line, (LEVEL)level, c, *m->text); m->ret = sim::stamp();
}
void m_stop(int k) { int in; { sim::Quiet q; in = minst[k]; } SSOp o{sim::stamp(), 0, false}; msvc[k]->stop(); o.ret = sim::stamp(); sim::Quiet q; MW->inst[in].ss.push_back(o); }
void m_start(int k) { int in; { sim::Quiet q; in = minst[k]; } sim::NoFaults nf; SSOp o{sim::stamp(), 0, true}; msvc[k]->start(); o.ret = sim::stamp(); sim::Quiet q; MW->inst[in].ss.push_back(o); }
void m_delete(int k) { int in; { sim::Quiet q; in = minst[k]; MW->inst[in].gone_call = sim::stamp(); } delete msvc[k]; msvc[k] = nullptr; sim::Quiet q; MW->inst[in].gone_ret = sim::stamp(); }
// from a call-back of service `slot`: only services after it are started and stopped, so that no two wait for one another
void m_act(const Op& o, int slot) {
  int ns = (int)mprog->p[2], k = (int)(o.d % ns); bool own = mprog->p[9] != 0; if (own && k == 0) k = 1;
  switch (o.c) { case MLOG: m_log(k, (int)(o.d / 4 % 6), (int)(o.d / 24 % NCAT), 3, 12); break; case MSTOP: if (k > slot) m_stop(k); break; case MSTART: if (k > slot) m_start(k); break; case MATTACH: m_attach((int)(o.d / 4 % mprog->p[1]), k); break; }
}
void l10_run(const Program& p) {
  int n = (int)p.p[0], nl = (int)p.p[1], ns = (int)p.p[2]; bool own = p.p[9] != 0; uint64_t mark = sim::alloc_seq(); sim::faults_global(1u << sim::F_SPURIOUS);
  { sim::Quiet q; MW = new MWorld; MW->ls.resize(nl); msvc = new LogSystem*[ns](); minst = new int[ns](); mlst = new std::shared_ptr<LogSystem::Listener>[nl]; mprog = &p; } mscripts.store(true);
  auto lev = [&](int l) { return (int)(p.p[6] >> (3 * l) & 7); }; auto pat = [&](int l) { return (int)(p.p[7] >> (4 * l) & 15) % NPAT; };
  { sim::NoFaults nf; for (int l = 0; l < nl; l++) { mlst[l] = std::make_shared<MListener>(l, (int)p.p[3]); mlst[l]->level((LEVEL)lev(l)); std::string c(patterns[pat(l)].re); mlst[l]->category(c); } }
  for (int k = 0; k < ns; k++) m_new(p, k);
  auto first = [&](int k) { for (int l = 0; l < nl; l++) if (p.p[8] >> (4 * l + k) & 1) m_attach(l, k); };
  for (int k = 0; k < ns; k++) first(k);
  if (p.p[13]) { sim::reuse_threads(true); mscripts.store(false);      // service 0 is renewed very often while its listeners live on
    for (int r = 0; r < p.p[13]; r++) {
      m_delete(0); m_new(p, 0); first(0); int id; { sim::Quiet q; id = (int)MW->msgs.size(); } m_log(0, 0, 0, 2, 20);
      auto count = [&](int l) { int c = 0; for (auto& g : MW->ls[l].got) c += g.msg == id && g.end; return c; };
      settle([&] { sim::Quiet q; for (int l = 0; l < nl; l++) if (MW->ls[l].on.count(minst[0]) && !count(l)) return false; return true; });
      sim::Quiet q; for (int l = 0; l < nl; l++) if (MW->ls[l].on.count(minst[0])) CHECK(count(l) == 1, "independence", "a message of the %dth service that listener %d is attached to reaches it %d times", r + 2, l, count(l)); }
    mscripts.store(true); sim::reuse_threads(false); }
  run_threads(p, n, [&](const Op& o) {
    if (o.code == MSCRIPT) return;
    { sim::Quiet q; sim::probe(o.code); }
    int k = (int)(o.a % ns); if (own && o.thr != 1 && k == 0) k = 1;      // service 0 is thread 1's
    switch (o.code) {
      case MLOG: m_log(k, (int)(o.b % 6), (int)(o.b / 6 % NCAT), o.c, o.d); break;
      case MSTOP: m_stop(k); break;
      case MSTART: m_start(k); break;
      case MATTACH: m_attach((int)(o.b % nl), k); break;
      case MDETACH: { int l = (int)(o.b % nl); { sim::Quiet q; if (MW->ls[l].d_call) break; MW->ls[l].d_call = sim::stamp(); } mlst[l]->detach(); uint64_t t = sim::stamp(); sim::Quiet q; MW->ls[l].d_ret = t; break; }
      case MRENEW: if (own && o.thr == 1) { if (o.b & 1) m_stop(0); m_delete(0); m_new(p, 0); first(0); } break;
      case MDIAGS: { LogSystem::Diags d; memset(&d, 0xEE, sizeof d); msvc[k]->getDiags(d); sim::Quiet q; size_t logged = 0; for (auto& m : MW->msgs) if (m.inst == minst[k] && m.call) logged++;
        CHECK(d.m_msgReceived <= logged && d.m_maxMsgQueueSize <= logged && d.m_msgsCreated <= logged, "diagnostics", "a service that was given %zu messages reports %zu received, a backlog of %zu and %zu buffers created", logged, d.m_msgReceived, d.m_maxMsgQueueSize, d.m_msgsCreated); break; }
      case MPAUSE: pause_op(o.a); break;
    }
  });
  for (int i = 0; i < 2; i++) { if (i) mscripts.store(false); for (int k = 0; k < ns; k++) m_start(k); settle([&] { return false; }); }
  { sim::Quiet q; std::vector<std::vector<int>> c(nl, std::vector<int>(MW->msgs.size(), 0)); for (int l = 0; l < nl; l++) for (auto& g : MW->ls[l].got) c[l][g.msg]++;
    sim::probe(PR_MSG, MW->msgs.size()); std::vector<size_t> acc(MW->inst.size(), 0);
    for (auto& m : MW->msgs) { MInst& in = MW->inst[m.inst]; bool live = !in.gone_call; bool sys = m.level <= (int)(p.p[5] >> (3 * in.slot) & 7); acc[m.inst] += sys;
      for (int l = 0; l < nl; l++) { MList& li = MW->ls[l]; int k = c[l][m.id]; auto it = li.on.find(m.inst); sim::obligation(); sim::probe(PR_DELIV, k);
        bool acpt = sys && m.level <= lev(l) && (m.cat == 0 || patterns[pat(l)].match(cats[m.cat]));
        CHECK(k <= 1, "duplicate-message", "message %d of service %d reaches listener %d %d times", m.id, m.inst, l, k);
        CHECK(!k || it != li.on.end(), "foreign-message", "listener %d gets message %d of service %d, to which it was never attached", l, m.id, m.inst);
        CHECK(!k || acpt, "unwanted-message", "message %d of service %d reaches listener %d, whose filter or the service's excludes it", m.id, m.inst, l);
        CHECK(!(k && li.d_ret && li.d_ret < m.call), "detach", "listener %d gets message %d of service %d, which was logged after its detach had returned", l, m.id, m.inst);
        CHECK(k || !live || !acpt || it == li.on.end() || !it->second.second || it->second.second > m.call || li.d_call, "lost-message", "message %d of service %d never reaches listener %d, which is attached and accepts it", m.id, m.inst, l); } }
    for (int l = 0; l < nl; l++) { auto& g = MW->ls[l].got;
      for (size_t i = 0; i < g.size(); i++) { const MMsg& a = MW->msgs[g[i].msg]; MInst& in = MW->inst[a.inst];
        CHECK(!in.gone_ret || g[i].end && g[i].end < in.gone_ret, "destroyed", "listener %d is called with message %d after its service %d was destroyed", l, a.id, a.inst);
        for (auto& st : in.ss) { if (st.start || st.ret > g[i].end) continue; bool maybe = false; for (auto& x : in.ss) if (x.start && x.ret >= st.call && x.call <= g[i].end) maybe = true;
          CHECK(maybe, "stopped", "listener %d is called with message %d of service %d after stop() of that service had returned and before any start", l, a.id, a.inst); }
        for (size_t j = i + 1; j < g.size(); j++) { const MMsg& b = MW->msgs[g[j].msg]; if (a.inst == b.inst) CHECK(!(b.ret && b.ret < a.call), "order", "listener %d gets message %d before message %d, which was logged completely before it on the same service", l, a.id, b.id); } } }
    for (int k = 0; k < ns; k++) { LogSystem::Diags d; { sim::Quiet q2; } msvc[k]->getDiags(d); size_t a = acc[minst[k]]; const size_t pool = LogSystem::MESSAGE_POOL_THRESHOLD;
      CHECK(d.m_msgReceived == a && d.m_maxMsgQueueSize <= a && (!a || d.m_maxMsgQueueSize), "diagnostics", "service %d reports %zu messages received and a longest backlog of %zu; it accepted %zu", k, d.m_msgReceived, d.m_maxMsgQueueSize, a);
      CHECK(d.m_poolSize <= pool && d.m_poolSize + d.m_msgsDiscarded == pool + d.m_msgsCreated, "diagnostics", "the buffers of service %d do not add up: %zu in the pool and %zu discarded, of %zu first and %zu created", k, d.m_poolSize, d.m_msgsDiscarded, pool, d.m_msgsCreated);
      CHECK((int)msvc[k]->level() == (int)(p.p[5] >> (3 * k) & 7), "level", "the level of service %d is not what was set", k); } }
  // the services go one by one; the others keep working
  for (int k = ns - 1; k >= 0; k--) {
    m_delete(k);
    if (k) { int before; { sim::Quiet q; before = (int)MW->msgs.size(); } for (int j = 0; j < k; j++) m_log(j, 0, 0, 2, 20); settle([&] { return false; });
      sim::Quiet q; for (size_t id = (size_t)before; id < MW->msgs.size(); id++) for (int l = 0; l < nl; l++) { MList& li = MW->ls[l]; if (!li.on.count(MW->msgs[id].inst)) continue; int c = 0; for (auto& g : li.got) c += g.msg == (int)id;
        CHECK(c == (li.d_call ? 0 : 1), "independence", "after another service was destroyed a message of service %d reaches listener %d %d times", MW->msgs[id].inst, l, c); } } }
  { sim::Quiet q; for (int l = 0; l < nl; l++) CHECK(!MW->ls[l].dead, "listener-lifetime", "listener %d is destroyed although its owner still holds it", l); }
  for (int l = 0; l < nl; l++) mlst[l].reset();
  { sim::Quiet q; for (int l = 0; l < nl; l++) CHECK(MW->ls[l].dead, "listener-lifetime", "listener %d is not let go although all services are gone", l); }
  sim::check_leaks(mark, "after all services are destroyed");
}
void l10_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); if (p.tick > 20000) p.tick = 20000; p.mask = 1u << sim::F_SPURIOUS;
  int n = (int)r.range(1, 4), nl = (int)r.range(1, 4), ns = (int)r.range(2, 3); p.p[0] = n; p.p[1] = nl; p.p[2] = ns; p.p[3] = r.chance(50) ? 0 : r.below(6); p.p[9] = r.chance(35);
  for (int k = 0; k < ns; k++) p.p[5] |= (int64_t)(r.chance(60) ? 5 : r.below(6)) << (3 * k);
  for (int l = 0; l < nl; l++) { p.p[6] |= (int64_t)(r.chance(70) ? 5 : r.below(6)) << (3 * l); if (r.chance(25)) p.p[7] |= (int64_t)r.below(NPAT) << (4 * l); p.p[8] |= (int64_t)(r.chance(50) ? 15 : r.below(8)) << (4 * l); }
  int total = (int)r.range(2, tier ? 60 : 30); uint64_t allow = r.next() | r.next(); bool burst = r.chance(8); if (burst) total = 100;
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n); o.code = MLOG; o.a = r.below(ns); o.b = r.below(6 * NCAT); o.c = r.below(12); o.d = r.chance(5) ? r.below(300) : r.below(30);
    if (r.chance(burst ? 5 : 30)) { static const int k[] = {MSTOP, MSTART, MSTART, MATTACH, MDETACH, MRENEW, MDIAGS, MPAUSE}; int c = r.pick(k); if (allow >> c & 1) { o.code = c; if (c == MPAUSE) o.a = pause_knob(r); if (c == MRENEW) o.thr = 1; } } p.ops.push_back(o); }
  for (int k = r.chance(40) ? (int)r.range(1, 4) : 0; k > 0; k--) { Op o; o.thr = 99; o.code = MSCRIPT; o.a = r.below(nl); o.b = r.below(6); static const int kk[] = {MLOG, MSTOP, MSTART, MATTACH}; o.c = r.pick(kk); o.d = r.below(1000); p.ops.push_back(o); }
  if (r.below(1000) < 4) { static const int64_t d[] = {10, 40, 140, 270, 530}; p.p[13] = r.pick(d); p.p[3] = 0; }
}
const char* const mprobes[] = {"log", "stop", "start", "attach", "detach", "renew_service", "diagnostics", "pause", "call_back_actions", "-", "-", "-", "-", "-", "-", "-", "-", "messages", "deliveries", nullptr};
RegisterProp R10({"L10", l10_gen, l10_run, 3000000, mopname, mprobes});
}
