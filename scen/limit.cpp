// N02: the logger and its statements under one compile-time limit.  SIM_LIMIT: index; the command
// line sets FALCON_MIN_LOG_LEVEL and gives the namespace falcon a name of its own.
#include "limits.h"
#include <falcon/logger.h>
#include <chrono>
using falcon::LogSystem;
using LEVEL = LogSystem::LEVEL;
namespace {
constexpr int limit_levels[N_LIMITS] = {-1, LEVEL::CRITICAL, LEVEL::WARN, LEVEL::DEBUG};
constexpr int LIMIT = limit_levels[SIM_LIMIT];
struct Change { uint64_t call, ret; int v; };
template <class F> void possible(const std::vector<Change>& h, uint64_t a, uint64_t b, F f) {
  for (size_t i = 0; i < h.size(); i++) {
    if (h[i].call > b) continue;
    bool super = false; for (size_t j = 0; j < h.size(); j++) if (j != i && h[j].ret < a && h[j].call > h[i].ret) super = true;
    if (!super) f(h[i].v);
  }
}
const char* const cats[] = {"", "net", "disk::INTERNAL", "a-category-name-that-needs-its-own-block-of-memory"};
enum { NCAT = 4 };
struct Stmt { int level, cat, kind; uint64_t call = 0, ret = 0; bool evaluated = false, entered = false, threw = false; int got = 0; };
struct World { std::deque<Stmt> st; std::vector<Change> level; int cat[64] = {0}; bool alloc = false; };
World* W;
const std::string* cat_str[NCAT];
struct Tag { int id; };
std::ostream& operator<<(std::ostream& o, const Tag& t) { char b[16]; snprintf(b, sizeof b, "s%d:", t.id); return o << b; }
Tag operand(int id) { sim::Quiet q; W->st[id].evaluated = true; return {id}; }           // the operand of a statement: a call
void entered(int id) { sim::Quiet q; W->st[id].entered = true; }
struct Rec : LogSystem::Listener {
  void onMessage(const LogSystem::Message& m) override {
    sim::Quiet q; sim::obligation(); const std::string& t = m.m_message; int id = -1;
    if (t.size() > 2 && t[0] == 's') { size_t i = 1; long v = 0; while (i < t.size() && t[i] >= '0' && t[i] <= '9') v = v * 10 + (t[i++] - '0'); if (i > 1 && i + 1 == t.size() && t[i] == ':' && v < (long)W->st.size()) id = (int)v; }
    if (id < 0) { if (W->alloc) return; sim::fail("foreign-text", "a message reads '%.60s', which no statement composed", t.c_str()); }
    Stmt& s = W->st[id]; s.got++;
    CHECK(s.level <= LIMIT, "excluded-message", "statement %d of level %d, above the compile-time limit %d, produces a message", id, s.level, LIMIT);
    CHECK(s.got == 1, "duplicate-message", "statement %d produces %d messages", id, s.got);
    CHECK((int)m.m_level == s.level, "foreign-level", "the message of statement %d shows level %d, not %d", id, (int)m.m_level, s.level);
    CHECK(m.m_category == cats[s.cat] || W->alloc, "foreign-category", "the message of statement %d shows the category '%s', not the thread's, '%s' (compile-time limit %d)", id, m.m_category.c_str(), cats[s.cat], LIMIT);
  }
};
#define ON_LEVELS(M) case 0: M(falcon::LLCRIT); break; case 1: M(falcon::LLERR); break; case 2: M(falcon::LLWARN); break; case 3: M(falcon::LLINFO); break; case 4: M(falcon::LLDEBUG); break; default: M(falcon::LLTRACE); break;
#define S_AUTO(L) LOG(L) << operand(id)
#define S_BLOCK(L) LOG_BLOCK(L) { entered(id); LOGGER << operand(id); }
#define S_CHOICE(L) LOG_BLOCK(o.c & 1 ? L : (L)) { entered(id); LOGGER << operand(id); }
#define S_UNBRACED(L) if (o.c & 1) LOG(L) << operand(id); else other++
void statement(const Op& o) {
  int id, other = 0, kind = (int)(o.a % LIM_NKINDS), level = (int)(o.b % 6); Stmt* s;
  { sim::Quiet q; id = (int)W->st.size(); W->st.push_back({level, W->cat[sim::tid()], kind}); s = &W->st.back(); if (level > LIMIT) sim::probe(LP_EXCISED); }
  { uint64_t t = sim::stamp(); s->call = t; } bool threw = false;
  try {
    switch (kind) {
      case LIM_AUTO: switch (level) { ON_LEVELS(S_AUTO) } break;
      case LIM_NAMED: switch (level) { case 0: LOG_CRIT << operand(id); break; case 1: LOG_ERR << operand(id); break; case 2: LOG_WARN << operand(id); break; case 3: LOG_INFO << operand(id); break; case 4: LOG_DBG << operand(id); break; default: LOG_TRC << operand(id); break; } break;
      case LIM_RUNTIME: LOG((LEVEL)level) << operand(id); break;
      case LIM_BLOCK: switch (level) { ON_LEVELS(S_BLOCK) } break;
      case LIM_NAMED_BLOCK: switch (level) { case 0: LOG_BLOCK_CRIT { entered(id); LOGGER << operand(id); } break; case 1: LOG_BLOCK_ERR { entered(id); LOGGER << operand(id); } break; case 2: LOG_BLOCK_WARN { entered(id); LOGGER << operand(id); } break; case 3: LOG_BLOCK_INFO { entered(id); LOGGER << operand(id); } break; case 4: LOG_BLOCK_DBG { entered(id); LOGGER << operand(id); } break; default: LOG_BLOCK_TRC { entered(id); LOGGER << operand(id); } break; } break;
      case LIM_CHOICE: switch (level) { ON_LEVELS(S_CHOICE) } break;
      case LIM_UNBRACED: switch (level) { ON_LEVELS(S_UNBRACED) } break;
    }
  } catch (std::bad_alloc&) { threw = true; }
  uint64_t t = sim::stamp(); sim::Quiet q; s->ret = t; s->threw = threw; sim::obligation();
  if (kind == LIM_UNBRACED) { CHECK(other == !(o.c & 1), "branch", "a log statement as a branch of an if changes which branch is taken"); if (!(o.c & 1)) { s->kind = LIM_NKINDS; CHECK(!s->evaluated, "branch", "the statement of a branch not taken is executed"); } }
  if (level > LIMIT) {
    CHECK(!s->evaluated && !s->entered, "excluded-operand", "%s of statement %d of level %d, above the compile-time limit %d, %s", s->entered ? "the block" : "the operand", id, level, LIMIT, s->entered ? "is executed" : "is evaluated");
    CHECK(!threw, "excluded-error", "statement %d of level %d, above the compile-time limit %d, throws", id, level, LIMIT);
  }
}
void op(const Op& o) {
  { sim::Quiet q; sim::probe(o.code); }
  switch (o.code) {
    case LIM_STMT: statement(o); break;
    case LIM_CATEGORY: { int k = (int)(o.a % NCAT); bool ok = true; try { LOG_CATEGORY(*cat_str[k]); } catch (std::bad_alloc&) { ok = false; } if (ok) { sim::Quiet q; W->cat[sim::tid()] = k; } break; }
    case LIM_SETLEVEL: { Change c{sim::stamp(), ~0ull, (int)(o.a % 6)}; size_t i; { sim::Quiet q; i = W->level.size(); W->level.push_back(c); } LOGGER.level((LEVEL)c.v); { sim::Quiet q; W->level[i].ret = sim::stamp(); } break; }
    case LIM_PAUSE: pause_op(o.a); break;
  }
}
void run(const Program& p) {
  { sim::Quiet q; W = new World; W->alloc = p.p[2]; W->level.push_back({0, 0, (int)LEVEL::TRACE}); for (int i = 0; i < NCAT; i++) cat_str[i] = new std::string(cats[i]); sim::probe(LP_LIMIT0 + SIM_LIMIT); }
  { sim::NoFaults nf; LOGGER.addListener(std::make_shared<Rec>()); }
  sim::faults_global(1u << sim::F_SPURIOUS | (p.p[2] ? 1u << sim::F_ALLOC : 0));
  run_threads(p, (int)p.p[0], op);
  sim::faults_global(0);
  settle([] { return false; });
  { sim::Quiet q; for (size_t i = 0; i < W->st.size(); i++) { auto& s = W->st[i]; if (s.level > LIMIT || s.kind == LIM_NKINDS) continue;
      bool can = false, cannot = false; possible(W->level, s.call, s.ret, [&](int v) { if (s.level <= v) can = true; else cannot = true; });
      CHECK(!s.got || can, "suppressed-message", "statement %zu of level %d produces a message although the level in force is below it", i, s.level);
      CHECK(cannot || s.threw || W->alloc || s.got == 1, "lost-message", "statement %zu of level %d, within the compile-time limit %d and the level in force, produces no message", i, s.level, LIMIT);
      sim::probe(s.got ? LP_MESSAGES : LP_SUPPRESSED); } }
  LOGGER.stop();
}
SetLimitRun set(SIM_LIMIT, run);
}
