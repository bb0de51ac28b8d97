// G01-G02: the streaming logger.
#include "common.h"
#include <falcon/logger.h>
#include <chrono>
#include <cstdio>
#include <iomanip>
#include <locale>
#include <optional>
#include <sstream>
#include <stdexcept>
using falcon::LogSystem;
using falcon::Logger;
using LEVEL = LogSystem::LEVEL;

namespace {
struct Change { uint64_t call, ret; int v; };
template <class F> void possible(const std::vector<Change>& h, uint64_t a, uint64_t b, F f) {
  for (size_t i = 0; i < h.size(); i++) {
    if (h[i].call > b) continue;
    bool super = false; for (size_t j = 0; j < h.size(); j++) if (j != i && h[j].ret < a && h[j].call > h[i].ret) super = true;
    if (!super) f(h[i].v);
  }
}
std::string printable(const std::string& s) { std::string o; for (unsigned char c : s.substr(0, 160)) if (c < 32 || c > 126) { char b[6]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; return o; }

// ------------------------------------------------------------------------------ G01: parts of a statement
enum PK { P_TEXT, P_INT, P_DOUBLE, P_BOOL, P_CHAR, P_HEX, P_OCT, P_FILL, P_WIDTH, P_ALPHA, P_PREC, P_SHOW, P_LOCALE, P_LEFT, P_NPLAIN, P_NEST = P_NPLAIN, P_THROW, P_MID, P_NKINDS };
struct Punct : std::numpunct<char> { std::string do_grouping() const override { return "\2"; } char do_thousands_sep() const override { return '\''; } std::string do_truename() const override { return "ja"; } };
std::locale* punct;
struct Part { int kind; int64_t v; int stmt; };
struct Abandon {};
void put_plain(std::ostream& o, const Part& p) {
  switch (p.kind) {
    case P_TEXT: { char c = (char)('a' + p.v % 26); int n = (int)(p.v < 1000 ? p.v / 26 % 40 : p.v / 26); o << "[" ; for (int i = 0; i < n; i++) o << c; o << "]"; break; }
    case P_INT: o << (int)(p.v - 500) << ';'; break;
    case P_DOUBLE: o << (double)p.v / 7 << ';'; break;
    case P_BOOL: o << (p.v % 2 == 0) << ';'; break;
    case P_CHAR: o << (char)(33 + p.v % 90); break;
    case P_HEX: o << std::hex; break;
    case P_OCT: o << std::oct; break;
    case P_FILL: o << std::setfill('*'); break;
    case P_WIDTH: o << std::setw((int)(p.v % 30)); break;
    case P_ALPHA: o << std::boolalpha; break;
    case P_PREC: o << std::setprecision((int)(p.v % 9)); break;
    case P_SHOW: o << std::showpos << std::showbase << std::uppercase; break;
    case P_LOCALE: o.imbue(*punct); break;
    case P_LEFT: o << std::left; break;
  }
}
void nested(int64_t v);
void stringified(int stmt);
void give_up(int stmt);
std::ostream& operator<<(std::ostream& o, const Part& p) {
  stringified(p.stmt);
  switch (p.kind) {
    case P_NEST: nested(p.v); o << "(n)"; break;                        // the operand's insertion logs, too
    case P_MID: o << "("; nested(p.v); o << "n)"; break;
    case P_THROW: if (sim::fault(sim::F_INSERT_THROW)) { give_up(p.stmt); throw Abandon(); } o << "~"; break;
    default: { put_plain(o, p); }
  }
  return o;
}
void model(std::ostream& o, const Part& p) { switch (p.kind) { case P_NEST: o << "(n)"; break; case P_MID: o << "(" << "n)"; break; case P_THROW: o << "~"; break; default: put_plain(o, p); } }

const char* const cats[] = {"", "net", "disk::INTERNAL", "a-category-name-that-needs-its-own-block-of-memory", "x"};
enum { NCAT = sizeof cats / sizeof *cats };
enum Style { AUTO, AUTO_CAT, BLOCK, BLOCK_CAT, DIRECT };
struct Stmt { int id, tid, level, style, cat; const char* file; int line = 0; uint64_t call = 0, ret = 0; std::vector<Part> parts; std::string text; std::vector<std::string> cuts; bool abandoned = false, threw = false, evaluated = false; int got = 0; };
struct World { std::deque<Stmt> st; std::vector<Change> level; int cat[64] = {0}; int depth[64] = {0}; int unknown = 0; bool alloc = false; };
World* W;
Logger* LG;
void stringified(int stmt) { sim::Quiet q; if (stmt >= 0) W->st[stmt].evaluated = true; }
void give_up(int stmt) { sim::Quiet q; W->st[stmt].abandoned = true; }

struct Rec : LogSystem::Listener {
  void onMessage(const LogSystem::Message& m) override {
    sim::Quiet q; sim::obligation();
    const std::string& t = m.m_message; int id = -1;
    if (t.size() > 2 && t[0] == 's') { size_t i = 1; long v = 0; while (i < t.size() && t[i] >= '0' && t[i] <= '9') v = v * 10 + (t[i++] - '0'); if (i > 1 && i < t.size() && t[i] == ':' && v < (long)W->st.size()) id = (int)v; }
    if (id < 0) { if (W->alloc && (t.size() < 8)) { W->unknown++; return; } sim::fail("foreign-text", "the message '%s' begins with no statement's first part", printable(t).c_str()); }
    Stmt& s = W->st[id]; s.got++;
    CHECK(s.got == 1, "duplicate-message", "statement %d produces %d messages", id, s.got);
    bool cut = false; if (s.abandoned) for (auto& c : s.cuts) cut |= c == t;
    if (W->alloc) { cut |= s.text.compare(0, t.size(), t) == 0; for (auto& c : s.cuts) cut |= c.compare(0, t.size(), t) == 0; }
    CHECK(t == s.text || cut, "foreign-text", "the message of statement %d (%s) reads '%s', its parts make '%s'", id, s.abandoned ? "abandoned" : "complete", printable(t).c_str(), printable(s.text).c_str());
    CHECK(m.m_file == s.file && m.m_line == s.line, "foreign-origin", "the message of statement %d shows %s:%d, it was composed at %s:%d", id, m.m_file.c_str(), m.m_line, s.file, s.line);
    CHECK((int)m.m_level == s.level, "foreign-level", "the message of statement %d shows level %d, not %d", id, (int)m.m_level, s.level);
    CHECK(m.m_category == cats[s.cat] || (W->alloc && s.threw), "foreign-category", "the message of statement %d shows the category '%s', not '%s'", id, m.m_category.c_str(), cats[s.cat]);
  }
};
std::shared_ptr<Rec> rec;

// One statement.  seed: its parts; abandon: how it ends early (blocks)
enum { AB_NONE, AB_BREAK, AB_CONTINUE, AB_RETURN, AB_THROW };
int begin_stmt(int style, int level, int tcat, uint64_t seed, int nparts, bool nest, bool thr) {       // quiet
  int id = (int)W->st.size(); W->st.emplace_back(); Stmt& s = W->st.back(); s.id = id; s.tid = sim::tid(); s.level = level; s.style = style; s.file = __FILE__;
  s.cat = (style == AUTO_CAT || style == BLOCK_CAT) && cats[tcat][0] ? tcat : W->cat[sim::tid()];
  Rng r(seed); for (int i = 0; i < nparts; i++) { Part p; p.kind = nest && r.chance(25) ? (r.chance(50) ? P_NEST : P_MID) : thr && r.chance(30) ? P_THROW : (int)r.below(P_NPLAIN); p.v = p.kind == P_TEXT && r.chance(2) ? 26 * huge_knob(r) + (int64_t)r.below(26) : (int64_t)r.below(1000); p.stmt = id; s.parts.push_back(p); }
  std::ostringstream o; o << 's' << id << ':'; s.cuts.push_back(o.str()); for (auto& p : s.parts) { model(o, p); s.cuts.push_back(o.str()); } s.text = o.str();
  s.call = sim::stamp(); return id;
}
void end_stmt(int id, bool threw) { sim::Quiet q; Stmt& s = W->st[id]; s.ret = sim::stamp(); s.threw = threw; if (threw) s.abandoned = true; }
struct Tag { int id; };
std::ostream& operator<<(std::ostream& o, const Tag& t) { stringified(t.id); char b[16]; snprintf(b, sizeof b, "s%d:", t.id); return o << b; }
const std::string* cat_str[NCAT];

void do_auto(Stmt& s, int tcat) {
  const Part* p = s.parts.data(); Tag t{s.id}; size_t n = s.parts.size();
  if (s.style == AUTO_CAT) {
    switch (n) {
      case 0: s.line = __LINE__; LOG((LEVEL)s.level) << LOG_CAT(*cat_str[tcat]) << t; break;
      case 1: s.line = __LINE__; LOG((LEVEL)s.level) << LOG_CAT(*cat_str[tcat]) << t << p[0]; break;
      case 2: s.line = __LINE__; LOG((LEVEL)s.level) << LOG_CAT(*cat_str[tcat]) << t << p[0] << p[1]; break;
      case 3: s.line = __LINE__; LOG((LEVEL)s.level) << LOG_CAT(*cat_str[tcat]) << t << p[0] << p[1] << p[2]; break;
      default: s.line = __LINE__; LOG((LEVEL)s.level) << LOG_CAT(*cat_str[tcat]) << t << p[0] << p[1] << p[2] << p[3]; break;
    }
  } else {
    switch (n) {
      case 0: s.line = __LINE__; LOG((LEVEL)s.level) << t; break;
      case 1: s.line = __LINE__; LOG((LEVEL)s.level) << t << p[0]; break;
      case 2: s.line = __LINE__; LOG((LEVEL)s.level) << t << p[0] << p[1]; break;
      case 3: s.line = __LINE__; LOG((LEVEL)s.level) << t << p[0] << p[1] << p[2]; break;
      default: s.line = __LINE__; LOG((LEVEL)s.level) << t << p[0] << p[1] << p[2] << p[3]; break;
    }
  }
}
#line 100001 "blocks.h"
bool do_block(Stmt& s, int tcat, int ab) {          // true: left early; the blocks are in a file of their own
  Tag t{s.id}; size_t n = s.parts.size(); bool left = false; s.file = __FILE__;
  s.line = __LINE__ + 1;
  LOG_BLOCK((LEVEL)s.level) {
    if (s.style == BLOCK_CAT) LOGGER.setTempCategory(*cat_str[tcat]);
    LOGGER << t;
    for (size_t i = 0; i < n; i++) {
      if (i == n / 2 && ab != AB_NONE && ab != AB_CONTINUE) { left = true; sim::Quiet q; s.abandoned = true; break; }
      LOGGER << s.parts[i];
    }
    if (left) { if (ab == AB_BREAK) break; if (ab == AB_RETURN) return true; throw Abandon(); }
    if (ab == AB_CONTINUE) continue;
  }
  return left;
}
#line 144 "logger.cpp"
void run_stmt(int style, int level, int tcat, uint64_t seed, int nparts, bool nest, bool thr, int ab) {
  Stmt* s; { sim::Quiet q; s = &W->st[begin_stmt(style, level, tcat, seed, nparts, nest, thr)]; W->depth[sim::tid()]++; }
  bool threw = false;
  try {
    if (style <= AUTO_CAT) do_auto(*s, tcat);
    else if (style <= BLOCK_CAT) do_block(*s, tcat, ab);
    else {
      { sim::Quiet q; s->line = 77; s->file = s->id % 2 ? "x.c" : "a/path/as/long/as/a/directly/composed/one.cpp"; }
      std::optional<std::string> f; { sim::NoFaults nf; f.emplace(s->file); }
      LOGGER.setFile(*f); LOGGER.setLine(77); LOGGER.setLevel((LEVEL)level); LOGGER << Tag{s->id}; for (auto& p : s->parts) LOGGER << p; LOGGER.commit();
    }
  } catch (Abandon&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
  { sim::Quiet q; W->depth[sim::tid()]--; }
  end_stmt(s->id, threw);
}
void nested(int64_t v) {
  { sim::Quiet q; if (W->depth[sim::tid()] >= 3) return; }
  run_stmt(v % 3 == 0 ? BLOCK : v % 3 == 1 ? AUTO : AUTO_CAT, (int)(v % 6), (int)(v % NCAT), (uint64_t)v * 977, (int)(v % 3), v % 5 == 0, false, v % 7 == 0 ? AB_BREAK : AB_NONE);
}
enum { STMT, CATEGORY, SETLEVEL, NESTARG, PAUSE, NOPS };
const char* const op_names[] = {"statement", "category", "level", "statement with a logging operand", "pause"};
int loud(int level) { nested(level); return 5; }
void g01_op(const Op& o) {
  { sim::Quiet q; sim::probe(o.code); }
  switch (o.code) {
    case STMT: run_stmt((int)(o.a & 15) % 5, (int)(o.a >> 4 & 7) % 6, (int)(o.a >> 7 & 7) % NCAT, (uint64_t)o.b, (int)(o.c & 7) % 5, o.c >> 3 & 1, o.c >> 4 & 1, (int)(o.c >> 5 & 7) % 5); break;
    case CATEGORY: { int k = (int)(o.a % NCAT); bool ok = true; try { LOG_CATEGORY(*cat_str[k]); } catch (std::bad_alloc&) { ok = false; } if (ok) { sim::Quiet q; W->cat[sim::tid()] = k; } else { sim::Quiet q; CHECK(LOGGER.getCategory() == cats[W->cat[sim::tid()]], "foreign-category", "the thread's category is neither the old nor the new one"); } break; }
    case SETLEVEL: { Change c{sim::stamp(), ~0ull, (int)(o.a % 6)}; size_t i; { sim::Quiet q; i = W->level.size(); W->level.push_back(c); } LOGGER.level((LEVEL)c.v); { sim::Quiet q; W->level[i].ret = sim::stamp(); } break; }
    case NESTARG: {
      Stmt* s; { sim::Quiet q; int id = begin_stmt(AUTO, (int)(o.a % 6), 0, 1, 0, false, false); s = &W->st[id]; s->file = __FILE__; s->text += "5"; s->cuts.push_back(s->text); W->depth[sim::tid()]++; }
      Tag t{s->id}; bool threw = false;
      try { s->line = __LINE__; LOG((LEVEL)s->level) << t << loud((int)(o.b % 1000)); } catch (std::bad_alloc&) { threw = true; }
      { sim::Quiet q; W->depth[sim::tid()]--; } end_stmt(s->id, threw); break; }
    case PAUSE: pause_op(o.a); break;
  }
}
const char* const probes_[] = {"statements", "category_changes", "level_changes", "statements_with_logging_operand", "pauses", "messages", "abandoned", "suppressed", "filter_set", "filter_replaced", "filter_cleared", "invalid_filter", "filter_set_failed", "judged_messages", "levels_changed", "judged_during_a_change", nullptr};
enum { PR_MSG = 5, PR_ABANDON, PR_SUPP, PR_FSET, PR_FREPL, PR_FCLEAR, PR_FBAD, PR_FFAIL, PR_JUDGED, PR_LEVELS, PR_BETWEEN };
void g01_run(const Program& p) {
  { sim::Quiet q; W = new World; W->alloc = p.p[2]; W->level.push_back({0, 0, (int)LEVEL::TRACE}); punct = new std::locale(std::locale::classic(), new Punct); for (int i = 0; i < NCAT; i++) cat_str[i] = new std::string(cats[i]); }
  { sim::NoFaults nf; rec = std::make_shared<Rec>(); LOGGER.addListener(rec); }
  sim::faults_global(1u << sim::F_SPURIOUS | 1u << sim::F_INSERT_THROW | (p.p[2] ? 1u << sim::F_ALLOC : 0));
  run_threads(p, (int)p.p[0], g01_op);
  sim::faults_global(0);
  settle([] { return false; });
  { sim::Quiet q; for (auto& s : W->st) {
      bool can = false, cannot = false; possible(W->level, s.call, s.ret, [&](int v) { if (s.level <= v) can = true; else cannot = true; });
      CHECK(!s.got || can, "suppressed-message", "statement %d of level %d produces a message although the level in force is below it", s.id, s.level);
      if (s.style == AUTO || s.style == BLOCK || s.style == AUTO_CAT || s.style == BLOCK_CAT) CHECK(!s.evaluated || can, "suppressed-text", "the parts of statement %d, which is below the level in force, are turned into text", s.id);
      bool must = !cannot && !s.abandoned && !s.threw && !W->alloc;
      CHECK(!must || s.got == 1, "lost-message", "statement %d produces no message although its level is in force", s.id);
      if (s.abandoned) sim::probe(PR_ABANDON); if (s.got) sim::probe(PR_MSG); else if (!can) sim::probe(PR_SUPP); sim::obligation(); } 
    W->alloc = false; W->level.clear(); }
  LOGGER.level(LEVEL::TRACE); { sim::Quiet q; W->level.push_back({0, 0, (int)LEVEL::TRACE}); }
  size_t from; { sim::Quiet q; from = W->st.size(); }
  { sim::NoFaults nf; for (int i = 0; i < 3; i++) { run_stmt(i == 0 ? AUTO : i == 1 ? BLOCK : DIRECT, 2, 0, i + 5, 3, false, false, AB_NONE); settle([] { return false; }); } }
  { sim::Quiet q; for (size_t i = from; i < W->st.size(); i++) CHECK(W->st[i].got == 1, "recovery", "statement %d, after all faults, produces no message", W->st[i].id); }
  LOGGER.stop();
}
void g01_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); if (p.tick > 20000) p.tick = 20000; p.mask = 1u << sim::F_SPURIOUS; p.p[0] = r.range(1, 3); p.p[2] = r.chance(25); if (p.p[2]) p.mask |= 1u << sim::F_ALLOC; if (r.chance(40)) p.mask |= 1u << sim::F_INSERT_THROW;
  int total = (int)r.range(1, tier ? 30 : 14);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, p.p[0]); int k = (int)r.below(100);
    if (k < 62) { o.code = STMT; int st = (int)r.below(5); o.a = st | (int64_t)r.below(6) << 4 | (int64_t)r.below(NCAT) << 7; o.b = (int64_t)r.below(1000000); int ab = r.chance(75) ? 0 : (int)r.below(5); o.c = r.below(5) | (r.chance(25) ? 8 : 0) | (r.chance(20) ? 16 : 0) | ab << 5; if (st == DIRECT) o.c &= 7; }
    else if (k < 72) { o.code = CATEGORY; o.a = r.below(NCAT); }
    else if (k < 82) { o.code = SETLEVEL; o.a = r.chance(50) ? 5 : r.below(6); }
    else if (k < 92) { o.code = NESTARG; o.a = r.below(6); o.b = r.below(1000); }
    else { o.code = PAUSE; o.a = pause_knob(r); }
    p.ops.push_back(o); }
}
std::string g01_opname(const Program&, const Op& o) {
  std::string s = "T" + std::to_string(o.thr) + " " + op_names[o.code % NOPS]; static const char* const sn[] = {"LOG", "LOG with LOG_CAT", "LOG_BLOCK", "LOG_BLOCK with temporary category", "composed by hand"}; static const char* const an[] = {"", " left by break", " left by continue", " left by return", " left by an exception"};
  if (o.code == STMT) s += std::string(" ") + sn[(o.a & 15) % 5] + " level " + std::to_string((o.a >> 4 & 7) % 6) + " parts " + std::to_string((o.c & 7) % 5) + an[(o.c >> 5 & 7) % 5]; else s += " " + std::to_string(o.a); return s;
}
RegisterProp R01({"G01", g01_gen, g01_run, 3000000, g01_opname, probes_});

// ------------------------------------------------------------------------------ G02
bool has_suffix(const std::string& s, const char* p) { size_t n = strlen(p); return s.size() >= n && s.compare(s.size() - n, n, p) == 0; }
struct Pattern { const char* re; bool (*match)(const std::string&); };
const Pattern patterns[] = {
  {"net", [](const std::string& s) { return s == "net"; }},
  {".*::INTERNAL", [](const std::string& s) { return has_suffix(s, "::INTERNAL"); }},
  {"net|x", [](const std::string& s) { return s == "net" || s == "x"; }},
  {"", [](const std::string&) { return true; }},
  {"zzz", [](const std::string& s) { return s == "zzz"; }},
};
const char* const bad[] = {"(", "[z-a]", "*", "a{2,1}"};
struct M2 { int id, level, cat; uint64_t call = 0, ret = 0, begin = 0; int lines = 0; };
struct FOp { uint64_t call, ret; int pat, level; bool set; int base = 0, dbase = 0; bool unknown = false, levels = false; };         // in force after ret
struct W2 { std::deque<M2> ms; std::vector<FOp> ops; std::vector<int> order; std::vector<uint64_t> quiet; std::string line; int base, dbase, lev0; int pat = -1, flevel = 0; bool unknown = false; void add(FOp f) { if (pat < 0) unknown = false; f.base = base; f.dbase = dbase; f.unknown = unknown; ops.push_back(f); } };
W2* V;
struct Buf : std::streambuf {
  std::streamsize xsputn(const char* s, std::streamsize n) override { sim::Quiet q; for (std::streamsize i = 0; i < n; i++) eat(s[i]); return n; }
  int overflow(int c) override { sim::Quiet q; if (c != EOF) eat((char)c); return c == EOF ? 0 : c; }
  int sync() override { return 0; }
  void eat(char c) {
    if (c != '\n') { V->line.push_back(c); return; }
    size_t k = V->line.rfind(" m"); int id = k == std::string::npos ? -1 : atoi(V->line.c_str() + k + 2); CHECK(id >= 0 && id < (int)V->ms.size(), "foreign-text", "an unexpected line: '%s'", printable(V->line).c_str()); V->ms[id].lines++; V->line.clear();
  }
};
struct Wit : LogSystem::Listener { void onMessage(const LogSystem::Message& m) override { sim::Quiet q; int id = atoi(m.m_message.c_str() + 1); if (id < (int)V->ms.size()) { V->ms[id].begin = sim::stamp(); V->order.push_back(id); } } };
enum { LOGM, FSET, FBAD, FCLEAR, WAIT, PAUSE2, LEVELS, NOPS2 };
const char* const op2_names[] = {"log", "set filter", "set invalid filter", "clear filter", "wait until all is written", "pause", "set the levels"};
void levels_are(const char* when) {
  int g = LOGGER.level(), d = LOGGER.defaultListener()->level(); sim::Quiet q; sim::obligation();
  if (V->pat < 0) CHECK(g == V->base && d == V->dbase, "levels", "%s the levels are %d and %d (default listener); before the first filter they were %d and %d", when, g, d, V->base, V->dbase);
}
void same(int g0, int d0, const char* what) { int g = LOGGER.level(), d = LOGGER.defaultListener()->level(); CHECK(g == g0 && d == d0, "levels", "%s changes the levels from %d and %d to %d and %d", what, g0, d0, g, d); }
void g02_op(const Op& o) {
  switch (o.code) {
    case LOGM: { M2* m; { sim::Quiet q; V->ms.emplace_back(); m = &V->ms.back(); m->id = (int)V->ms.size() - 1; m->level = (int)(o.a % 6); m->cat = (int)(o.b % NCAT); m->call = sim::stamp(); }
      char b[20]; snprintf(b, sizeof b, "m%d", m->id); 
      if (o.c & 1) { LOG_CATEGORY(*cat_str[m->cat]); LOG((LEVEL)m->level) << b; } else LOGGER.log("f.cpp", m->id, (LEVEL)m->level, *cat_str[m->cat], b);
      { sim::Quiet q; m->ret = sim::stamp(); } break; }
    case FSET: { int g0 = LOGGER.level(), d0 = LOGGER.defaultListener()->level(); int k = (int)(o.a % 5), l = (int)(o.b % 6); FOp f{sim::stamp(), 0, k, l, true}; std::optional<std::string> s; s.emplace(patterns[k].re); bool ok = true;
      { sim::FaultWindow w(o.c & 1 ? 1u << sim::F_ALLOC : 0); try { LOGGER.categoryFilter(*s, (LEVEL)l); } catch (std::bad_alloc&) { ok = false; } catch (LogSystem::InvalidCategory&) { ok = false; CHECK(o.c & 1, "rejected-filter", "the filter '%s' is rejected", patterns[k].re); } }
      { sim::Quiet q; f.ret = sim::stamp(); sim::probe(!ok ? PR_FFAIL : V->pat >= 0 ? PR_FREPL : PR_FSET); if (!ok) { f.pat = V->pat; f.level = V->flevel; } else { V->pat = k; V->flevel = l; } V->add(f); if (!ok) same(g0, d0, "setting a filter that fails"); }
      levels_are("after setting a filter has failed"); break; }
    case FBAD: { int g0 = LOGGER.level(), d0 = LOGGER.defaultListener()->level(); FOp f{sim::stamp(), 0, V->pat, V->flevel, true}; bool rej = false; try { LOGGER.categoryFilter(bad[o.a % 4], (LEVEL)(o.b % 6)); } catch (LogSystem::InvalidCategory&) { rej = true; }
      CHECK(rej, "invalid-filter", "the filter '%s' is accepted", bad[o.a % 4]); { sim::Quiet q; f.ret = sim::stamp(); sim::probe(PR_FBAD); V->add(f); same(g0, d0, "an invalid filter"); } levels_are("after an invalid filter"); break; }
    case FCLEAR: { FOp f{sim::stamp(), 0, -1, 0, false}; LOGGER.clearFilter(); { sim::Quiet q; f.ret = sim::stamp(); V->pat = -1; V->add(f); sim::probe(PR_FCLEAR); } levels_are("after clearing the filter"); break; }
    case WAIT: settle([] { return false; }); { sim::Quiet q; V->quiet.push_back(sim::stamp()); } break;
    case LEVELS: { FOp f{sim::stamp(), 0, V->pat, V->flevel, true}; f.levels = true; if (o.c & 1) LOGGER.level((LEVEL)(o.a % 6)); if (o.c & 2) LOGGER.defaultListener()->level((LEVEL)(o.b % 6));
      { sim::Quiet q; f.ret = sim::stamp(); if (V->pat < 0) { if (o.c & 1) V->base = (int)(o.a % 6); if (o.c & 2) V->dbase = (int)(o.b % 6); } else V->unknown = true; V->add(f); sim::probe(PR_LEVELS); } levels_are("after setting them"); break; }
    case PAUSE2: pause_op(o.a); break;
  }
}
void g02_run(const Program& p) {
  Buf* buf; std::ostream* os; { sim::Quiet q; V = new W2; for (int i = 0; i < NCAT; i++) cat_str[i] = new std::string(cats[i]); V->base = (int)p.p[1]; V->dbase = (int)p.p[2]; }
  buf = new Buf; os = new std::ostream(buf); std::shared_ptr<Wit> w = std::make_shared<Wit>();
  LOGGER.defaultListener()->writeOn(os); LOGGER.addListener(w); LOGGER.level((LEVEL)p.p[1]); LOGGER.defaultListener()->level((LEVEL)p.p[2]);
  sim::faults_global(1u << sim::F_SPURIOUS);
  run_threads(p, (int)p.p[0], g02_op);
  settle([] { return false; }); { sim::Quiet q; V->quiet.push_back(sim::stamp()); }
  { sim::Quiet q;
    std::vector<uint64_t> jb(V->ms.size(), V->quiet.back()); for (size_t i = 0; i < V->order.size(); i++) { uint64_t e = i + 1 < V->order.size() ? V->ms[V->order[i + 1]].begin : ~0ull; for (uint64_t t : V->quiet) if (t > V->ms[V->order[i]].ret && t > V->ms[V->order[i]].begin && t < e) e = t; jb[V->order[i]] = e; }
    for (auto& m : V->ms) if (!m.begin) for (uint64_t t : V->quiet) if (t > m.ret) { jb[m.id] = t; break; }
    for (auto& m : V->ms) {
      CHECK(m.lines <= 3, "duplicate-line", "message %d is written %d times", m.id, m.lines);
      bool overlap = false; int pat = -1, fl = 0, gb = (int)p.p[1], db = (int)p.p[2]; uint64_t at = 0;
      bool unk = false, other = false; for (auto& f : V->ops) { if (f.call < jb[m.id] && f.ret > m.call) { overlap = true; other |= !f.set || f.levels || f.unknown; } if (f.ret < m.call && f.ret > at) { at = f.ret; pat = f.pat; fl = f.level; gb = f.base; db = f.dbase; unk = f.unknown; } }
      int base = gb < db ? gb : db; if (unk) continue;
      if (overlap && other) continue; sim::probe(PR_JUDGED); sim::obligation();
      if (overlap) { // filters are set or replaced meanwhile: what neither the old nor a new setting admits stays out
        bool any = m.level <= base; auto adm = [&](int k, int l) { if (k >= 0 && m.level <= l && (m.cat == 0 || patterns[k].match(cats[m.cat]))) any = true; }; adm(pat, fl);
        for (auto& f : V->ops) if (f.call < jb[m.id] && f.ret > m.call) adm(f.pat, f.level);
        if (!any) sim::probe(PR_BETWEEN); CHECK(any || !m.lines, "filter", "message %d (level %d, category '%s') is written while a filter is being set although neither the setting before nor the one after admits it; the level before was %d", m.id, m.level, cats[m.cat], base); continue; }
      bool match = pat >= 0 && (m.cat == 0 || patterns[pat].match(cats[m.cat]));
      bool want = m.level <= base || (match && m.level <= fl);
      if (pat < 0) CHECK(m.lines == (want ? 1 : 0), "filter", "message %d (level %d, category '%s') is written %d times with no filter set and levels %d and %d in force", m.id, m.level, cats[m.cat], m.lines, gb, db);
      else CHECK(want ? m.lines >= 1 && m.lines <= 2 : m.lines == 0, "filter", "message %d (level %d, category '%s') is written %d times with the filter '%s' at level %d set; the level before was %d", m.id, m.level, cats[m.cat], m.lines, patterns[pat].re, fl, base);
    } }
  LOGGER.stop();
}
void g02_gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); if (p.tick > 20000) p.tick = 20000; p.mask = 1u << sim::F_SPURIOUS; if (r.chance(30)) p.mask |= 1u << sim::F_ALLOC;
  p.p[0] = r.range(1, 3); p.p[1] = r.chance(30) ? 5 : r.below(6); p.p[2] = r.chance(60) ? 5 : r.below(6);
  int total = (int)r.range(2, tier ? 36 : 18); bool alone = p.p[0] == 1;
  if (r.chance(30)) { // what gets through while the filter is being set
    p.hold = r.chance(60);
    p.p[0] = r.range(2, 3); p.p[1] = r.below(5); p.p[2] = r.range(3, 5); if (r.chance(30)) p.p[2] = r.below(6); int cat = (int)r.below(NCAT);
    for (int i = (int)r.range(1, 2); i > 0; i--) { Op o; o.thr = 1; o.code = FSET; o.a = r.below(5); o.b = r.range(p.p[1] + 1, 5); if (r.chance(25)) o.b = r.below(6); p.ops.push_back(o); }
    for (int i = (int)r.range(1, 4); i > 0; i--) { Op o; o.thr = (int)r.range(2, p.p[0]); o.code = LOGM; o.a = r.chance(80) ? r.range(p.p[1] + 1, 5) : r.below(6); o.b = r.chance(60) ? cat : (int64_t)r.below(NCAT); o.c = 0; if (r.chance(15)) { o.code = PAUSE2; o.a = pause_knob(r); } p.ops.push_back(o); }
    return; }
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, p.p[0]); int k = (int)r.below(100);
    if (k < 45) { o.code = LOGM; o.a = r.below(6); o.b = r.below(NCAT); o.c = r.below(2); if (!alone && o.thr == 1 && r.chance(50)) o.thr = 2; }
    else { o.thr = 1; if (k < 58) { o.code = FSET; o.a = r.below(5); o.b = r.below(6); o.c = p.mask >> sim::F_ALLOC & 1; } else if (k < 63) { o.code = FBAD; o.a = r.below(4); o.b = r.below(6); } else if (k < 72) o.code = FCLEAR; else if (k < 79) { o.code = LEVELS; o.a = r.below(6); o.b = r.below(6); o.c = r.range(1, 3); } else if (k < 94) o.code = WAIT; else { o.code = PAUSE2; o.a = pause_knob(r); } }
    p.ops.push_back(o);
    if (o.code == LOGM && r.chance(30)) { Op w; w.thr = o.thr; w.code = WAIT; if (alone || o.thr == 1) p.ops.push_back(w); } }
}
std::string g02_opname(const Program&, const Op& o) {
  std::string s = "T" + std::to_string(o.thr) + " " + op2_names[o.code % NOPS2];
  if (o.code == LOGM) s += " level " + std::to_string(o.a % 6) + " category '" + cats[o.b % NCAT] + "'"; else if (o.code == FSET) s += std::string(" '") + patterns[o.a % 5].re + "' level " + std::to_string(o.b % 6); return s;
}
RegisterProp R02({"G02", g02_gen, g02_run, 3000000, g02_opname, probes_});
}
