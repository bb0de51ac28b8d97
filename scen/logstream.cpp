// S01-S03: log listeners that write on streams.
#include "common.h"
#include <falcon/logsystem.h>
#include <falcon/logstream.h>
#include <falcon/logproxy.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <iomanip>
#include <locale>
#include <optional>
#include <ostream>
#include <stdexcept>
using falcon::LogSystem;
using falcon::LogStreamListener;
using falcon::LogProxyListener;
using LEVEL = LogSystem::LEVEL;

namespace {
enum { MAXL = 4, MAXS = 24, MAXSVC = 2, MAXT = 64 };
const char* const tzs[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-1130>11:30", "NPT-5:45"};
enum { NTZ = sizeof tzs / sizeof *tzs };
const char* const cats[] = {"", "net", "a category with blanks", "x::INTERNAL", "(paren)", "%s%n%d", "N", "7", "a-category-name-that-needs-its-own-block-of-memory"};
enum { NCAT = sizeof cats / sizeof *cats };

struct Msg { int id, level, cat, line; std::string* file; std::string* text; uint64_t call = 0, ret = 0; };
struct Part { int sink; std::string bytes; bool flushed; };
struct Hand { int l, msg, tid; uint64_t b, e = 0; int64_t rb, re = 0; size_t jump0; std::vector<Part> parts; bool threw = false, failed = false; bool open = true; };
struct Change { uint64_t call, ret; int sink; };
struct Jump { uint64_t at; int64_t before, after; };
struct SinkInfo { int kind = 0; bool made = false, destroyed = false, failing = false; int user = -1; bool busy = false; int holder = -1; std::string all; };
struct World {
  std::deque<Msg> msgs; std::unordered_map<int, int> by_line; std::vector<Hand> hands; std::vector<Change> ch[MAXL]; std::vector<Jump> jumps; SinkInfo sinks[MAXS]; int nsinks = 0;
  int cur[MAXT]; World() { for (int& c : cur) c = -1; }
};
World* W;
LogSystem* S[MAXSVC];
bool w_faulty, w_line, w_fmt, w_whole;
enum { OWN, SHARE, PLAIN };

// may stream s be in use by listener l at some moment of [a,b]?
bool maybe_current(int l, int s, uint64_t a, uint64_t b) {
  auto& h = W->ch[l];
  for (size_t i = 0; i < h.size(); i++) {
    if (h[i].sink != s || h[i].call > b) continue;
    bool super = false; for (size_t j = 0; j < h.size(); j++) if (j != i && h[j].ret < a && h[j].call > h[i].ret) super = true;
    if (!super) return true;
  }
  return false;
}
struct Stream;
struct Buf : std::streambuf {
  int idx; uint64_t magic = 0x57EA577EA57EA57Eull; bool writing = false;
  explicit Buf(int i) : idx(i) {}
  ~Buf() override { CHECK(magic == 0x57EA577EA57EA57Eull, "stream-lifetime", "stream %d is destroyed twice", idx); magic = 0; sim::Quiet q; SinkInfo& s = W->sinks[idx]; CHECK(!s.busy, "stream-lifetime", "stream %d is destroyed while it is being written", idx); CHECK(!s.destroyed, "stream-lifetime", "stream %d is destroyed twice", idx); s.destroyed = true; }
  void enter(const char* what) {
    CHECK(magic == 0x57EA577EA57EA57Eull, "stream-lifetime", "stream %d is used after its destruction", idx);
    { sim::Quiet q; SinkInfo& s = W->sinks[idx]; sim::obligation(); CHECK(!s.busy, "stream-shared", "two threads use stream %d at once", idx); s.busy = true; int h = W->cur[sim::tid()];
      CHECK(h >= 0, "stream-touched", "stream %d is used (%s) although no message is being handed over on this thread", idx, what);
      uint64_t t = sim::stamp(); CHECK(maybe_current(W->hands[h].l, idx, t, t), "stream-touched", "listener %d uses stream %d (%s) after the call that replaced it has returned, or before it was given", W->hands[h].l, idx, what);
      CHECK(s.holder < 0 || s.holder == h, "interleaved", "the line of message %d is interrupted by message %d on stream %d", W->hands[s.holder].msg, W->hands[h].msg, idx); }
    writing = true; sim::point(); 
  }
  void leave() { writing = false; sim::Quiet q; W->sinks[idx].busy = false; }
  void put(const char* p, size_t n) { sim::Quiet q; SinkInfo& s = W->sinks[idx]; if (!n) return; Hand& h = W->hands[W->cur[sim::tid()]]; s.holder = W->cur[sim::tid()]; if (h.parts.empty() || h.parts.back().sink != idx) h.parts.push_back({idx, "", false}); h.parts.back().bytes.append(p, n); h.parts.back().flushed = false; s.all.append(p, n); if (p[n - 1] == '\n') s.holder = -1; }
  bool failing(size_t n, size_t* k) {
    if (!w_faulty || !W->sinks[idx].failing) return false;
    uint32_t v = 0;
    if (sim::fault(sim::F_STREAM_ERR, 8, &v)) { *k = n * v / 8; return true; }
    if (sim::fault(sim::F_STREAM_THROW, 8, &v)) { *k = n * v / 8 | (size_t)1 << 40; return true; }
    return false;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    enter("write"); size_t k = 0;
    if (failing((size_t)n, &k)) { bool thr = k >> 40; k &= ((size_t)1 << 40) - 1; put(p, k); failed(); leave(); if (thr) throw std::runtime_error("stream"); return (std::streamsize)k; }
    size_t half = n > 3 ? (size_t)n / 2 : (size_t)n; put(p, half); if (half < (size_t)n) { sim::point(); put(p + half, (size_t)n - half); }
    leave(); return n;
  }
  int overflow(int c) override {
    enter("write"); size_t k = 0;
    if (failing(1, &k)) { bool thr = k >> 40; failed(); leave(); if (thr) throw std::runtime_error("stream"); return EOF; }
    char ch = (char)c; if (c != EOF) put(&ch, 1); leave(); return c == EOF ? 0 : c;
  }
  int sync() override {
    enter("flush"); size_t k = 0;
    if (failing(1, &k)) { bool thr = k >> 40; failed(); leave(); if (thr) throw std::runtime_error("stream"); return -1; }
    { sim::Quiet q; Hand& h = W->hands[W->cur[sim::tid()]]; if (!h.parts.empty() && h.parts.back().sink == idx) h.parts.back().flushed = true; }
    leave(); return 0;
  }
  void failed() { sim::Quiet q; W->hands[W->cur[sim::tid()]].failed = true; W->sinks[idx].user = 1; W->sinks[idx].holder = -1; }
};
struct Punct : std::numpunct<char> { std::string do_grouping() const override { return "\1"; } char do_thousands_sep() const override { return '\''; } };
std::locale* punct;
struct Fmt { std::ios_base::fmtflags fl; char fill; std::streamsize width, prec; bool odd; };
Fmt fmt_of(uint64_t seed) {
  Rng r(seed); Fmt f; f.fl = std::ios_base::fmtflags(std::ios_base::skipws | std::ios_base::dec); f.fill = ' '; f.width = 0; f.prec = 6; f.odd = false;
  if (!seed) return f;
  static const std::ios_base::fmtflags base[] = {std::ios_base::hex, std::ios_base::oct, std::ios_base::dec}; static const std::ios_base::fmtflags adj[] = {std::ios_base::left, std::ios_base::right, std::ios_base::internal};
  f.fl = base[r.below(3)] | adj[r.below(3)] | std::ios_base::skipws; if (r.chance(40)) f.fl |= std::ios_base::showpos; if (r.chance(40)) f.fl |= std::ios_base::showbase; if (r.chance(30)) f.fl |= std::ios_base::uppercase; if (r.chance(30)) f.fl |= std::ios_base::boolalpha;
  f.fill = r.pick({' ', '*', '0', '_'}); f.width = r.chance(50) ? r.below(20) : 0; f.prec = r.below(9); f.odd = r.chance(40); return f;
}
struct Stream : std::ostream {
  Buf buf; Fmt fmt;
  Stream(int i, uint64_t fs, bool throws) : std::ostream(nullptr), buf(i), fmt(fmt_of(fs)) {
    init(&buf); if (throws) exceptions(std::ios_base::badbit | std::ios_base::failbit);
    flags(fmt.fl); fill(fmt.fill); width(fmt.width); precision(fmt.prec); if (fmt.odd) imbue(*punct);
  }
  void fmt_intact(int i) { CHECK(flags() == fmt.fl && fill() == fmt.fill && precision() == fmt.prec, "format-state", "stream %d comes back with other formatting settings (flags %x, were %x; fill %d, was %d; precision %ld, was %ld)", i, (unsigned)flags(), (unsigned)fmt.fl, fill(), fmt.fill, (long)precision(), (long)fmt.prec); }
};

// ------------------------------------------------------------------------------ expected lines
const char* level_name(int l) { switch (l) { case LEVEL::CRITICAL: return "CRIT"; case LEVEL::ERROR: return "ERR "; case LEVEL::WARN: return "WARN"; case LEVEL::INFO: return "INFO"; case LEVEL::DEBUG: return "DBG "; case LEVEL::TRACE: return "TRC "; } return "????"; }
std::string tail_of(const Msg& m) {
  std::string f = *m.file; auto s = f.rfind('/'); if (s != std::string::npos) f = f.substr(s + 1);
  std::string o = std::string("[") + level_name(m.level) + "] "; if (m.cat) o += std::string("(") + cats[m.cat] + ") ";
  return o + f + ":" + std::to_string(m.line) + " " + *m.text + "\n";
}
std::string time_text(int64_t sec) { time_t t = sec; struct tm x; localtime_r(&t, &x); char b[60]; snprintf(b, sizeof b, "%d-%02d-%02d %02d:%02d:%02d ", x.tm_year + 1900, x.tm_mon + 1, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec); return b; }
// civil times a clock reading during the hand-over can give
std::vector<std::pair<int64_t, int64_t>> windows(const Hand& h) {
  std::vector<std::pair<int64_t, int64_t>> w; int64_t from = h.rb;
  for (size_t i = h.jump0; i < W->jumps.size() && W->jumps[i].at < h.e; i++) { w.push_back({from, W->jumps[i].before}); from = W->jumps[i].after; }
  w.push_back({from, h.re}); return w;
}
bool line_true(const Hand& h, const std::string& line, std::string* why) {
  std::string tail = tail_of(W->msgs[h.msg]);
  if (line.size() < tail.size() || line.compare(line.size() - tail.size(), tail.size(), tail)) { *why = "does not show the message"; return false; }
  std::string head = line.substr(0, line.size() - tail.size());
  for (auto& w : windows(h)) for (int64_t s = w.first / 1000000000; s <= w.second / 1000000000; s++) if (head == time_text(s)) return true;
  *why = "shows a time that was not"; return false;
}
std::string printable(const std::string& s) { std::string o; for (unsigned char c : s.substr(0, 160)) if (c < 32 || c > 126) { char b[6]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; return o; }

// ------------------------------------------------------------------------------ listeners
struct Lst : LogStreamListener {
  int idx; explicit Lst(int i) : idx(i) {}
  void onMessage(const LogSystem::Message& m) override {
    int h = -1;
    { sim::Quiet q; auto it = W->by_line.find(m.m_line); CHECK(it != W->by_line.end(), "altered-message", "listener %d is handed a message nobody logged", idx);
      h = (int)W->hands.size(); W->hands.push_back({}); Hand& x = W->hands.back(); x.l = idx; x.msg = it->second; x.tid = sim::tid(); x.b = sim::stamp(); x.rb = sim::real_ns(); x.jump0 = W->jumps.size(); W->cur[sim::tid()] = h; }
    try { LogStreamListener::onMessage(m); } catch (...) { done(h, true); throw; }
    done(h, false);
  }
  void done(int hi, bool threw) {
    sim::Quiet q; Hand& h = W->hands[hi]; h.e = sim::stamp(); h.re = sim::real_ns(); h.open = false; h.threw = threw; W->cur[sim::tid()] = -1; sim::obligation();
    for (auto& p : h.parts) W->sinks[p.sink].holder = -1;
    if (w_faulty) {          // parts of the line, whole if nothing failed
      std::string all; for (auto& p : h.parts) all += p.bytes; bool dead = false; for (int s = 0; s < W->nsinks; s++) if (W->sinks[s].user == 1 && maybe_current(idx, s, h.b, h.e)) dead = true;
      if (!h.failed && !dead) whole(h);
      else { bool ok = all.empty(); std::string tail = tail_of(W->msgs[h.msg]); for (auto& w : windows(h)) for (int64_t s = w.first / 1000000000; s <= w.second / 1000000000 && !ok; s++) ok = (time_text(s) + tail).find(all) != std::string::npos;
        CHECK(ok, "foreign-bytes", "a failing stream gets '%s', which is no part of the line of message %d", printable(all).c_str(), h.msg); CHECK(h.parts.size() <= 1, "split-line", "the line of message %d is split over two streams", h.msg); }
      CHECK(!threw || h.failed || dead, "exception", "handing over message %d throws although its stream works", h.msg);
    } else { CHECK(!threw, "exception", "handing over message %d throws", h.msg); whole(h); }
  }
  void whole(const Hand& h) {
    CHECK(!h.parts.empty(), "lost-line", "message %d is handed to listener %d but no line is written", h.msg, idx);
    CHECK(h.parts.size() == 1, "split-line", "the line of message %d is split over streams %d and %d", h.msg, h.parts[0].sink, h.parts[1].sink);
    auto& p = h.parts[0]; const std::string& t = *W->msgs[h.msg].text;
    if (w_whole) { auto nl = p.bytes.find('\n'); CHECK(nl == p.bytes.size() - 1, "split-line", "message %d is not written as one complete line: '%s'", h.msg, printable(p.bytes).c_str()); }
    CHECK(p.bytes.size() > t.size() && p.bytes.compare(p.bytes.size() - 1 - t.size(), t.size(), t) == 0, "altered-message", "the line of message %d does not end with its text: '%s'", h.msg, printable(p.bytes).c_str());
    CHECK(p.flushed, "unflushed", "the line of message %d is not flushed", h.msg);
    CHECK(maybe_current(idx, p.sink, h.b, h.e), "wrong-stream", "message %d is written on stream %d, which is not installed during its hand-over", h.msg, p.sink);
    if (w_line) { std::string why; CHECK(line_true(h, p.bytes, &why), "wrong-line", "the line of message %d %s: '%s'; expected a time like '%s' and '%s'", h.msg, why.c_str(), printable(p.bytes).c_str(), time_text(h.re / 1000000000).c_str(), printable(tail_of(W->msgs[h.msg])).c_str()); }
  }
};
struct Rec : LogSystem::Listener { std::vector<int>* got; void onMessage(const LogSystem::Message& m) override { sim::Quiet q; auto it = W->by_line.find(m.m_line); if (it != W->by_line.end()) got->push_back(it->second); } };

std::shared_ptr<Lst> L[MAXL]; std::shared_ptr<Rec> R[MAXSVC]; std::shared_ptr<LogSystem::Listener> X[MAXL * MAXSVC];
std::shared_ptr<std::ostream>* kept[MAXS]; Stream* plain[MAXS]; Stream* ptr_of[MAXS];
int last_plain[MAXL]; std::atomic<int> ready[MAXS];     // the program may give the stream again

enum { LOGOP, DIRECT, CHANGE, JUMP, PAUSE, AGAIN, NOPS };
const char* const op_names[] = {"log", "hand over directly", "change stream", "clock jump", "pause", "give an earlier stream again"};
// p0 threads, p1 listeners, p2 services, p3 direct attachments (bit svc*MAXL+l), p4 proxies (same), p5 delete replaced streams, p6 tz, p7 format seed, p8 failing sinks?, p9 throw mask, p10 text style
struct Setup {
  const Program& p; uint64_t mark;
  explicit Setup(const Program& pp) : p(pp) {
    w_faulty = w_line = w_fmt = false; w_whole = true;
    { sim::Quiet q; setenv("TZ", tzs[p.p[6] % NTZ], 1); tzset(); punct = new std::locale(std::locale::classic(), new Punct); }
    mark = sim::alloc_seq();
    { sim::Quiet q; W = new World; W->msgs.clear(); W->hands.reserve(4000); for (auto& k : kept) k = nullptr; for (auto& k : plain) k = nullptr; for (auto& k : last_plain) k = -1; for (auto& r : ready) r = 0; }
  }
  int paths(int svc, int l) { return (int)(p.p[3] >> (svc * MAXL + l) & 1) + (int)(p.p[4] >> (svc * MAXL + l) & 1); }
  Stream* make_stream(int kind, bool failing, int* idx) {
    int i; { sim::Quiet q; i = W->nsinks; if (i >= MAXS) { *idx = -1; return nullptr; } W->nsinks++; SinkInfo& s = W->sinks[i]; s.made = true; s.kind = kind; s.failing = failing; }
    *idx = i; Stream* s = new Stream(i, p.p[7] ? (uint64_t)p.p[7] + i : 0, failing && (p.p[9] >> (i % 8) & 1)); ptr_of[i] = s; return s;
  }
  void change(int l, int kind, bool failing, bool keep) {
    sim::NoFaults nf; int i; Stream* s = make_stream(kind, failing, &i); if (!s) return; size_t c;
    { sim::Quiet q; c = W->ch[l].size(); W->ch[l].push_back({0, ~0ull, i}); }
    std::unique_ptr<std::ostream> u; std::shared_ptr<std::ostream> sh; if (kind == OWN) u.reset(s); else if (kind == SHARE) { sh.reset(s); } else plain[i] = s;
    if (kind == SHARE && keep) { auto* k = new std::shared_ptr<std::ostream>(sh); kept[i] = k; }
    { sim::Quiet q; W->ch[l][c].call = sim::stamp(); }
    switch (kind) { case OWN: L[l]->own(u); break; case SHARE: L[l]->share(sh); break; case PLAIN: L[l]->writeOn(s); break; }
    sh.reset();
    { sim::Quiet q; W->ch[l][c].ret = sim::stamp(); if (kind == OWN) CHECK(!u, "ownership", "the caller still owns a stream it gave away"); }
    if (!p.p[5] && (kind == PLAIN || (kind == SHARE && keep))) ready[i].store(1, std::memory_order_release);
    if (p.p[5]) { int o = last_plain[l]; last_plain[l] = kind == PLAIN || (kind == SHARE && keep) ? i : -1; if (o >= 0) drop(o); }
  }
  // gives the listener a stream it had before, which the program has kept (only when replaced streams are not deleted)
  void again(int l, int pick) {
    sim::NoFaults nf; if (p.p[5]) return; int i = -1; size_t c;
    { sim::Quiet q; int n = 0; for (auto& x : W->ch[l]) if (ready[x.sink]) n++; if (!n) return; int k = pick % n; for (auto& x : W->ch[l]) if (ready[x.sink] && k-- == 0) { i = x.sink; break; }
      sim::probe(9); c = W->ch[l].size(); W->ch[l].push_back({0, ~0ull, i}); }
    (void)ready[i].load(std::memory_order_acquire); { sim::Quiet q; W->ch[l][c].call = sim::stamp(); }
    if (plain[i]) L[l]->writeOn(plain[i]); else { std::shared_ptr<std::ostream> sh(*kept[i]); L[l]->share(sh); }
    { sim::Quiet q; W->ch[l][c].ret = sim::stamp(); }
  }
  void drop(int o) { if (w_fmt && ptr_of[o]) ptr_of[o]->fmt_intact(o); if (plain[o]) { delete plain[o]; plain[o] = nullptr; } if (kept[o]) { delete kept[o]; kept[o] = nullptr; } }
  void make() {
    sim::NoFaults nf;
    for (int i = 0; i < p.p[2]; i++) { S[i] = new LogSystem; R[i] = std::make_shared<Rec>(); { sim::Quiet q; R[i]->got = new std::vector<int>; } S[i]->addListener(R[i]); }
    for (int l = 0; l < p.p[1]; l++) { L[l] = std::make_shared<Lst>(l); change(l, (int)(p.p[8] >> (2 * l) & 3) % 3, p.p[11] >> l & 1, false); }
    for (int i = 0; i < p.p[2]; i++) for (int l = 0; l < p.p[1]; l++) {
      if (p.p[3] >> (i * MAXL + l) & 1) S[i]->addListener(L[l]);
      if (p.p[4] >> (i * MAXL + l) & 1) { X[i * MAXL + l] = std::make_shared<LogProxyListener>(L[l]); S[i]->addListener(X[i * MAXL + l]); }
    }
  }
  int new_msg(int lev, int cat, int64_t fsz, int64_t tsz) {       // quiet
    int id = (int)W->msgs.size(); W->msgs.emplace_back(); Msg& m = W->msgs.back(); m.id = id; m.level = lev; m.cat = cat; m.line = (int)((uint32_t)(id + 1) * 2654435761u);
    Rng r(id * 31 + 7); m.file = new std::string; m.text = new std::string("m" + std::to_string(id) + "."); 
    int seps = r.chance(60) ? 12 : (int)r.below(2); for (int64_t i = 0; i < fsz; i++) m.file->push_back(r.chance(seps) ? '/' : r.chance(4) ? '\\' : r.chance(4) ? '.' : (char)('a' + r.below(26)));
    bool any = p.p[10] != 0; for (int64_t i = 0; i < tsz; i++) { char c = (char)(!any ? 32 + r.below(95) : r.below(256)); m.text->push_back(c); }
    W->by_line[m.line] = id; return id;
  }
  void op(const Op& o) {
    { sim::Quiet q; if (o.code <= PAUSE) sim::probe(o.code); }
    switch (o.code) {
      case AGAIN: again((int)(o.a % p.p[1]), (int)o.b); break;
      case LOGOP: case DIRECT: {
        Msg* m; { sim::Quiet q; m = &W->msgs[new_msg((int)(o.a & 7) % 7, (int)(o.b % NCAT), o.c, o.d)]; m->call = sim::stamp(); }
        std::optional<LogSystem::Message> x; { sim::NoFaults nf; x.emplace(*m->file, m->line, (LEVEL)m->level, cats[m->cat], *m->text); }
        if (o.code == DIRECT) { int l = (int)((o.a >> 4) % p.p[1]); try { L[l]->onMessage(*x); } catch (std::exception&) {} }
        else { LogSystem::Message* y; { sim::NoFaults nf; y = new LogSystem::Message(*x); } S[(o.a >> 4) % p.p[2]]->log(y); }
        { sim::Quiet q; m->ret = sim::stamp(); } break; }
      case CHANGE: change((int)(o.a % p.p[1]), (int)(o.b % 3), o.c & 1, o.d & 1); break;
      case JUMP: { sim::Quiet q; Jump j; j.at = sim::stamp(); j.before = sim::real_ns(); int64_t d = o.a; if (j.before + d < 86400ll * 1000000000 || j.before + d > 4000000000ll * 1000000000) break; sim::clock_jump(d); j.after = sim::real_ns(); W->jumps.push_back(j); break; }
      case PAUSE: pause_op(o.a, 21); break;
    }
  }
  void run() { run_threads(p, (int)p.p[0], [this](const Op& o) { op(o); }); }
  void settle_all() { settle([] { return false; }); }
  void finish() {
    { sim::NoFaults nf; for (int i = 0; i < p.p[2]; i++) { delete S[i]; S[i] = nullptr; R[i].reset(); } for (auto& x : X) x.reset();
      for (int i = 0; i < W->nsinks; i++) if (kept[i] || plain[i]) if (w_fmt) ptr_of[i]->fmt_intact(i);
      for (int l = 0; l < p.p[1]; l++) L[l].reset();
      for (int i = 0; i < W->nsinks; i++) drop_quiet(i); }
    { sim::Quiet q; for (int i = 0; i < W->nsinks; i++) CHECK(W->sinks[i].destroyed, "stream-lifetime", "stream %d is never destroyed", i); }
    sim::check_leaks(mark, "after the listeners are destroyed");
  }
  void drop_quiet(int i) { if (plain[i]) { delete plain[i]; plain[i] = nullptr; } if (kept[i]) { delete kept[i]; kept[i] = nullptr; } }
};
std::string opname(const Program& p, const Op& o) {
  std::string s = "T" + std::to_string(o.thr) + " " + op_names[o.code % NOPS];
  switch (o.code) { case LOGOP: s += " to service " + std::to_string((o.a >> 4) % p.p[2]) + " level " + std::to_string((o.a & 7) % 7) + " category '" + cats[o.b % NCAT] + "' text " + std::to_string(o.d) + " bytes"; break;
    case DIRECT: s += " to listener " + std::to_string((o.a >> 4) % p.p[1]); break;
    case CHANGE: s += " of listener " + std::to_string(o.a % p.p[1]) + (o.b % 3 == OWN ? " own" : o.b % 3 == SHARE ? " share" : " writeOn"); break; case JUMP: s += " by " + std::to_string(o.a / 1000000000) + " s"; break; default: s += " " + std::to_string(o.a); }
  return s;
}
const char* const probes_[] = {"log", "hand_over_directly", "change_stream", "clock_jump", "pause", "messages", "hand_overs", "hand_overs_with_failing_stream", "streams", "streams_given_again", "failed_streams_cleared", nullptr};
enum { PR_MSG = 5, PR_HAND, PR_FAIL, PR_STREAM };
void stats() { sim::probe(PR_MSG, W->msgs.size()); sim::probe(PR_HAND, W->hands.size()); sim::probe(PR_STREAM, W->nsinks); for (auto& h : W->hands) if (h.failed) sim::probe(PR_FAIL); sim::obligation(W->hands.size()); }
// hand-overs that must have happened, by the recorders attached to every service (those get every message: L01)
void check_counts(Setup& s) {
  std::vector<std::vector<int>> c(MAXL, std::vector<int>(W->msgs.size(), 0)); for (auto& h : W->hands) { c[h.l][h.msg]++; CHECK(!h.open, "stuck", "the hand-over of message %d never ends", h.msg); }
  for (int i = 0; i < s.p.p[2]; i++) for (int m : *R[i]->got) for (int l = 0; l < s.p.p[1]; l++) CHECK(c[l][m] == s.paths(i, l), "lost-message", "message %d is handed to listener %d %d times, not %d", m, l, c[l][m], s.paths(i, l));
}

void base_gen(Rng& r, Program& p) {
  common_knobs(r, p); if (p.tick > 20000) p.tick = r.chance(20) ? 1000000 : 20000;
  p.mask = 1u << sim::F_SPURIOUS; p.p[0] = r.range(1, 3); p.p[1] = r.range(1, 2); p.p[2] = r.chance(60) ? 1 : 2; p.p[5] = r.below(2); p.p[8] = r.next() & 255;
  for (int i = 0; i < p.p[2]; i++) for (int l = 0; l < p.p[1]; l++) { int k = (int)r.below(10); if (k < 8) p.p[3] |= 1ll << (i * MAXL + l); if (k > 6) p.p[4] |= 1ll << (i * MAXL + l); }
}
void log_op(Rng& r, Program& p, Op& o, int direct) { o.code = r.chance(direct) ? DIRECT : LOGOP; o.a = r.below(6) | (int64_t)r.below(16) << 4; o.b = r.below(NCAT); o.c = r.chance(80) ? r.below(30) : r.chance(96) ? size_knob(r, 1100) : huge_knob(r); o.d = r.chance(80) ? r.below(40) : r.chance(97) ? size_knob(r, 600) : huge_knob(r); }

// ------------------------------------------------------------------------------ S01
void s01_run(const Program& p) {
  Setup s(p); sim::faults_global(1u << sim::F_SPURIOUS); s.make(); s.run(); s.settle_all();
  { sim::Quiet q; stats(); check_counts(s); }
  s.finish();
}
void s01_gen(Rng& r, Program& p, int tier) {
  base_gen(r, p); int total = (int)r.range(2, tier ? 36 : 20); int n = (int)p.p[0];
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n);
    if (r.chance(35)) { o.code = CHANGE; o.a = r.below(p.p[1]); o.b = r.below(3); o.c = 0; o.d = r.below(2); if (p.p[5]) o.thr = 1 + (int)(o.a % n); }
    else if (!p.p[5] && r.chance(12)) { o.code = AGAIN; o.a = r.below(p.p[1]); o.b = r.below(8); }
    else if (r.chance(8)) { o.code = PAUSE; o.a = pause_knob(r); }
    else log_op(r, p, o, 30);
    p.ops.push_back(o); }
}
RegisterProp R01({"S01", s01_gen, s01_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ S02
void s02_run(const Program& p) {
  Setup s(p); w_line = true; w_fmt = true; w_whole = false; sim::faults_global(1u << sim::F_SPURIOUS); s.make(); s.run(); s.settle_all();
  { sim::Quiet q; stats(); check_counts(s); }
  s.finish();
}
void s02_gen(Rng& r, Program& p, int tier) {
  base_gen(r, p); if (r.chance(60)) { p.p[2] = 2; p.p[1] = 2; p.p[3] = 1 | 2ll << MAXL; p.p[4] = 0; }
  p.p[6] = r.below(NTZ); p.p[7] = r.chance(50) ? (int64_t)r.below(1000000) + 1 : 0; p.p[10] = r.chance(30);
  // moments of interest, in UTC seconds: year end, leap day, DST changes, century, 32-bit limits
  static const int64_t moments[] = {946684799, 951782399, 951868799, 978307199, 1711846799, 1711846800, 1729990799, 1729994400, 1710053999, 1710054000, 1730613599, 1711807199, 1727531999, 1735689599, 2147483646, 4102444799ll - 200000000, 86400 * 3, 1700000000, 1709164799, 1709251199, 1672531199};
  int64_t m = r.pick(moments) * 1000000000ll; if (r.chance(50)) m += r.range(-14, 14) * 3600000000000ll; if (r.chance(80)) m -= r.below(3000000000ull); if (r.chance(15)) m = (int64_t)(86400 + r.below(3900000000ull)) * 1000000000ll + r.below(1000000000);
  p.real0 = m < 86400ll * 1000000000 ? 86400ll * 1000000000 : m;
  int total = (int)r.range(2, tier ? 30 : 16); int n = (int)p.p[0];
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n);
    if (r.chance(20)) { o.code = JUMP; static const int64_t js[] = {1000000000, -1000000000, 3600000000000, -3600000000000, 86400000000000, -86400000000000, 500000000, -500000000, 31536000000000000, -31536000000000000, 999999999, 60000000000}; o.a = r.pick(js); if (r.chance(30)) o.a = r.range(-100000000, 100000000) * 1000000000ll; }
    else if (r.chance(10)) { o.code = PAUSE; o.a = pause_knob(r, 60); }
    else if (r.chance(8)) { o.code = CHANGE; o.a = r.below(p.p[1]); o.b = r.below(3); o.c = 0; o.d = r.below(2); if (p.p[5]) o.thr = 1 + (int)(o.a % n); }
    else { log_op(r, p, o, 20); if (r.chance(20)) o.a = (o.a & ~7ll) | r.below(7); }
    p.ops.push_back(o); }
}
RegisterProp R02({"S02", s02_gen, s02_run, 3000000, opname, probes_});

// ------------------------------------------------------------------------------ S03
void s03_run(const Program& p) {
  Setup s(p); w_line = true; w_faulty = true; sim::faults_global(1u << sim::F_SPURIOUS | 1u << sim::F_STREAM_ERR | 1u << sim::F_STREAM_THROW); s.make(); s.run(); s.settle_all();
  sim::faults_global(0);
  // half the runs: the streams work again, and first the program only clears their error states
  size_t before; { sim::Quiet q; before = W->hands.size(); }
  if (p.p[12]) {
    { sim::Quiet q; for (int i = 0; i < W->nsinks; i++) if (!W->sinks[i].destroyed) { if (W->sinks[i].user == 1) sim::probe(10); ptr_of[i]->clear(); W->sinks[i].user = 0; } }
    for (int i = 0; i < p.p[2]; i++) { Op o; o.code = LOGOP; o.a = 2 | i << 4; o.b = 2; o.c = 6; o.d = 12; s.op(o); s.settle_all(); }
  }
  for (int l = 0; l < p.p[1]; l++) s.change(l, l % 3, false, false);
  for (int k = 0; k < 2; k++) for (int i = 0; i < p.p[2]; i++) { Op o; o.code = LOGOP; o.a = k | i << 4; o.b = 1; o.c = 5; o.d = 10; s.op(o); s.settle_all(); }
  { sim::Quiet q; stats(); check_counts(s);
    for (size_t i = before; i < W->hands.size(); i++) { Hand& h = W->hands[i]; CHECK(!h.threw && h.parts.size() == 1, "recovery", "message %d is not written completely although the failed stream has been cleared or replaced", h.msg); }
    for (int i = 0; i < p.p[2]; i++) { auto& g = *R[i]->got; for (size_t a = 0; a < g.size(); a++) for (size_t b = a + 1; b < g.size(); b++) { CHECK(g[a] != g[b], "duplicate-message", "message %d reaches a healthy listener twice", g[a]); const Msg &x = W->msgs[g[a]], &y = W->msgs[g[b]]; CHECK(!(y.ret && y.ret < x.call), "order", "a healthy listener gets message %d before %d", g[a], g[b]); } }
    size_t got = 0; for (int i = 0; i < p.p[2]; i++) got += R[i]->got->size(); size_t direct = 0; for (auto& o : p.ops) if (o.code == DIRECT) direct++;
    CHECK(got + direct == W->msgs.size(), "lost-message", "%zu messages were logged, %zu reach the healthy listeners", W->msgs.size() - direct, got); }
  s.finish();
}
void s03_gen(Rng& r, Program& p, int tier) {
  base_gen(r, p); p.mask |= 1u << sim::F_STREAM_ERR | 1u << sim::F_STREAM_THROW; p.p[9] = r.chance(40) ? 0 : r.next() & 255; p.p[11] = r.next() & 3; if (r.chance(50)) p.p[11] |= 1; p.p[12] = r.below(2);
  if (p.p[1] < 2 && r.chance(70)) { p.p[1] = 2; for (int i = 0; i < p.p[2]; i++) p.p[3] |= 3ll << (i * MAXL); }
  int total = (int)r.range(2, tier ? 36 : 18); int n = (int)p.p[0];
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, n);
    if (r.chance(15)) { o.code = CHANGE; o.a = r.below(p.p[1]); o.b = r.below(3); o.c = r.below(2); o.d = r.below(2); if (p.p[5]) o.thr = 1 + (int)(o.a % n); }
    else if (r.chance(6)) { o.code = PAUSE; o.a = pause_knob(r); }
    else log_op(r, p, o, 15);
    p.ops.push_back(o); }
}
RegisterProp R03({"S03", s03_gen, s03_run, 3000000, opname, probes_});
}
