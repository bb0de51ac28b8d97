// U01-U04: the unit test framework.
#include "common.h"
#include <falcon/fut/fut.h>
#include <falcon/fut/marktime.h>
#include <cmath>
#include <deque>
#include <iomanip>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#undef TEST
#undef TEST_F
#undef FAIL_
using falcon::testing::TestCase;
using falcon::testing::UnitTest;

namespace {
std::string printable(const std::string& s, size_t n = 200) { std::string o; for (unsigned char c : s.substr(0, n)) if (c < 32 || c > 126) { char b[6]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; return o; }
enum { U01 = 1, U02, U03, U04 };
int which;

enum Act { OUT, ERR, PASSING, FAILING, THROW, WAIT, JUMP, NOW, SWAPBUF, FORMAT, BADSTATE, BURN, NOMEM, NACT };
const char* const act_names[] = {"write on cout", "write on cerr", "checks that hold", "a check that fails", "throw", "timed wait", "clock jump", "look at the elapsed time", "redirect cout and forget it", "change cout's formatting", "set cout's error state", "pass time", "run out of memory"};
enum Phase { SETUP, BODY, TEARDOWN };
enum { RUN_MAIN, RUN_TWICE, RUN_SINGLY };
const char* const probes_[] = {"cout_writes", "cerr_writes", "passing_checks", "failing_checks", "throws", "timed_waits", "clock_jumps", "elapsed_reads", "redirections", "format_changes", "error_states", "burns", "out_of_memory", "tests_run", "tests_passed", "tests_failed", "fixtures_failed", "runs_by_main", "runs_twice", "runs_singly", "reports_written", "reports_failed", "selected_runs", "invalid_options", "shown_times", nullptr};
enum { PR_RUN = 13, PR_PASS, PR_FAIL, PR_FIX, PR_MAIN, PR_TWICE, PR_SINGLY, PR_XML, PR_XMLFAIL, PR_SEL, PR_INVALID, PR_TIMES };

struct T {
  int id; std::string comp, name; std::vector<const Op*> acts; bool selected = true;
  int runs = 0, setups = 0, bodies = 0, downs = 0;      // in the current run of the framework
  bool ended = false, failed = false, threw = false, throw_known = false, erred = false, late = false; bool thrown_before_body = false;
  int fail_line = 0, phase = -1; const char* fail_file = ""; std::string fail_part, fail_desc, throw_desc, old_out, out, err, raw_out, raw_err; int64_t t_begin = 0, t_body = 0, t_body_end = 0, t_end = 0; bool counted = false;
  std::string old_desc; int64_t elapsed = 0; int64_t last() const { return std::max(std::max(t_begin, t_body), std::max(t_body_end, t_end)); }
  bool passed() const { return ended && !failed && !threw && !erred; }
  void fresh() { if (!fail_desc.empty()) old_desc = fail_desc; ended = failed = threw = throw_known = erred = late = false; setups = bodies = downs = 0; fail_line = 0; fail_desc.clear(); fail_part.clear(); throw_desc.clear(); old_out += raw_out + raw_err; out.clear(); err.clear(); raw_out.clear(); raw_err.clear(); t_begin = t_body = t_body_end = t_end = 0; runs++; }
};
struct Rec : std::streambuf {
  std::string all;
  std::streamsize xsputn(const char* s, std::streamsize n) override { sim::Quiet q; all.append(s, (size_t)n); return n; }
  int overflow(int c) override { sim::Quiet q; if (c != EOF) all.push_back((char)c); return c == EOF ? 0 : c; }
  int sync() override { return 0; }
};
struct Fmt { std::ios_base::fmtflags fl; std::streamsize prec, width; char fill; std::ios_base::iostate ex; std::locale loc; std::ostream* tie;
  void of(std::ios& s) { fl = s.flags(); prec = s.precision(); width = s.width(); fill = s.fill(); ex = s.exceptions(); loc = s.getloc(); tie = s.tie(); }
  const char* diff(const Fmt& o, bool p = true) const { return fl != o.fl ? "format flags" : p && prec != o.prec ? "precision" : width != o.width ? "width" : fill != o.fill ? "fill character" : ex != o.ex ? "exception mask" : !(loc == o.loc) ? "locale" : tie != o.tie ? "tied stream" : nullptr; } };
struct Punct : std::numpunct<char> { std::string do_grouping() const override { return "\2"; } char do_thousands_sep() const override { return '\''; } };
std::locale* punct;
struct World {
  std::deque<T> t; Rec out, err; bool capture = true; int verbosity = 2; std::string xml, unit, id; int serial = 0; std::string want_thru_out, want_thru_err; Fmt fo, fe; int64_t t_run = 0, t_done = 0; Rec stray; int running = -1;
  std::string xmlname = "/sim/report.xml";
};
World* W;
struct NoStd { int x; };
struct Odd : std::exception { const char* what() const noexcept override { return "odd <&\"> error"; } };

std::string message(int64_t seed) {       // what a failing check or an exception says
  Rng r((uint64_t)seed + 77); std::string s; int n = (int)(r.chance(90) ? r.below(40) : r.chance(97) ? r.below(3000) : huge_knob(r));
  int style = (int)r.below(6);
  static const char* const bits[] = {"<", "&", "\"", ">", "'", "]]>", "<!--", "&amp;", "&#0;", "\n", "\t", "</failure>", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "%s%n", "\\", "\r"};
  static const char* const broken[] = {"\x01", "\x1f", "\x7f", "\x80", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xef\xbf\xbe", "\xef\xbf\xbf", "\x0b", "\xf0\x80\x80\xaf", "\xe0\x80\xaf"};
  for (int i = 0; i < n; i++) { int k = (int)r.below(100); if (style >= 2 && k < 20) s += bits[r.below(sizeof bits / sizeof *bits)]; else if (style >= 4 && k < 35) s += broken[r.below(sizeof broken / sizeof *broken)]; else s += (char)(32 + r.below(95)); }
  return s;
}
std::string token(T& t, char kind, int64_t seed) { Rng r((uint64_t)seed); char b[40]; snprintf(b, sizeof b, "<%c%d.%d:", kind, t.id, ++W->serial); std::string s = b; int n = (int)r.below(12); for (int i = 0; i < n; i++) s += r.chance(8) ? '\n' : (char)('a' + r.below(26)); if (r.chance(3)) s += std::string(r.chance(95) ? r.below(5000) : (size_t)huge_knob(r), 'z'); return s + ">"; }

std::string as_formatted(std::ostream& o, const std::string& s, bool chars) { std::ostringstream m; m.copyfmt(o); m.exceptions(std::ios_base::goodbit); m.tie(nullptr); if (chars) for (char c : s) m << c; else m << s; return m.str(); }
void format_now() { W->fo.of(std::cout); W->fe.of(std::cerr); }
void same_format(const char* when, bool prec) {
  Fmt o, e; o.of(std::cout); e.of(std::cerr); const char* d = W->fo.diff(o, prec); bool err = !d; if (!d) d = W->fe.diff(e);
  CHECK(!d, "not-restored", "%s the %s of %s is not what it was before the tests", when, d, err ? "std::cerr" : "std::cout");
}
struct Case : TestCase {
  T* t; explicit Case(T* x) : t(x) {}
  bool act(const Op& o, int ph) {              // false: the body returns
    if (o.c && (o.c & 1) != (t->runs & 1)) return true;
    { sim::Quiet q; sim::probe(o.code); }
    switch (o.code) {
      case OUT: { std::string s; { sim::Quiet q; s = token(*t, 'o', o.a); t->out += as_formatted(std::cout, s, o.b & 1); t->raw_out += s; if (!W->capture) W->want_thru_out += s; } if (o.b & 1) for (char c : s) std::cout << c; else std::cout << s; if (o.b & 2) std::cout.flush(); sim::Quiet q; s = std::string(); break; }
      case ERR: { std::string s; { sim::Quiet q; s = token(*t, 'e', o.a); t->err += as_formatted(std::cerr, s, false); t->raw_err += s; if (W->capture) t->erred = true; if (!W->capture) W->want_thru_err += s; } std::cerr << s; sim::Quiet q; s = std::string(); break; }
      case PASSING: {
        int v = (int)o.a;
        auto f = [this, v] { EXPECT_EQ(v, v); EXPECT_NE(v, v + 1); EXPECT_LT(v, v + 1); EXPECT_GE(v, v); EXPECT_TRUE(v == v); EXPECT_FALSE(v != v); EXPECT_STREQ("abc", std::string("abc")); EXPECT_STRNE("abc", "abd"); EXPECT_THROW(throw std::runtime_error("x"), std::runtime_error); EXPECT_ANY_THROW(throw 5); EXPECT_NO_THROW(v + 1); EXPECT_FLOAT_EQ(1.5, 1.5);
          EXPECT_LE(v, v); EXPECT_LE(v - 1, v); EXPECT_GT(v + 1, v); EXPECT_GE(v + 1, v); EXPECT_EQ(v & 1 ? "odd" : std::string("even"), v % 2 ? "odd" : "even"); EXPECT_STRNE("a", "A"); EXPECT_STRNE("a", "a "); EXPECT_STREQ("", "");
          EXPECT_FLOAT_EQ(v / 8.0 + 0.25, v * 0.125 + 0.25); EXPECT_FLOAT_EQ(2.0 - 0.5, 1.5); EXPECT_FLOAT_EQ(0.33333, 1.0 / 3); EXPECT_FLOAT_NE(v + 0.5, v + 0.502); EXPECT_FLOAT_NE(-0.001, 0.001); EXPECT_TRUE(v | 1); EXPECT_FALSE(v & 0); EXPECT_THROW(throw Odd(), std::exception); EXPECT_ANY_THROW(throw std::runtime_error("y")); };
        f(); break; }
      case FAILING: {
        std::string* m; { sim::Quiet q; m = new std::string(message(o.b)); }
        int before; std::string d; bool ret = true;
        auto set = [&](int l, const char* desc) { sim::Quiet q; t->failed = true; t->fail_line = l; t->fail_file = __FILE__; t->fail_part.clear(); t->fail_desc = desc ? desc : ""; };
        (void)before; (void)d;
        #define FAILS(CHECK_, ACTUAL_) { set(__LINE__, nullptr); { sim::Quiet q; t->fail_part = ACTUAL_; } [&] { CHECK_; }(); break; }
        int v = (int)(o.a / 26 % 20);
        switch (o.a % 26) {
          case 8: FAILS(EXPECT_NE(v, v), std::to_string(v))
          case 9: FAILS(EXPECT_GT(v, v), std::to_string(v))
          case 10: FAILS(EXPECT_GT(v - 1, v), std::to_string(v))
          case 11: FAILS(EXPECT_GE(v, v + 1), std::to_string(v + 1))
          case 12: FAILS(EXPECT_LT(v, v), std::to_string(v))
          case 13: FAILS(EXPECT_LT(v + 1, v), std::to_string(v))
          case 14: FAILS(EXPECT_LE(v + 1, v), std::to_string(v))
          case 15: FAILS(EXPECT_STREQ("abc", "abd"), "abd")
          case 16: FAILS(EXPECT_STRNE("abc", std::string("abc")), "abc")
          case 17: FAILS(EXPECT_FLOAT_EQ(v + 0.5, v + 0.502), "")
          case 18: FAILS(EXPECT_FLOAT_NE(1.0 + v, 3.0 + v - 2.0), "")
          case 19: FAILS(EXPECT_FALSE(v + 1), std::to_string(v + 1))
          case 20: FAILS(EXPECT_TRUE(v - v), "0")
          case 21: FAILS(EXPECT_NO_THROW(throw v), "")
          case 22: FAILS(EXPECT_THROW(v + 1, std::runtime_error), "")
          case 23: FAILS(EXPECT_EQ(v, v - 1); EXPECT_EQ(1, 2), std::to_string(v - 1))
          case 24: FAILS(EXPECT_FLOAT_EQ(-0.001, 0.001), "")
          case 25: FAILS(EXPECT_STREQ("abc ", "abc"), "abc")
          case 0: set(__LINE__, nullptr); [&] { EXPECT_EQ(1, 2); }(); break;
          case 1: set(__LINE__, nullptr); [&] { EXPECT_STREQ(std::string("no"), *m); }(); if (*m == "no") t->failed = false; break;
          case 2: set(__LINE__, m->c_str()); FAIL(m->c_str()); ret = o.b & 1; break;
          case 3: set(__LINE__, nullptr); [&] { EXPECT_TRUE(m->size() > 1000000000); }(); break;
          case 4: set(__LINE__, nullptr); [&] { EXPECT_THROW(m->size(), std::exception); }(); break;
          case 5: set(__LINE__, nullptr); [&] { EXPECT_NO_THROW(throw std::runtime_error(m->c_str())); }(); break;
          case 6: { static const char* const fn[] = {"f<i>l&e.cpp", "dir/of/some.cpp", "/abs/olute path/x.h", "no-extension"}; static const int ln[] = {4321, 4321, 1, 255, 256, 32768, 65535, 65536, 70001, 2147483647}; int at = ln[o.b / 8 % 10]; set(at, m->c_str()); t->fail_file = fn[o.b / 2 % 4]; fail(t->fail_file, at, m->c_str()); ret = true; break; }
          case 7: set(__LINE__, nullptr); [&] { EXPECT_ANY_THROW(m->size()); }(); ret = false; break;
        }
#undef FAILS
        { sim::Quiet q; delete m; }
        return !ret; }
      case THROW: {
        std::string* m; { sim::Quiet q; m = new std::string(message(o.b)); t->threw = true; t->throw_known = o.a % 6 < 2 || o.a % 6 == 5; t->throw_desc = o.a % 6 == 0 || o.a % 6 == 5 ? *m : o.a % 6 == 1 ? Odd().what() : ""; }
        struct Free { std::string* m; ~Free() { sim::Quiet q; delete m; } } fr{m};
        switch (o.a % 6) { case 0: throw std::runtime_error(m->c_str()); case 1: throw Odd(); case 2: throw 42; case 3: throw "text"; case 4: throw NoStd{3}; case 5: throw std::logic_error(m->c_str()); } break; }
      case WAIT: { int64_t a = sim::mono_ns(); falcon::testing::waitTime(o.a); int64_t b = sim::mono_ns(); sim::Quiet q; sim::obligation(); if (which == U02) CHECK(b - a >= o.a * 1000000, "short-wait", "a wait of %lld ms ends after %.3f ms", (long long)o.a, (double)(b - a) / 1e6); break; }
      case JUMP: sim::clock_jump(o.a * 1000000 + o.b); break;
      case NOW: if (ph == BODY) { int64_t a = sim::mono_ns(); int64_t e = elapsedTimeNow(); int64_t b = sim::mono_ns(); sim::Quiet q; sim::obligation();
        if (which == U02) CHECK(e >= 0 && e >= (a - t->t_body) / 1000000 - 1 && e <= (b - t->t_begin) / 1000000 + 3, "elapsed", "while running, test %d gives an elapsed time of %lld ms; %.3f ms have passed since its body began", t->id, (long long)e, (double)(b - t->t_body) / 1e6); } break;
      case SWAPBUF: if (W->capture) { std::cout.rdbuf(&W->stray); if (o.a & 1) std::cerr.rdbuf(&W->stray); { sim::Quiet q; t->late = true; } } break;
      case FORMAT: { switch (o.a % 10) { case 0: std::cout << std::hex; break; case 1: std::cout << std::setfill('*') << std::setw(9); break; case 2: std::cout << std::setprecision(1) << std::scientific; break; case 3: std::cout << std::showpos << std::left; break; case 4: std::cerr << std::hex << std::setfill('#'); break; case 5: std::cout << std::boolalpha << std::oct << std::showbase; break; case 6: std::cout.width(12); break;
        case 7: std::cout.imbue(*punct); std::cerr.imbue(*punct); break; case 8: if (std::cout.good()) std::cout.exceptions(std::ios_base::badbit | std::ios_base::failbit); break; case 9: std::cerr.tie(nullptr); std::cerr << std::nounitbuf << std::scientific; break; } break; }
      case BADSTATE: if (W->capture && !std::cout.exceptions()) std::cout.setstate(o.a & 1 ? std::ios_base::badbit : std::ios_base::failbit); { sim::Quiet q; t->late = true; } break;
      case BURN: sim::advance(o.a * 1000000 + o.b); break;
      case NOMEM: { bool nm = false; try { sim::FaultWindow w(1u << sim::F_ALLOC); int* p = new int(3); delete p; } catch (std::bad_alloc&) { nm = true; } if (nm) { { sim::Quiet q; t->threw = t->throw_known = true; t->throw_desc = std::bad_alloc().what(); } throw std::bad_alloc(); } break; }
    }
    return true;
  }
  void phase(int ph) { for (const Op** o = (const Op**)t->acts.data(), **e = o + t->acts.size(); o != e; ++o) if ((*o)->d == ph) { if (!act(**o, ph)) return; } }
  void SetUp() override { { sim::Quiet q; CHECK(which != U01 || (t->selected && t->setups == 0), "test-run", "test %d is set up %s", t->id, t->selected ? "twice" : "though it is not selected"); t->t_begin = sim::mono_ns(); t->setups++; W->running = t->id; if (which == U03 && W->capture) same_format("when a test begins", true); } phase(SETUP); }
  void test() override { { sim::Quiet q; CHECK(which != U01 || (t->setups == 1 && t->bodies == 0), "fixture", "the body of test %d runs %s", t->id, t->bodies ? "twice" : "without set-up"); t->bodies++; t->t_body = sim::mono_ns(); }
    struct End { T* t; ~End() { sim::Quiet q; t->t_body_end = sim::mono_ns(); } } e{t};
    phase(BODY); { sim::Quiet q; t->ended = true; } }
  void TearDown() override { { sim::Quiet q; CHECK(which != U01 || (t->ended && t->downs == 0), "fixture", "test %d is torn down %s", t->id, t->downs ? "twice" : "though its body has not run to its end"); t->downs++; } struct End { T* t; ~End() { sim::Quiet q; t->t_end = sim::mono_ns(); } } e{t}; phase(TEARDOWN); }
};

// ------------------------------------------------------------------------------ a strict reader of XML
struct Node { std::string name, text; std::vector<std::pair<std::string, std::string>> at; std::vector<Node> kids; const std::string* attr(const char* n) const { for (auto& a : at) if (a.first == n) return &a.second; return nullptr; } };
struct Xml {
  const std::string& s; size_t i = 0; std::string err; bool lax = false;
  explicit Xml(const std::string& x) : s(x) {}
  bool bad(const std::string& e) { if (err.empty()) err = e + " at byte " + std::to_string(i); return false; }
  static int utf8(const std::string& s, size_t i) {     // length of the valid character at i that XML allows, 0: none
    unsigned char c = s[i]; auto k = [&](size_t j) { return j < s.size() && ((unsigned char)s[j] & 0xC0) == 0x80; };
    if (c < 0x80) return c >= 32 || c == 9 || c == 10 || c == 13;
    uint32_t v; int n;
    if (c >= 0xC2 && c < 0xE0) { n = 2; v = c & 31; } else if (c >= 0xE0 && c < 0xF0) { n = 3; v = c & 15; } else if (c >= 0xF0 && c < 0xF5) { n = 4; v = c & 7; } else return 0;
    for (int j = 1; j < n; j++) { if (!k(i + j)) return 0; v = v << 6 | ((unsigned char)s[i + j] & 63); }
    if ((n == 3 && v < 0x800) || (n == 4 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v < 0xE000) || v == 0xFFFE || v == 0xFFFF) return 0;
    return n;
  }
  void ws() { while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) i++; }
  bool lit(const char* p) { size_t n = strlen(p); if (s.compare(i, n, p) == 0) { i += n; return true; } return false; }
  static bool ns(unsigned char c) { return isalpha(c) || c == '_' || c == ':' || c >= 0x80; }
  bool name(std::string& o) { o.clear(); if (i >= s.size() || !ns(s[i])) return bad("a name is expected"); while (i < s.size() && (ns(s[i]) || isdigit((unsigned char)s[i]) || s[i] == '-' || s[i] == '.')) o += s[i++]; return true; }
  bool ref(std::string& o) {
    if (lit("&amp;")) o += '&'; else if (lit("&lt;")) o += '<'; else if (lit("&gt;")) o += '>'; else if (lit("&quot;")) o += '"'; else if (lit("&apos;")) o += '\'';
    else if (lit("&#")) { bool hex = lit("x"); long v = 0; int n = 0; while (i < s.size() && (hex ? isxdigit((unsigned char)s[i]) : isdigit((unsigned char)s[i]))) { char c = s[i++]; v = v * (hex ? 16 : 10) + (isdigit((unsigned char)c) ? c - '0' : (c | 32) - 'a' + 10); if (v > 0x10FFFF) return bad("a character reference is out of range"); n++; } if (!n || !lit(";")) return bad("a character reference is malformed");
      if (!(v == 9 || v == 10 || v == 13 || (v >= 32 && v < 0xD800) || (v >= 0xE000 && v < 0xFFFE) || v >= 0x10000)) return bad("a character reference denotes no character"); if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xF0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } }
    else return bad("a bare '&' or unknown entity");
    return true;
  }
  bool chr(std::string& o) { int n = utf8(s, i); if (!n) return bad("a byte that is no XML character"); o.append(s, i, n); i += n; return true; }
  bool misc() { for (;;) { ws(); if (lit("<!--")) { std::string o; while (!lit("-->")) { if (i >= s.size()) return bad("an unfinished comment"); if (s.compare(i, 2, "--") == 0) return bad("'--' in a comment"); if (!chr(o)) return false; } } else return true; } }
  bool element(Node& n, int depth) {
    if (depth > 20) return bad("too deep"); if (!lit("<") || !name(n.name)) return bad("an element is expected");
    for (;;) {
      size_t b = i; ws(); if (lit("/>")) return true; if (lit(">")) break; if (b == i) return bad("a blank is missing in a tag");
      std::string a, v; if (!name(a)) return false; ws(); if (!lit("=")) return bad("'=' is missing"); ws(); if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) return bad("an attribute value is not quoted");
      char q = s[i++]; while (i < s.size() && s[i] != q) { if (s[i] == '<') return bad("'<' in an attribute"); if (s[i] == '&') { if (!ref(v)) return false; } else if (!chr(v)) return false; }
      if (i++ >= s.size()) return bad("an attribute value does not end"); if (n.attr(a.c_str())) return bad("an attribute is given twice"); n.at.emplace_back(a, v);
    }
    for (;;) {
      if (i >= s.size()) return bad("the element '" + n.name + "' does not end");
      if (s.compare(i, 2, "</") == 0) { i += 2; std::string e; if (!name(e)) return false; if (e != n.name) return bad("'</" + e + ">' ends the element '" + n.name + "'"); ws(); return lit(">") || bad("'>' is missing"); }
      if (s.compare(i, 4, "<!--") == 0) { if (!misc()) return false; continue; }
      if (lit("<![CDATA[")) { while (!lit("]]>")) { if (i >= s.size()) return bad("unfinished CDATA"); if (!chr(n.text)) return false; } continue; }
      if (s[i] == '<') { n.kids.emplace_back(); if (!element(n.kids.back(), depth + 1)) return false; continue; }
      if (s[i] == '&') { if (!ref(n.text)) return false; continue; }
      if (s.compare(i, 3, "]]>") == 0) return bad("']]>' in text"); if (!chr(n.text)) return false;
    }
  }
  bool document(Node& n) {
    if (lit("<?xml")) { size_t e = s.find("?>", i); if (e == std::string::npos) return bad("the declaration does not end"); i = e + 2; }
    if (!misc() || !element(n, 0) || !misc()) return false; return i == s.size() || bad("text after the document");
  }
};
bool names_file(const std::string& shown, const char* file) { const char* b = strrchr(file, '/'); return shown == file || (b && shown == b + 1); }
bool writable(const std::string& s) { for (size_t i = 0; i < s.size();) { int n = Xml::utf8(s, i); if (!n || s[i] == '\r') return false; i += n; } return true; }    // as it is, in XML
bool plain(const std::string& s) { for (unsigned char c : s) if (c < 32 || c > 126) return false; return true; }

void check_report(std::vector<T*>& done, bool complain) {
  sim::DiskFile* f = sim::disk_find(W->xmlname.c_str()); std::string text; if (f) text.assign((const char*)f->data, f->len);
  bool fault = f && (f->open_failed || f->write_failed || f->close_failed || sim::disk_lost(W->xmlname.c_str())); sim::obligation();
  if (fault) { sim::probe(PR_XMLFAIL); CHECK(complain, "silent-loss", "the report could not be %s, and the error stream says nothing", f->open_failed ? "opened" : f->close_failed ? "closed" : "written completely"); return; }
  sim::probe(PR_XML);
  CHECK(f && f->opens, "no-report", "no report is written, and no error has happened");
  CHECK(!complain, "false-alarm", "the report is written without an error, and the error stream says '%s'", printable(W->err.all).c_str());
  Node root; Xml x(text); CHECK(x.document(root), "malformed", "the report is no well-formed XML: %s, near '%s'", x.err.c_str(), printable(text.substr(x.i > 30 ? x.i - 30 : 0, 80)).c_str());
  auto num = [](const std::string* s) { return s && !s->empty() && s->find_first_not_of("0123456789") == std::string::npos ? atol(s->c_str()) : -1l; };
  long failed = 0; for (T* t : done) failed += !t->passed();
  CHECK(root.name == "testsuites" && num(root.attr("tests")) == (long)done.size() && num(root.attr("failures")) == failed, "totals", "the report's totals are %ld tests and %ld failures, in fact there were %zu and %ld", num(root.attr("tests")), num(root.attr("failures")), done.size(), failed);
  if (plain(W->unit)) CHECK(root.attr("name") && *root.attr("name") == W->unit, "names", "the report's name is '%s', not '%s'", root.attr("name") ? root.attr("name")->c_str() : "", W->unit.c_str());
  std::map<std::string, std::vector<T*>> comps; for (T* t : done) comps[t->comp].push_back(t);
  size_t suites = 0; std::set<const T*> seen;
  for (auto& k : root.kids) {
    CHECK(k.name == "testsuite", "structure", "a '%s' in the list of components", k.name.c_str()); suites++;
    auto* nm = k.attr("name"); auto it = nm ? comps.find(*nm) : comps.end(); CHECK(it != comps.end(), "names", "the report lists a component '%s' that has no performed test", nm ? printable(*nm).c_str() : "");
    long cf = 0; for (T* t : it->second) cf += !t->passed();
    CHECK(num(k.attr("tests")) == (long)it->second.size() && num(k.attr("failures")) == cf, "totals", "the totals of the component '%s' are %ld and %ld, in fact %zu and %ld", nm->c_str(), num(k.attr("tests")), num(k.attr("failures")), it->second.size(), cf);
    for (auto& c : k.kids) {
      CHECK(c.name == "testcase" && c.attr("name"), "structure", "a '%s' in the list of tests", c.name.c_str()); T* t = nullptr; for (T* u : it->second) if (u->name == *c.attr("name")) t = u;
      CHECK(t && seen.insert(t).second, "names", "the report lists a test '%s' %s", printable(*c.attr("name")).c_str(), t ? "twice" : "that was not performed");
      const Node* fl = nullptr; int nf = 0; for (auto& z : c.kids) if (z.name == "failure") { fl = &z; nf++; }
      CHECK(nf == (t->passed() ? 0 : 1), "verdict", "the report shows test %d as %s", t->id, nf ? "failed, it has passed" : "passed, it has failed");
      if (fl) { auto* m = fl->attr("message"); CHECK(m && fl->attr("type"), "structure", "a failure without message or type");
        CHECK(!t->threw || !m->empty() || t->throw_known, "message", "the report gives no reason for the failure of test %d by an exception", t->id);
        if (t->throw_known && writable(t->throw_desc)) CHECK(*m == t->throw_desc && fl->text.find(t->throw_desc) != std::string::npos, "message", "the report gives the reason '%s' for test %d, the exception said '%s'", printable(*m).c_str(), t->id, printable(t->throw_desc).c_str());
        if (!t->threw && t->failed && writable(t->fail_desc) && !t->fail_desc.empty()) CHECK(*m == t->fail_desc && fl->text.find(t->fail_desc) != std::string::npos, "message", "the report gives the reason '%s' for test %d, the check said '%s'", printable(*m).c_str(), t->id, printable(t->fail_desc).c_str());
        size_t l = fl->text.rfind("Line: "); if (l != std::string::npos) { long v = atol(fl->text.c_str() + l + 6); if (t->failed && !t->threw) CHECK(v == t->fail_line, "message", "the report shows line %ld for the check of test %d at line %d", v, t->id, t->fail_line); else if (!t->failed) CHECK(v == 0, "message", "the report shows line %ld for test %d, which no check has failed", v, t->id); }
        if (t->failed && !t->threw && !t->fail_part.empty()) CHECK(m->find('"' + t->fail_part + '"') != std::string::npos, "message", "the reason '%s' given for test %d does not show the value '%s' the check found", printable(*m).c_str(), t->id, t->fail_part.c_str());
        size_t fi = fl->text.rfind("File: "); if (t->failed && !t->threw && l != std::string::npos && fi != std::string::npos && fi < l) { std::string sh = fl->text.substr(fi + 6, l - fi - 7); CHECK(names_file(sh, t->fail_file), "message", "the report shows the file '%s' for the check of test %d, which is in '%s'", printable(sh).c_str(), t->id, t->fail_file); }
        if (t->erred && !t->failed && !t->threw) CHECK(t->old_desc.empty() || *m != t->old_desc, "message", "the report gives the reason '%s' for test %d, which is that of an earlier execution; in this one it wrote an error", printable(*m).c_str(), t->id); }
    }
  }
  CHECK(suites == comps.size() && seen.size() == done.size(), "structure", "the report lists %zu components and %zu tests, in fact %zu and %zu were performed", suites, seen.size(), comps.size(), done.size());
}
struct Span { int64_t lo = 0, hi = 0; };    // ms
std::map<std::string, Span> spans(std::vector<T*>& done, Span& all) {
  std::map<std::string, std::pair<int64_t, int64_t>> c; for (T* t : done) { auto it = c.emplace(t->comp, std::make_pair(t->t_begin, t->last())).first; it->second.first = std::min(it->second.first, t->t_begin); it->second.second = std::max(it->second.second, t->last()); }
  int64_t sum = 0, run = W->t_done - W->t_run; for (auto& k : c) sum += k.second.second - k.second.first;
  std::map<std::string, Span> r; for (auto& k : c) { int64_t d = k.second.second - k.second.first; r[k.first] = Span{d / 1000000 - 1, (run - (sum - d)) / 1000000 + 2}; }
  all = Span{sum / 1000000 - 1, run / 1000000 + 2}; return r;
}
void shown_time(const char* text, Span s, double rel, const char* what) {
  char* e; double v = strtod(text, &e); sim::obligation();
  CHECK(e != text && v * 1000 >= (double)s.lo - 0.51 - rel * (double)s.lo && v * 1000 <= (double)s.hi + 0.51 + rel * (double)s.hi, "shown-time", "the report gives %s as '%s' s; it is between %.3f and %.3f s", what, printable(text, 12).c_str(), (double)s.lo / 1e3, (double)s.hi / 1e3);
}
void check_times(std::vector<T*>& done, bool report, bool xml) {
  const std::string& s = W->out.all; Span all; std::map<std::string, Span> sp = spans(done, all);
  if (W->verbosity >= 2 && W->capture) for (T* t : done) { std::string n = t->comp + "::" + t->name, shown = n.substr(0, 50);
    for (size_t i = 0; i < s.size();) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string l = s.substr(i, e - i); i = e + 1;
      size_t k; if (l.size() > 8 && l[0] == '[' && (k = l.find(": " + shown + (n.size() < 50 ? " " : ""))) != std::string::npos && l.back() == ']' && l.substr(l.size() - 5) != "GO  ]") { size_t a = l.find_first_not_of(' ', k + 2 + shown.size()); shown_time(l.c_str() + (a == std::string::npos ? l.size() : a), Span{t->elapsed, t->elapsed}, 0.0005, "the time of a test"); sim::probe(PR_TIMES); } } }
  if (report && W->verbosity > 0) {
    size_t a = s.rfind("Unit Test " + W->unit + " (elapsed "); CHECK(a != std::string::npos, "shown-time", "the report does not show how long the tests took"); shown_time(s.c_str() + a + W->unit.size() + 19, all, 0.0006, "the time of all the tests");
    if (sp.size() > 1) for (auto& k : sp) { std::string h = "  Component " + k.first + " (elapsed "; a = s.rfind(h); CHECK(a != std::string::npos, "shown-time", "the report does not show how long the component '%s' took", k.first.c_str()); shown_time(s.c_str() + a + h.size(), k.second, 0.006, "the time of a component"); } }
  if (xml) { sim::DiskFile* f = sim::disk_find(W->xmlname.c_str()); if (!f || f->open_failed || f->write_failed || f->close_failed || sim::disk_lost(W->xmlname.c_str())) return;
    std::string text((const char*)f->data, f->len); Node root; Xml x(text); if (!x.document(root)) return; sim::probe(PR_TIMES);
    auto at = [](Node& n) { auto* v = n.attr("time"); return v ? v->c_str() : ""; };
    shown_time(at(root), all, 1e-5, "(in the XML file) the time of all the tests");
    for (auto& k : root.kids) { auto* nm = k.attr("name"); auto it = nm ? sp.find(*nm) : sp.end(); if (it == sp.end()) continue; shown_time(at(k), it->second, 1e-5, "(in the XML file) the time of a component");
      for (auto& c : k.kids) for (T* t : done) if (t->comp == *nm && c.attr("name") && t->name == *c.attr("name")) shown_time(at(c), Span{t->elapsed, t->elapsed}, 1e-5, "(in the XML file) the time of a test"); } }
}
std::string full(const T& t) { return t.comp + "::" + t.name; }
size_t occurrences(const std::string& s, const std::string& p) { size_t n = 0; for (size_t i = 0; (i = s.find(p, i)) != std::string::npos; i += p.size()) n++; return n; }
void case_done(T* t, Case* c) {            // what the test case says about itself after its run
  bool pass = t->passed(); int st = c->status(); std::string out = c->capturedOut(), err = c->capturedErr(); int64_t e = c->elapsedTime();
  sim::Quiet q; sim::obligation(); sim::probe(PR_RUN); sim::probe(pass ? PR_PASS : PR_FAIL); if (!t->bodies || t->failed) sim::probe(PR_FIX);
  if (which == U01) {
    CHECK(t->setups == 1, "test-run", "test %d was selected and has run %d times", t->id, t->setups);
    CHECK((st == TestCase::SUCCESS) == pass, "verdict", "test %d says %s; it %s", t->id, st == TestCase::SUCCESS ? "success" : "failure", pass ? "passed" : t->threw ? "threw" : t->failed ? "failed a check" : "wrote an error");
    CHECK(!t->ended || t->downs == 1 || (t->threw && t->downs == 1), "fixture", "test %d is not torn down after its body ended", t->id);
  }
  t->elapsed = e;
  if (which == U02) {
    int64_t hi = t->t_end ? t->t_end : t->t_body_end ? t->t_body_end : sim::mono_ns(), lo = t->t_body ? (t->t_body_end - t->t_body) / 1000000 - 1 : 0;
    CHECK(e >= 0 && e >= lo && e <= (hi - t->t_begin) / 1000000 + 3, "elapsed", "test %d reports an elapsed time of %lld ms; its body took %.3f ms, all of it at most %.3f ms", t->id, (long long)e, (double)(t->t_body_end - t->t_body) / 1e6, (double)(hi - t->t_begin) / 1e6);
  }
  if (which == U03 && W->capture) {
    if (!t->late) CHECK(out == t->out && err == t->err, "captured", "test %d captured '%s' and '%s', it wrote '%s' and '%s'", t->id, printable(out).c_str(), printable(err).c_str(), printable(t->out).c_str(), printable(t->err).c_str());
    else { auto ok = [&](const std::string& got, const std::string& all) { return all.compare(0, got.size(), got) == 0; }; CHECK(ok(out, t->out), "captured", "test %d captured '%s', it wrote '%s'", t->id, printable(out).c_str(), printable(t->out).c_str()); }
  }
}
void streams_back() {
  bool co = std::cout.rdbuf() == &W->out, ce = std::cerr.rdbuf() == &W->err, good = std::cout.good() && std::cerr.good();
  sim::Quiet q; sim::obligation();
  if (which != U03) return;
  CHECK(co && ce, "not-restored", "after the tests %s does not write where it wrote before", co ? "std::cerr" : "std::cout");
  if (W->capture) { CHECK(good, "not-restored", "after the tests a standard stream is in an error state"); same_format("after the tests", false); }
}
void check_text(std::vector<T*>& done, bool summary) {
  const std::string& s = W->out.all; sim::obligation();
  if (which == U03) {
    for (T* t : done) for (size_t i = 0; i < t->old_out.size();) { size_t e = t->old_out.find('>', i) + 1; std::string tok = t->old_out.substr(i, e - i); i = e; CHECK(s.find(tok) == std::string::npos && W->err.all.find(tok) == std::string::npos, "stale", "'%s' appears in the report of this run; test %d wrote it in an earlier one", printable(tok).c_str(), t->id); }
    if (!W->capture) {      // what was written passes through, in order
      std::string rest = s; size_t at = 0, i = 0; std::string w = W->want_thru_out;
      while (i < w.size()) { size_t e = w.find('>', i) + 1; std::string tok = w.substr(i, e - i); size_t k = s.find(tok, at); CHECK(k != std::string::npos, "passed-through", "'%s', written on std::cout with capturing off, does not appear there in order", printable(tok).c_str()); at = k + tok.size(); i = e; }
      CHECK(W->err.all.find(W->want_thru_err) != std::string::npos, "passed-through", "std::cerr shows '%s', with capturing off '%s' was written", printable(W->err.all).c_str(), printable(W->want_thru_err).c_str());
      for (T* t : done) { size_t i = 0; while (i < t->out.size()) { size_t e = t->out.find('>', i) + 1; CHECK(occurrences(s, t->out.substr(i, e - i)) == 1, "passed-through", "output of test %d appears twice although it is not captured", t->id); i = e; } }
      return;
    }
    if (W->verbosity == 0) CHECK(s.empty(), "not-quiet", "the runner writes '%s' although it is to be quiet", printable(s).c_str());
    for (T* t : done) if (!t->late) {
      bool o = W->verbosity >= 5 || (W->verbosity > 0 && !t->passed()), e = W->verbosity >= 4 || (W->verbosity > 0 && !t->passed());
      if (!t->out.empty()) CHECK(occurrences(s, t->out) == (o ? 1 : 0), "shown", "the output of test %d appears %zu times in the report; the verbosity is %d and the test has %s", t->id, occurrences(s, t->out), W->verbosity, t->passed() ? "passed" : "failed");
      if (!t->err.empty()) CHECK(occurrences(s, t->err) == (e ? 1 : 0), "shown", "the error output of test %d appears %zu times in the report; the verbosity is %d and the test has %s", t->id, occurrences(s, t->err), W->verbosity, t->passed() ? "passed" : "failed");
      if (!t->out.empty() && o) { size_t h = s.find("STDOUT " + full(*t)); CHECK(h != std::string::npos && h < s.find(t->out), "shown", "the output of test %d is not shown as its own", t->id); }
      CHECK(t->out.empty() || W->err.all.find(t->out) == std::string::npos, "leaked", "captured output appears on std::cerr"); CHECK(t->err.empty() || W->err.all.find(t->err) == std::string::npos, "leaked", "captured error output appears on std::cerr");
    }
  }
  if (which == U01) {
    int k = 0;
    for (T* t : done) { (void)k;
      std::string n = full(*t); std::string shown = n.substr(0, 50); size_t ok = 0, bad = 0, err = 0, fl = 0, go = 0;
      for (size_t i = 0; i < s.size();) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string l = s.substr(i, e - i); i = e + 1;
        if (l.size() > 8 && l[0] == '[' && l.find(": " + shown + (n.size() < 50 ? " " : "")) != std::string::npos && l.back() == ']') { std::string v = l.substr(l.size() - 5); ok += v == "OK  ]"; bad += v == "FAIL]"; go += v == "GO  ]"; }
        if (l.compare(0, 22, "Uncaught error in Case") == 0 && l.size() > n.size() + 2 && l.compare(l.size() - n.size() - 2, std::string::npos, ": " + n) == 0) err++;
        if (l.compare(0, 15, "Failure in case") == 0 && l.find(": " + n + " at ") != std::string::npos) fl++; }
      CHECK(!(ok && !t->passed()), "verdict", "the report shows test %d as passed; it %s", t->id, t->threw ? "threw" : t->failed ? "failed a check" : "wrote an error");
      CHECK(!((bad || err || fl) && t->passed()), "verdict", "the report shows test %d, which has passed, as failed", t->id);
      if (W->verbosity >= 2 && W->capture) CHECK(ok + bad + err + fl == 1, "verdict", "the report shows the verdict of test %d %zu times", t->id, ok + bad + err + fl);
      if (fl && t->failed && !t->threw && plain(t->fail_desc)) { std::string want = ": " + std::to_string(t->fail_line) + "\n"; size_t a = s.find(": " + n + " at "); size_t e = s.find('\n', a); CHECK(s.compare(e + 1 - want.size(), want.size(), want) == 0, "verdict", "the report shows the failure of test %d as '%s', it was at line %d", t->id, printable(s.substr(a, e - a)).c_str(), t->fail_line);
        a += n.size() + 6; std::string sh = s.substr(a, e + 1 - want.size() - a); CHECK(names_file(sh, t->fail_file), "verdict", "the report shows the failure of test %d in the file '%s', it was in '%s'", t->id, printable(sh).c_str(), t->fail_file);
        if (!t->fail_desc.empty()) CHECK(s.compare(e + 1, t->fail_desc.size() + 1, t->fail_desc + "\n") == 0, "reason", "the report gives the reason '%s' for the failure of test %d, the check said '%s'", printable(s.substr(e + 1, 100)).c_str(), t->id, printable(t->fail_desc).c_str());
        if (!t->fail_part.empty()) { size_t z = s.find('\n', e + 1); CHECK(s.substr(e + 1, z - e - 1).find('"' + t->fail_part + '"') != std::string::npos, "reason", "the reason '%s' given for test %d does not show the value '%s' the check found", printable(s.substr(e + 1, z - e - 1)).c_str(), t->id, t->fail_part.c_str()); } }
      if (err && t->threw) { std::string h = ": " + n + "\n"; size_t a = std::string::npos; for (size_t i = 0; (i = s.find("Uncaught error in Case", i)) != std::string::npos; i++) { size_t e = s.find('\n', i); if (e + 1 - i >= h.size() && s.compare(e + 1 - h.size(), h.size(), h) == 0) a = e + 1; }
        CHECK(a != std::string::npos && (!t->throw_known ? s[a] != '\n' : s.compare(a, t->throw_desc.size() + 1, t->throw_desc + "\n") == 0), "reason", "the report gives the reason '%s' for the failure of test %d, the exception said '%s'", a == std::string::npos ? "" : printable(s.substr(a, 100)).c_str(), t->id, printable(t->throw_desc).c_str()); }
    }
    if (summary && W->verbosity > 0) {
      size_t a = s.find("\nFailed cases: "); std::set<std::string> listed; if (a != std::string::npos) { a += 15; size_t e = s.find("\n=====", a); std::string l = s.substr(a, e - a); size_t i = 0; while (i <= l.size()) { size_t c = l.find(", ", i); if (c == std::string::npos) c = l.size(); listed.insert(l.substr(i, c - i)); i = c + 2; } }
      std::set<std::string> want; for (T* t : done) if (!t->passed()) want.insert(full(*t));
      for (auto& n : listed) CHECK(want.count(n), "verdict", "the summary lists '%s' as failed; it %s", n.c_str(), [&] { for (T* t : done) if (full(*t) == n) return true; return false; }() ? "passed" : "was not performed");
      for (auto& n : want) CHECK(listed.count(n), "verdict", "the summary does not list '%s' as failed", n.c_str());
      bool last = s.find("s) Passed\n", s.rfind("Unit Test ")) != std::string::npos; CHECK(last == want.empty(), "verdict", "the last line says %s, %zu tests have failed", last ? "Passed" : "FAILED", want.size());
    }
  }
}

void run(const Program& p) {
  std::vector<char*>* argv; std::vector<Case*>* cs; int mode = (int)p.p[6], invalid = (int)p.p[8]; std::streambuf *ob, *eb;
  { sim::Quiet q;
    W = new World; W->capture = !p.p[1]; W->verbosity = p.p[3] == -1 ? 2 : p.p[3] == -2 ? 0 : (int)p.p[3]; W->xml = p.p[4] ? W->xmlname : "";
    static const char* const names[] = {"prog", "a <unit> & \"co\"", "it's", "\xc3\xbcnit", "x"}; W->unit = names[p.p[7] % 5]; W->id = names[p.p[7] / 5 % 5];
    int n = (int)p.p[0]; Rng r((uint64_t)p.p[9]);
    static const char* const comps[] = {"Alpha", "Beta", "C<o>&mp", "A \"quoted\" component", "\xe2\x82\xac"}; int nc = (int)p.p[10];
    for (int i = 0; i < n; i++) { W->t.emplace_back(); T& t = W->t.back(); t.id = i; int k = (int)r.below(nc); t.comp = k < 5 ? comps[k] : "component" + std::to_string(k); t.name = (r.chance(80) ? "test" : r.chance(50) ? "a & b <" : "t") + std::to_string(i); if (t.name[0] == 't' && t.name[1] != 'e') t.name += "-whose-name-is-much-longer-than-the-screen-is-wide"; if (r.chance(1)) (which != U04 || r.chance(70) ? t.name : t.comp) += std::string(r.chance(80) ? r.range(180, 600) : (size_t)huge_knob(r), 'n'); }
    for (auto& o : p.ops) if (o.thr < n) W->t[o.thr].acts.push_back(&o);
    if (p.p[5] && n) { bool any = false; for (auto& t : W->t) { t.selected = r.chance(40); any |= t.selected; } if (!any) W->t[0].selected = true; }
    argv = new std::vector<char*>; cs = new std::vector<Case*>; auto arg = [&](const std::string& s) { argv->push_back(strdup(s.c_str())); };
    arg("./bin/prog.exe"); std::vector<std::vector<std::string>> opts;
    if (p.p[1]) opts.push_back({"-c"}); if (p.p[2]) opts.push_back({"-e"}); if (p.p[4]) opts.push_back({"-x", W->xml}); opts.push_back({"-n", W->unit}); opts.push_back({"-i", W->id});
    if (p.p[3] == -2) opts.push_back({"-q"}); else if (p.p[3] >= 0) opts.push_back({"-v", std::to_string(p.p[3])});
    if (p.p[5]) for (auto& t : W->t) if (t.selected) opts.push_back({"-t", full(t)});
    if (p.p[13]) for (size_t i = opts.size(); i > 1; i--) std::swap(opts[i - 1], opts[r.below(i)]);
    if (p.p[13] == 2) opts.insert(opts.begin(), r.chance(50) ? std::vector<std::string>{"-q", "-v", "2"} : std::vector<std::string>{"-n", "other", "-v", "5", "-v", "2"});
    for (auto& o : opts) for (auto& a : o) arg(a);
    if (invalid == 1) arg("-z"); else if (invalid == 2) { arg("-t"); arg("No::such"); } else if (invalid == 3) arg("-h"); else if (invalid == 4) arg("-x");
    cs->reserve(n); }
  uint64_t since = sim::alloc_seq();
  { sim::Quiet q; punct = new std::locale(std::locale::classic(), new Punct); }
  std::ios keep_o(nullptr), keep_e(nullptr); keep_o.copyfmt(std::cout); keep_e.copyfmt(std::cerr);
  if (which == U03 && p.p[11]) { std::cout << std::hex << std::showbase << std::setfill('0') << std::setprecision(11); std::cerr << std::left << std::scientific; if (p.p[11] == 2) std::cout.imbue(*punct); }
  ob = std::cout.rdbuf(&W->out); eb = std::cerr.rdbuf(&W->err);
  UnitTest* ut = new UnitTest; std::vector<T*>* done; { sim::Quiet q; done = new std::vector<T*>; }
  for (auto& t : W->t) { Case* c = new Case(&t); cs->push_back(c); ut->addTestCase(t.comp.c_str(), t.name.c_str(), c); }
  for (auto& t : W->t) { sim::Quiet q; if (t.selected) done->push_back(&t); }
  sim::disk_faults(true); sim::faults_global(p.mask & ~(1u << sim::F_ALLOC));
  auto after = [&] { { sim::Quiet q; for (auto& t : W->t) if (!t.selected) CHECK(which != U01 || (t.setups == 0 && t.bodies == 0), "test-run", "test %d runs though it is not selected", t.id); }
    for (auto& t : W->t) if (t.selected) case_done(&t, (*cs)[t.id]); streams_back(); };
  auto judge = [&](int st, bool summary) { sim::Quiet q; bool allok = true; for (T* t : *done) allok &= t->passed(); if (which == U01) CHECK(((st & 255) == 0) == allok, "status", "the status is %d; %s", st, allok ? "every selected test has passed" : "a selected test has failed"); check_text(*done, summary); };
  if (invalid) {
    int st = ut->main((int)argv->size(), argv->data()); sim::Quiet q; sim::probe(PR_INVALID);
    if (which == U01) { CHECK((st & 255) != 0, "status", "the status is %d although the options are invalid or ask for help", st); for (auto& t : W->t) CHECK(!t.setups, "test-run", "a test runs although the options are invalid"); }
  } else if (mode == RUN_MAIN) {
    { sim::Quiet q; for (T* t : *done) t->fresh(); sim::probe(PR_MAIN); if (p.p[5]) sim::probe(PR_SEL); format_now(); W->t_run = sim::mono_ns(); }
    int st = ut->main((int)argv->size(), argv->data());
    { sim::Quiet q; W->t_done = sim::mono_ns(); }
    after(); judge(st, true); { sim::Quiet q; if (which == U02) check_times(*done, true, p.p[4]); if (which == U04 && p.p[4]) check_report(*done, !W->err.all.empty() && W->err.all != W->want_thru_err); }
  } else {
    ut->detectTestName((*argv)[0]); int st = ut->parseParams((int)argv->size() - 1, argv->data() + 1); CHECK(st == 0, "options", "valid options are refused");
    if (mode == RUN_TWICE) for (int i = 0; i < 2; i++) {
      { sim::Quiet q; for (T* t : *done) t->fresh(); W->out.all.clear(); W->err.all.clear(); W->want_thru_out.clear(); W->want_thru_err.clear(); sim::probe(PR_TWICE); format_now(); W->t_run = sim::mono_ns(); }
      if (i && p.p[12]) {      // the second time with other options
        std::vector<char*> more; { sim::Quiet q; if (p.p[12] & 1) { W->capture = false; more.push_back(strdup("-c")); } if (p.p[12] & 2) more.push_back(strdup("-e")); if (p.p[12] & 4) { W->verbosity = (int)(p.p[12] >> 3); more.push_back(strdup("-v")); more.push_back(strdup(std::to_string(W->verbosity).c_str())); } }
        st = ut->parseParams((int)more.size(), more.data()); { sim::Quiet q; for (char* c : more) free(c); more = std::vector<char*>(); } CHECK(st == 0, "options", "valid options are refused"); }
      st = ut->performUnitTests(); { sim::Quiet q; W->t_done = sim::mono_ns(); } after(); judge(st, true); { sim::Quiet q; if (which == U02) check_times(*done, true, p.p[4]); if (which == U04 && p.p[4] && !sim::fault_hits(sim::F_DISK_OPEN) && !sim::fault_hits(sim::F_DISK_WRITE) && !sim::fault_hits(sim::F_DISK_CLOSE)) check_report(*done, !W->err.all.empty() && W->err.all != W->want_thru_err); }
    } else {
      Rng r((uint64_t)p.p[9] + 3); int k = (int)r.range(1, 6);
      for (int i = 0; i < k && !W->t.empty(); i++) {
        T* t; { sim::Quiet q; t = &W->t[r.below(W->t.size())]; t->selected = true; t->fresh(); done->assign(1, t); W->out.all.clear(); W->err.all.clear(); W->want_thru_out.clear(); W->want_thru_err.clear(); sim::probe(PR_SINGLY); format_now(); W->t_run = sim::mono_ns(); }
        std::string n; { sim::Quiet q; n = full(*t); } st = ut->performTest(n.c_str()); { sim::Quiet q; n = std::string(); }
        case_done(t, (*cs)[t->id]); streams_back(); judge(st, false); { sim::Quiet q; if (which == U02) check_times(*done, false, false); }
      }
      bool thrown = false; try { ut->performTest("No::such"); } catch (std::runtime_error&) { thrown = true; } CHECK(which != U01 || thrown, "status", "performing a test that does not exist is not an error");
    }
    delete ut;
  }
  sim::faults_global(0);
  std::cout.rdbuf(ob); std::cerr.rdbuf(eb); std::cout.clear(); std::cout.copyfmt(keep_o); std::cerr.copyfmt(keep_e);
  for (Case* c : *cs) delete c;
  sim::check_leaks(since, "when the framework and its tests are destroyed");
}
template <int P> void run_as(const Program& p) { which = P; run(p); }
template <int P> void gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); if (p.tick > 1000) p.tick = 1000;
  p.mask = 0; p.real0 = (int64_t)r.range(1, 2000000000) * 1000000000ll + r.below(1000000000); if (r.chance(50)) p.mask |= 1u << sim::F_EINTR; if (r.chance(30)) p.mask |= 1u << sim::F_ALLOC;
  int n = (int)r.range(r.chance(3) ? 0 : 1, tier ? 14 : 8); bool all256 = false; if (r.chance(P == U01 ? 2 : P == U03 ? 0 : 1)) { n = r.pick({255, 256, 257, 128, 512, 100, 64}); if (r.chance(50)) { n = r.chance(75) ? 256 : 512; all256 = true; } } bool many = n > 20; int nc = many && r.chance(50) ? (int)r.pick({6, 20, 100, 200, 300, 600}) : 0;
  p.p[0] = n; p.p[1] = r.chance(P == U03 ? 30 : 20); p.p[2] = r.chance(40); p.p[3] = r.chance(15) ? -2 : r.chance(20) ? -1 : (int64_t)r.below(6); p.p[4] = P == U04 ? 1 : r.chance(30);
  p.p[5] = r.chance(35); p.p[6] = r.chance(60) ? RUN_MAIN : r.chance(50) ? RUN_TWICE : RUN_SINGLY; if (P == U04 && p.p[6] == RUN_SINGLY) p.p[6] = RUN_MAIN; if (many) p.p[6] = RUN_MAIN; if (all256) p.p[5] = 0;
  p.p[7] = P == U04 ? r.below(25) : r.chance(70) ? 0 : r.below(25); p.p[8] = P == U01 && r.chance(4) ? (int64_t)r.range(1, 4) : 0; p.p[9] = r.below(1 << 20); p.p[12] = p.p[6] == RUN_TWICE && r.chance(40) ? (int64_t)(r.below(8) | r.below(6) << 3) : 0; p.p[13] = r.chance(40) ? r.range(1, 2) : 0; p.p[11] = P == U03 && r.chance(30) ? r.range(1, 2) : 0; p.p[10] = P == U04 || r.chance(30) ? r.range(1, 5) : r.range(1, 2); if (nc) p.p[10] = nc;
  if (p.p[4] && r.chance(P == U04 ? 60 : 30)) for (auto k : {sim::F_DISK_OPEN, sim::F_DISK_WRITE, sim::F_DISK_SHORT, sim::F_DISK_CLOSE}) if (r.chance(50)) p.mask |= 1u << k;
  if (many) { int bad = all256 || r.chance(50) ? 100 : r.chance(50) ? 1 : (int)r.below(100); for (int i = 0; i < n; i++) if (r.chance(bad)) { Op o; o.thr = i; o.code = r.chance(70) ? FAILING : all256 || r.chance(50) ? THROW : ERR; o.a = o.code == FAILING ? 0 : 2; o.b = 0; o.d = BODY; p.ops.push_back(o); } return; }
  int fails = (int)r.pick({0, 20, 50, 100});
  for (int i = 0; i < n; i++) {
    int na = (int)r.below(6); bool mayfail = r.chance(fails);
    for (int j = 0; j < na; j++) {
      Op o; o.thr = i; o.d = r.chance(75) ? BODY : r.chance(50) ? SETUP : TEARDOWN; int k = (int)r.below(100); bool time = P == U02;
      if (time && k < 45) { int z = (int)r.below(4); o.code = z == 0 ? WAIT : z == 1 ? JUMP : z == 2 ? NOW : BURN; }
      else if (k < 25) o.code = OUT; else if (k < 35) o.code = mayfail && r.chance(60) ? ERR : OUT; else if (k < 50) o.code = PASSING; else if (k < 65) o.code = mayfail ? FAILING : PASSING; else if (k < 75) o.code = mayfail ? THROW : OUT; else if (k < 79) o.code = WAIT; else if (k < 84) o.code = JUMP; else if (k < 87) o.code = NOW; else if (k < 90) o.code = SWAPBUF; else if (k < 94) o.code = FORMAT; else if (k < 96) o.code = BADSTATE; else if (k < 98) o.code = BURN; else o.code = NOMEM;
      if (o.code == ERR && o.d == TEARDOWN) o.d = BODY; if ((o.code == SWAPBUF || o.code == BADSTATE) && P != U03 && P != U01) o.code = OUT; if ((o.code == SWAPBUF || o.code == BADSTATE) && (p.p[1] || (p.p[12] & 1))) o.code = OUT; if (o.code == SWAPBUF && P == U01) o.code = FORMAT;
      if (o.code == FORMAT && (p.p[1] || (p.p[12] & 1))) o.code = OUT; if (o.code == FORMAT && o.a % 10 >= 8 && P != U03) o.a = o.a - o.a % 10;
      switch (o.code) {
        case WAIT: o.a = r.chance(85) ? r.below(300) : r.chance(50) ? (int64_t)r.below(100000) : r.chance(60) ? 4294967 + (int64_t)r.below(5) : (int64_t)r.below(10000000); if (!time && o.a > 1000) o.a = 1000; break;
        case JUMP: { static const int64_t u[] = {1, 1000, 60000, 3600000, 86400000, 864000000, 31536000000ll}; o.a = r.range(-3, 3) * u[r.below(7)] + r.range(-5, 5); o.b = r.range(-999999, 999999); break; }
        case BURN: o.a = r.chance(90) ? r.below(2000) : (int64_t)r.below(200000000); o.b = r.below(1000000); break;
        case OUT: case ERR: o.a = r.below(1 << 20); o.b = r.below(4); break;
        default: o.a = r.below(1000); o.b = r.below(1 << 20);
      }
      if (p.p[6] != RUN_MAIN && r.chance(25)) o.c = r.range(1, 2);
      p.ops.push_back(o);
    }
  }
}
std::string opname(const Program& p, const Op& o) { static const char* const ph[] = {" in set-up", "", " in tear-down"}; std::string s = "test " + std::to_string(o.thr) + ": " + act_names[o.code % NACT] + ph[o.d % 3]; if (o.code == WAIT || o.code == JUMP || o.code == BURN) s += " " + std::to_string(o.a) + " ms"; if (o.c) s += o.c == 1 ? " (odd executions only)" : " (even executions only)"; return s; }
RegisterProp R1({"U01", gen<U01>, run_as<U01>, 6000000, opname, probes_});
RegisterProp R2({"U02", gen<U02>, run_as<U02>, 6000000, opname, probes_});
RegisterProp R3({"U03", gen<U03>, run_as<U03>, 6000000, opname, probes_});
RegisterProp R4({"U04", gen<U04>, run_as<U04>, 6000000, opname, probes_});
}
