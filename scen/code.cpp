// C01: compiling a stream, and the life of code objects.
#include "common.h"
#include <falcon/engine/compiler.h>
#include <istream>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <utility>
using falcon::Code;
using falcon::Compiler;

namespace {
enum { NSLOT = 4, NSHARED = 3, MAXTH = 4 };
std::string printable(const std::string& s) { std::string o; for (unsigned char c : s.substr(0, 60)) if (c < 32 || c > 126) { char b[6]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; if (s.size() > 60) o += "..."; return o; }
bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
struct ReadFail {};

// A stream buffer that hands its bytes over in arbitrary pieces and may end or throw early.
struct Src : std::streambuf {
  char* data; size_t n, pos = 0; bool faulty; size_t delivered = 0; bool ended = false, threw = false; char piece[300];
  Src(const std::string& s, bool f) : n(s.size()), faulty(f) { sim::Quiet q; data = new char[n + 1]; memcpy(data, s.data(), n); }
  ~Src() override { sim::Quiet q; delete[] data; }
  int underflow() override {
    if (gptr() < egptr()) return (unsigned char)*gptr();
    sim::point();
    if (ended) return EOF;
    uint32_t v = 0;
    if (faulty && sim::fault(sim::F_READ_ERR, 2, &v)) { sim::Quiet q; if (v) { threw = true; } else ended = true; n = pos; if (v) { ended = true; } }
    if (threw) { threw = false; throw ReadFail(); }
    if (pos == n) { ended = true; return EOF; }
    size_t k = n - pos; if (k > sizeof piece) k = sizeof piece;
    if (sim::fault(sim::F_CHUNK, 64, &v)) { size_t m = v < 48 ? v + 1 : (v - 47) * 17; if (m < k) k = m; }
    { sim::Quiet q; memcpy(piece, data + pos, k); memset(piece + k, '?', sizeof piece - k); }
    pos += k; delivered = pos; setg(piece, piece, piece + k); return (unsigned char)piece[0];
  }
};
struct Slot { std::optional<Code> c; std::string want; bool known = false; };
struct Th { Slot s[NSLOT]; Src* src = nullptr; std::istream* in = nullptr; std::string bytes; size_t at = 0; bool over = true, alien = false; };
struct World { Th t[MAXTH]; std::optional<Code> shared[NSHARED]; std::string shwant[NSHARED]; std::optional<Code> box; std::string boxwant; bool boxknown = false; };
World* W; std::mutex* mx; Compiler* comp;

std::string text_of(uint64_t seed, int64_t len, bool tokens) {
  Rng r(seed); std::string s; int style = (int)r.below(4); int sp = (int)r.below(25);
  for (int64_t i = 0; i < len; i++) {
    if (tokens && r.chance(sp)) { s += " \t\n\v\f\r"[r.below(6)]; continue; }
    char c = style == 0 ? (char)('a' + r.below(26)) : style == 1 ? (char)(33 + r.below(94)) : style == 2 ? (char)r.below(256) : (char)(r.chance(10) ? 0 : '0' + r.below(10));
    if (!tokens || style == 3 || !space((unsigned char)c)) s += c; else s += 'x';
  }
  return s;
}
void check(const Code& c, const std::string& want, const char* what, int i) {
  std::string got; { sim::NoFaults nf; got = c.toString(); }
  sim::Quiet q; sim::obligation();
  CHECK(got == want, "text-changed", "%s %d reads '%s' (%zu bytes), its text is '%s' (%zu bytes)", what, i, printable(got).c_str(), got.size(), printable(want).c_str(), want.size());
}
enum { STREAM, COMPILE, MAKE, COPY, COPYSHARED, MOVE, ASSIGN, ASSIGNSHARED, MOVEASSIGN, SELF, DESTROY, READ, PUT, TAKE, SWAP, RETURN, NOPS };
const char* const op_names[] = {"open a stream", "compile", "make", "copy", "copy of a shared object", "move", "copy-assign", "assign a shared object", "move-assign", "assign to itself", "destroy", "read", "hand over to other threads", "take a copy of the handed-over object", "swap", "compile and pass through functions"};
const char* const probes_[] = {"streams", "compiled", "made", "copied", "copied_shared", "moved", "assigned", "assigned_shared", "move_assigned", "self_assigned", "destroyed", "read", "handed_over", "taken", "swapped", "passed", "failed_ops", "empty_tokens", "long_tokens", "failed_streams", nullptr};
enum { PR_FAIL = 16, PR_EMPTY, PR_LONG, PR_SFAIL };
Code pass(Code c) { return c; }
void close_stream(Th& t) { if (t.in) { delete t.in; delete t.src; t.in = nullptr; t.src = nullptr; } }
void op(const Op& o) {
  Th& t = W->t[o.thr]; Slot& a = t.s[o.a % NSLOT]; Slot& b = t.s[o.b % NSLOT];
  { sim::Quiet q; sim::probe(o.code); }
  bool failed = false;
  try {
    switch (o.code) {
      case STREAM: {
        sim::NoFaults nf; close_stream(t); { sim::Quiet q; t.bytes = text_of((uint64_t)o.c, o.b, true); t.at = 0; t.over = false; }
        t.src = new Src(t.bytes, o.d & 1); t.in = new std::istream(t.src); if (o.d & 2) t.in->exceptions(std::ios_base::badbit); break; }
      case COMPILE: case RETURN: {
        if (!t.in) break;
        uint64_t f0 = sim::fault_hits(sim::F_ALLOC); std::optional<Code> c; bool threw = false;
        auto want = [&] {                                   // in terms of the bytes delivered so far
          size_t i = t.at, e; while (i < t.src->delivered && space((unsigned char)t.bytes[i])) i++; e = i; while (e < t.src->delivered && !space((unsigned char)t.bytes[e])) e++;
          return std::make_pair(i, e); };
        bool was_over; { sim::Quiet q; was_over = t.over; }
        try { if (o.code == RETURN) c.emplace(pass(pass(comp->compile(*t.in)))); else { c.emplace(comp->compile(*t.in)); } } catch (ReadFail&) { threw = true; } catch (std::ios_base::failure&) { threw = true; } catch (std::bad_alloc&) { threw = true; if (sim::fault_hits(sim::F_ALLOC) == f0) throw; }
        bool allocf = sim::fault_hits(sim::F_ALLOC) != f0; bool good = t.in->good(), bad = t.in->bad();
        std::string got; if (c) { sim::NoFaults nf; got = c->toString(); }
        { sim::Quiet q; sim::obligation(); if (bad) sim::probe(PR_SFAIL);
          CHECK(!threw || allocf || (t.in->exceptions() & std::ios_base::badbit), "unexpected-error", "compiling throws although neither memory nor the stream asks for it");
          auto w = want(); std::string tok = was_over ? "" : t.bytes.substr(w.first, w.second - w.first);
          if (c) {
            if (allocf && bad) CHECK(tok.compare(0, got.size(), got) == 0, "wrong-token", "out of memory, compiling gives '%s', which is no part of the token '%s'", printable(got).c_str(), printable(tok).c_str());
            else CHECK(got == tok, "wrong-token", "compiling gives '%s' (%zu bytes); the stream's next token is '%s' (%zu bytes)", printable(got).c_str(), got.size(), printable(tok).c_str(), tok.size());
            if (tok.empty()) sim::probe(PR_EMPTY); if (tok.size() > 999) sim::probe(PR_LONG);
          }
          if (!was_over) t.at = w.second; if (!good || threw) t.over = true; }
        if (threw) { sim::NoFaults nf; close_stream(t); }     // where a failed call leaves the stream is its own business
        if (c) { if (threw) break; { sim::NoFaults nf; a.c.emplace(std::move(*c)); } sim::Quiet q; a.want = got; a.known = true; }
        break; }
      case MAKE: { std::optional<std::string> s; { sim::NoFaults nf; std::string x; { sim::Quiet q; x = text_of((uint64_t)o.c, o.b, false); } s.emplace(x.data(), x.size()); { sim::Quiet q; x = std::string(); } }
        Code c(*s, (int)o.d); { sim::NoFaults nf; a.c.emplace(std::move(c)); } sim::Quiet q; a.want.assign(s->data(), s->size()); a.known = true; break; }
      case COPY: if (b.c && &a != &b) { { sim::NoFaults nf; a.c.reset(); } a.c.emplace(*b.c); sim::Quiet q; a.want = b.want; a.known = b.known; } break;
      case COPYSHARED: { int k = (int)(o.b % NSHARED); { sim::NoFaults nf; a.c.reset(); } a.c.emplace(*W->shared[k]); sim::Quiet q; a.want = W->shwant[k]; a.known = true; break; }
      case MOVE: if (b.c && &a != &b) { sim::NoFaults nf; a.c.reset(); a.c.emplace(std::move(*b.c)); sim::Quiet q; a.want = b.want; a.known = b.known; b.known = false; } break;
      case ASSIGN: if (a.c && b.c) { *a.c = *b.c; sim::Quiet q; if (&a != &b) { a.want = b.want; a.known = b.known; } } break;
      case ASSIGNSHARED: if (a.c) { int k = (int)(o.b % NSHARED); *a.c = *W->shared[k]; sim::Quiet q; a.want = W->shwant[k]; a.known = true; } break;
      case MOVEASSIGN: if (a.c && b.c && &a != &b) { *a.c = std::move(*b.c); sim::Quiet q; a.want = b.want; a.known = b.known; b.known = false; } break;
      case SELF: if (a.c) { Code& r = *a.c; r = *&r; } break;
      case DESTROY: a.c.reset(); break;
      case READ: if (a.c) { if (a.known) check(*a.c, a.want, "the object in slot", (int)(o.a % NSLOT)); else { sim::NoFaults nf; a.c->toString(); } } check(*W->shared[o.b % NSHARED], W->shwant[o.b % NSHARED], "shared object", (int)(o.b % NSHARED)); break;
      case PUT: if (a.c) { std::lock_guard<std::mutex> g(*mx); sim::NoFaults nf; W->box.reset(); W->box.emplace(std::move(*a.c)); sim::Quiet q; W->boxwant = a.want; W->boxknown = a.known; a.known = false; } break;
      case TAKE: { std::lock_guard<std::mutex> g(*mx); if (W->box) { { sim::NoFaults nf; a.c.reset(); } a.c.emplace(*W->box); sim::Quiet q; a.want = W->boxwant; a.known = W->boxknown; } break; }
      case SWAP: if (a.c && b.c && &a != &b) { std::swap(*a.c, *b.c); sim::Quiet q; std::swap(a.want, b.want); std::swap(a.known, b.known); } break;
    }
  } catch (std::bad_alloc&) { failed = true; }
  { sim::Quiet q; if (failed) { sim::probe(PR_FAIL); CHECK(sim::fault_hits(sim::F_ALLOC), "unexpected-error", "the operation '%s' reports a lack of memory that does not exist", op_names[o.code]); } }
  if (failed) { if (o.code == SWAP || o.code == MOVEASSIGN) { sim::Quiet q; a.known = b.known = false; } }
}
void run(const Program& p) {
  { sim::Quiet q; W = new World; }
  uint64_t since = sim::alloc_seq();
  mx = new std::mutex; comp = new Compiler;
  for (int i = 0; i < NSHARED; i++) { { sim::Quiet q; W->shwant[i] = text_of((uint64_t)p.p[4 + i], p.p[1 + i], false); } std::string s(W->shwant[i].data(), W->shwant[i].size()); W->shared[i].emplace(s, i); }
  sim::faults_global(p.mask);
  run_threads(p, (int)p.p[0], op);
  sim::faults_global(0);
  for (auto& t : W->t) { for (auto& s : t.s) { if (s.c && s.known) check(*s.c, s.want, "in the end, the object in slot", (int)(&s - t.s)); s.c.reset(); } close_stream(t); }
  for (int i = 0; i < NSHARED; i++) { check(*W->shared[i], W->shwant[i], "in the end, shared object", i); W->shared[i].reset(); }
  if (W->box && W->boxknown) check(*W->box, W->boxwant, "in the end, the handed-over object", 0); W->box.reset();
  delete mx; delete comp;
  sim::check_leaks(since, "when every code object is destroyed");
}
void gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); p.mask = 1u << sim::F_CHUNK; if (r.chance(30)) p.mask |= 1u << sim::F_ALLOC; if (r.chance(50)) p.mask |= 1u << sim::F_READ_ERR;
  p.p[0] = r.range(1, 3); for (int i = 0; i < NSHARED; i++) { p.p[1 + i] = size_knob(r, tier ? 4097 : 1100); p.p[4 + i] = r.below(1 << 20); }
  int total = (int)r.range(2, tier ? 50 : 24);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, p.p[0]); o.a = r.below(NSLOT); o.b = r.below(NSLOT); int k = (int)r.below(100);
    if (k < 10) { o.code = STREAM; o.b = r.chance(99) ? size_knob(r, 4097) : huge_knob(r); if (r.chance(20)) o.b = r.range(990, 1040); o.c = r.below(1 << 20); o.d = r.below(4); }
    else if (k < 34) o.code = r.chance(80) ? COMPILE : RETURN;
    else if (k < 42) { o.code = MAKE; o.b = r.chance(80) ? size_knob(r, 4097) : r.chance(95) ? r.range(995, 1010) : huge_knob(r); o.c = r.below(1 << 20); o.d = r.below(100); }
    else { static const int c[] = {COPY, COPY, COPYSHARED, MOVE, ASSIGN, ASSIGN, ASSIGNSHARED, MOVEASSIGN, SELF, DESTROY, READ, READ, PUT, TAKE, SWAP}; o.code = c[r.below(sizeof c / sizeof *c)]; }
    p.ops.push_back(o); }
}
std::string opname(const Program&, const Op& o) { std::string s = "T" + std::to_string(o.thr) + " " + op_names[o.code % NOPS] + ": " + std::to_string(o.a) + ", " + std::to_string(o.b); if (o.code == STREAM) s += o.d & 1 ? " (may fail)" : ""; return s; }
RegisterProp R({"C01", gen, run, 3000000, opname, probes_});
}
