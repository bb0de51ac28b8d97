// V01: items and their handlers.
#include "common.h"
#include <sstream>
#include <stdexcept>
#include <mutex>
#include <optional>
#include <utility>
#include <falcon/engine/item.h>
using falcon::Item; using falcon::ItemData; using falcon::Handler; using falcon::HandlerFactory; using falcon::BigNum;
using falcon::int64; using falcon::uint64; using falcon::byte; using falcon::int32; using falcon::uint32; using falcon::ccstring;

namespace {
enum { NSLOT = 4, NSHARED = 4, MAXTH = 4 };
enum Kind { K_NIL, K_BOOL, K_CHAR, K_BYTE, K_I32, K_U32, K_I64, K_U64, K_FLOAT, K_CSTR, K_STR, K_BIG, NKIND };
const char* const kind_names[] = {"nil", "bool", "char", "byte", "int32", "uint32", "int64", "uint64", "float", "C string", "string", "big number"};
struct Val { int kind = K_NIL; int64_t v = 0, n = 0; };
std::string str_of(const Val& x) { Rng r((uint64_t)x.v + 5); std::string s; int style = (int)r.below(3); for (int64_t i = 0; i < x.n; i++) s += style == 0 && x.kind == K_STR ? (char)r.below(256) : style == 1 ? (char)('0' + r.below(10)) : (char)(33 + r.below(90)); return s; }
double dbl_of(const Val& x) { return (double)(x.v % 100000) / (double)(1 + x.v % 7) * (x.n % 5 == 0 ? 1e30 : 1); }
BigNum big_of(const Val& x) { BigNum b(x.v % 1000000007); for (int i = 0; i < x.n % 4; i++) b = b * BigNum(1234567) + BigNum(x.v % 97); return x.n % 3 ? b / BigNum(7) : b; }
struct Slot { std::optional<Item> it; Val want; bool known = false; };
struct World { Slot s[MAXTH][NSLOT]; std::optional<Item> shared[NSHARED]; Val shwant[NSHARED]; std::optional<Item> box; Val boxwant; bool boxknown = false; };
World* W; std::mutex* mx;

std::optional<Item> make(const Val& x) {
  std::optional<Item> r; uint64_t h = 0; (void)h;
  switch (x.kind) {
    case K_NIL: r.emplace(); break;
    case K_BOOL: r.emplace((bool)(x.v & 1)); break;
    case K_CHAR: r.emplace((char)x.v); break;
    case K_BYTE: r.emplace((byte)x.v); break;
    case K_I32: r.emplace((int32)x.v); break;
    case K_U32: r.emplace((uint32)x.v); break;
    case K_I64: r.emplace((int64)(x.v * x.n)); break;
    case K_U64: r.emplace((uint64)(x.v * x.n)); break;
    case K_FLOAT: { double d = dbl_of(x); r.emplace(d); break; }
    case K_CSTR: { std::optional<std::string> s; { sim::NoFaults nf; std::string t; { sim::Quiet q; t = str_of(x); } s.emplace(t.c_str()); sim::Quiet q; t = std::string(); } r.emplace((ccstring)s->c_str()); break; }
    case K_STR: { std::optional<std::string> s; { sim::NoFaults nf; std::string t; { sim::Quiet q; t = str_of(x); } s.emplace(t.data(), t.size()); sim::Quiet q; t = std::string(); } r.emplace(*s); break; }
    case K_BIG: { BigNum b; { sim::NoFaults nf; b = big_of(x); } r.emplace(b); break; }
  }
  return r;
}
const Handler* handler_of(int k) {
  switch (k) { case K_NIL: return &HandlerFactory::nilHandler; case K_BOOL: return &HandlerFactory::boolHandler; case K_FLOAT: return &HandlerFactory::floatHandler; case K_CSTR: case K_STR: return &HandlerFactory::stringHandler; case K_BIG: return &HandlerFactory::bigNumHandler; }
  return &HandlerFactory::intHandler;
}
void check(const Item& it, const Val& w, const char* what, int i) {
  sim::NoFaults nf;
  { sim::Quiet q; sim::obligation(); }
  CHECK(it.handler == handler_of(w.kind), "type-changed", "%s %d, made from a %s, is of type %s", what, i, kind_names[w.kind], it.handler ? it.handler->typeName().c_str() : "?");
  int64_t iv = 0; bool isint = true;
  switch (w.kind) { case K_CHAR: iv = (char)w.v; break; case K_BYTE: iv = (byte)w.v; break; case K_I32: iv = (int32)w.v; break; case K_U32: iv = (uint32)w.v; break; case K_I64: case K_U64: iv = w.v * w.n; break; default: isint = false; }
  if (isint) {
    int64 g = it.get<int64>(); uint64 u = it.get<uint64>(); int64 t = it.toInt(); std::string s = it.toString();
    CHECK(g == iv && u == (uint64)iv && t == iv, "value-changed", "%s %d holds %lld (as an integer %lld), its value is %lld", what, i, (long long)g, (long long)t, (long long)iv);
    CHECK(s == std::to_string(iv), "value-changed", "%s %d reads '%s', its value is %lld", what, i, s.c_str(), (long long)iv);
  } else if (w.kind == K_BOOL) {
    bool v = w.v & 1; std::string s = it.toString();
    CHECK(it.get<bool>() == v && it.toBool() == v && it.toInt() == v && s == (v ? "true" : "false"), "value-changed", "%s %d reads '%s', its value is %d", what, i, s.c_str(), v);
  } else if (w.kind == K_FLOAT) {
    double d = dbl_of(w); CHECK(it.get<double>() == d && it.toBool() == (d != 0), "value-changed", "%s %d holds %g, its value is %g", what, i, it.get<double>(), d);
  } else if (w.kind == K_CSTR || w.kind == K_STR) {
    std::string s = it.toString(), g = it.get<falcon::String>(); sim::Quiet q; std::string e = str_of(w); if (w.kind == K_CSTR) e = e.c_str();
    CHECK(s == e && g == e, "value-changed", "%s %d holds a text of %zu bytes that is not its value of %zu bytes", what, i, s.size(), e.size());
    CHECK(it.toBool() == !e.empty(), "value-changed", "%s %d converts to a wrong truth value", what, i);
  } else if (w.kind == K_BIG) {
    BigNum e = big_of(w); CHECK(it.get<BigNum>() == e, "value-changed", "%s %d holds a big number that is not its value", what, i);
    CHECK(it.toBool() == !e.is_zero(), "value-changed", "%s %d converts to a wrong truth value", what, i);
  } else { CHECK(!it.toBool() && it.toInt() == 0 && it.toString() == "nil", "value-changed", "%s %d, made from nothing, is not nil", what, i); }
}
enum { MAKE, COPY, COPYSHARED, MOVE, ASSIGN, ASSIGNSHARED, MOVEASSIGN, ASSIGNVALUE, SELF, DESTROY, READ, PUT, TAKE, SWAP, HANDLER, BYVALUE, NOPS };
const char* const op_names[] = {"make", "copy", "copy a shared item", "move", "copy-assign", "assign a shared item", "move-assign", "assign a value", "assign to itself", "destroy", "read", "hand over to other threads", "take a copy of the handed-over item", "swap", "allocate and release through the handler", "pass by value"};
const char* const probes_[] = {"made", "copied", "copied_shared", "moved", "assigned", "assigned_shared", "move_assigned", "value_assigned", "self_assigned", "destroyed", "read", "handed_over", "taken", "swapped", "handler_allocations", "passed_by_value", "failed_ops", nullptr};
enum { PR_FAIL = 16 };
Item pass(Item i) { return i; }
void op(const Op& o) {
  Slot& a = W->s[o.thr][o.a % NSLOT]; Slot& b = W->s[o.thr][o.b % NSLOT]; Val x; x.kind = (int)(o.c % NKIND); x.v = o.d; x.n = o.b; int k = (int)(o.b % NSHARED);
  { sim::Quiet q; sim::probe(o.code); }
  bool failed = false;
  sim::FaultWindow w(1u << sim::F_ALLOC);
  try {
    switch (o.code) {
      case MAKE: { std::optional<Item> n = make(x); { sim::NoFaults nf; a.it.reset(); a.known = false; } a.it.emplace(std::move(*n)); a.want = x; a.known = true; break; }
      case COPY: if (b.it && &a != &b) { a.it.reset(); a.known = false; a.it.emplace(*b.it); a.want = b.want; a.known = b.known; } break;
      case COPYSHARED: a.it.reset(); a.known = false; a.it.emplace(*static_cast<const std::optional<Item>&>(W->shared[k])); a.want = W->shwant[k]; a.known = true; break;
      case MOVE: if (b.it && &a != &b) { bool kn = b.known; a.it.reset(); a.known = false; b.known = false; a.it.emplace(std::move(*b.it)); a.want = b.want; a.known = kn; } break;
      case ASSIGN: if (a.it && b.it) { *a.it = *b.it; if (&a != &b) { a.want = b.want; a.known = b.known; } } break;
      case ASSIGNSHARED: if (a.it) { *a.it = *static_cast<const std::optional<Item>&>(W->shared[k]); a.want = W->shwant[k]; a.known = true; } break;
      case MOVEASSIGN: if (a.it && b.it && &a != &b) { bool kn = b.known; Val v = b.want; bool ka = a.known; a.known = b.known = false; (void)ka; *a.it = std::move(*b.it); a.want = v; a.known = kn; } break;
      case ASSIGNVALUE: if (a.it) { if (x.v % 2) { std::optional<std::string> s; { sim::NoFaults nf; s.emplace("assigned as a text of more than the inline size"); } *a.it = Item(*s); a.known = false; } else { *a.it = Item((int64)x.v); a.want.kind = K_I64; a.want.v = x.v; a.want.n = 1; a.known = true; } } break;
      case SELF: if (a.it) { Item& r = *a.it; r = *&r; } break;
      case DESTROY: a.it.reset(); a.known = false; break;
      case READ: if (a.it && a.known) check(*a.it, a.want, "the item in slot", (int)(o.a % NSLOT)); check(*W->shared[k], W->shwant[k], "shared item", k); break;
      case PUT: if (a.it) { std::lock_guard<std::mutex> g(*mx); W->box.reset(); W->boxknown = false; bool kn = a.known; a.known = false; W->box.emplace(std::move(*a.it)); W->boxwant = a.want; W->boxknown = kn; } break;
      case TAKE: { std::lock_guard<std::mutex> g(*mx); if (W->box) { a.it.reset(); a.known = false; a.it.emplace(*W->box); a.want = W->boxwant; a.known = W->boxknown; } break; }
      case SWAP: if (a.it && b.it && &a != &b) { bool ka = a.known, kb = b.known; a.known = b.known = false; std::swap(*a.it, *b.it); std::swap(a.want, b.want); a.known = kb; b.known = ka; } break;
      case HANDLER: { const Handler* h = handler_of(x.kind); ItemData d = h->allocate();
        { sim::NoFaults nf; bool tb = h->toBool(d); std::string s = h->toString(d); sim::Quiet q; sim::obligation(); CHECK(!tb, "handler-value", "a fresh %s converts to true", h->typeName().c_str()); CHECK(x.kind != K_CSTR && x.kind != K_STR || s.empty(), "handler-value", "a fresh String reads '%s'", s.c_str());
          bool flat = x.kind != K_CSTR && x.kind != K_STR && x.kind != K_BIG; CHECK(h->isFlat() == flat, "handler-value", "isFlat of %s is wrong", h->typeName().c_str()); }
        if (o.d & 1) { struct Free { const Handler* h; ItemData d; ~Free() { h->destroy(d); } } f{h, d}; ItemData e = h->copy(d); struct Free g{h, e};
          sim::NoFaults nf; bool deep = x.kind == K_CSTR || x.kind == K_STR || x.kind == K_BIG; CHECK(!deep || d.ptrValue != e.ptrValue, "shared-value", "a copied %s shares its value", h->typeName().c_str()); CHECK(h->toString(d) == h->toString(e), "handler-value", "a copied %s has another value", h->typeName().c_str()); break; }
        h->destroy(d); break; }
      case BYVALUE: if (a.it) { Item c = pass(pass(*a.it)); if (a.known) check(c, a.want, "the item passed by value from slot", (int)(o.a % NSLOT)); } break;
    }
  } catch (std::bad_alloc&) { failed = true; }
  sim::Quiet q; if (failed) { sim::probe(PR_FAIL); CHECK(sim::fault_hits(sim::F_ALLOC), "unexpected-error", "the operation '%s' reports a lack of memory that does not exist", op_names[o.code]); }
}
void run(const Program& p) {
  { sim::Quiet q; W = new World; }
  { sim::NoFaults nf; std::ostringstream s; s << BigNum(3) / BigNum(7) << 1.5; }     // constants boost keeps for good
  uint64_t since = sim::alloc_seq();
  mx = new std::mutex;
  for (int i = 0; i < NSHARED; i++) { Val v; v.kind = (int)(p.p[1 + i] % NKIND); v.v = p.p[5 + i]; v.n = p.p[9 + i]; W->shwant[i] = v; std::optional<Item> n = make(v); W->shared[i].emplace(std::move(*n)); }
  run_threads(p, (int)p.p[0], op);
  for (auto& t : W->s) for (auto& s : t) { if (s.it && s.known) check(*s.it, s.want, "in the end, the item in slot", (int)(&s - t)); s.it.reset(); }
  for (int i = 0; i < NSHARED; i++) { check(*W->shared[i], W->shwant[i], "in the end, shared item", i); W->shared[i].reset(); }
  if (W->box && W->boxknown) check(*W->box, W->boxwant, "in the end, the handed-over item", 0); W->box.reset();
  delete mx;
  sim::check_leaks(since, "when every item is destroyed");
}
int64_t value(Rng& r) { return r.chance(30) ? r.range(-3, 3) : r.chance(50) ? r.range(-200, 300) : (int64_t)r.next() >> r.below(60); }
void gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); p.mask = 0; if (r.chance(40)) p.mask |= 1u << sim::F_ALLOC;
  p.p[0] = r.range(1, 3); for (int i = 0; i < NSHARED; i++) { p.p[1 + i] = r.below(NKIND); p.p[5 + i] = value(r); p.p[9 + i] = r.chance(99) ? size_knob(r, 600) : huge_knob(r); }
  int total = (int)r.range(2, tier ? 60 : 26);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, p.p[0]); o.a = r.below(NSLOT); o.b = r.below(NSLOT); int k = (int)r.below(100);
    if (k < 25) { o.code = MAKE; o.b = r.chance(98) ? size_knob(r, 1100) : huge_knob(r); o.c = r.below(NKIND); o.d = value(r); }
    else if (k < 33) { o.code = HANDLER; o.c = r.below(NKIND); }
    else { static const int c[] = {COPY, COPY, COPYSHARED, MOVE, ASSIGN, ASSIGN, ASSIGNSHARED, MOVEASSIGN, ASSIGNVALUE, SELF, DESTROY, READ, READ, PUT, TAKE, SWAP, BYVALUE}; o.code = c[r.below(sizeof c / sizeof *c)]; o.d = value(r); }
    p.ops.push_back(o); }
}
std::string opname(const Program&, const Op& o) { std::string s = "T" + std::to_string(o.thr) + " " + op_names[o.code % NOPS] + ": " + std::to_string(o.a) + ", " + std::to_string(o.b); if (o.code == MAKE || o.code == HANDLER) s += std::string(" ") + kind_names[o.c % NKIND] + " " + std::to_string(o.d); return s; }
RegisterProp R({"V01", gen, run, 3000000, opname, probes_});
}
