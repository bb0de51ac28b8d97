// What a scenario group offers the driver.
#pragma once
#include "rt.h"
#include <string>
#include <vector>
#include <map>
#include <cstring>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }   // inclusive
  bool chance(int percent) { return below(100) < (uint64_t)percent; }
  template <class T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
};
struct Op { int thr = 0, code = 0; int64_t a = 0, b = 0, c = 0, d = 0; };
struct Program {
  int junk = 0xAA; uint64_t tick = 100; int64_t real0 = 1700000000000000000ll; unsigned mask = 0; bool hold = false;
  int64_t p[16] = {0};
  std::vector<Op> ops;
};
struct Prop {
  const char* id;
  void (*gen)(Rng&, Program&, int tier);
  void (*run)(const Program&);
  uint64_t budget;
  std::string (*opname)(const Program&, const Op&);   // for people
  const char* const* probes;                           // names, null-terminated (index = probe id)
};
extern std::vector<Prop>& props();
struct RegisterProp { RegisterProp(Prop p) { props().push_back(p); } };

inline void common_knobs(Rng& r, Program& p) {
  static const int junk[] = {0x00, 0xAA, 0xFF, -1, 0x01};
  p.junk = junk[r.below(5)];
  static const uint64_t ticks[] = {10, 100, 1000, 20000, 1000000};
  p.tick = ticks[r.below(5)];
}
// heavy-tailed sizes with the usual boundaries
inline int64_t size_knob(Rng& r, int64_t max) {
  static const int64_t b[] = {0, 1, 2, 7, 8, 15, 16, 17, 22, 23, 31, 32, 63, 64, 65, 100, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2047, 4095, 4096, 4097};
  for (int i = 0; i < 20; i++) { int64_t v = r.chance(60) ? (int64_t)r.below(24) : b[r.below(sizeof b / sizeof *b)]; if (v <= max) return v; }
  return 0;
}
// far beyond the usual: where a short counter wraps and a fixed buffer ends
inline int64_t huge_knob(Rng& r) {
  static const int64_t b[] = {4095, 4096, 4097, 5000, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
  return b[r.below(sizeof b / sizeof *b)];
}
