// N02: statements above the compile-time limit.
#include "limits.h"
void (*limit_run[N_LIMITS])(const Program&);
namespace {
const char* const op_names[] = {"statement", "category", "level", "pause"};
const char* const kinds[] = {"LOG(level)", "LOG_<level>", "LOG(computed level)", "LOG_BLOCK(level)", "LOG_BLOCK_<level>", "LOG_BLOCK(a ? level : other)", "LOG(level) as the branch of an if"};
const char* const limits[N_LIMITS] = {"LLDISABLE", "LLCRIT", "LLWARN", "LLDEBUG"};
void run(const Program& p) { limit_run[p.p[1] % N_LIMITS](p); }
void gen(Rng& r, Program& p, int tier) {
  common_knobs(r, p); if (p.tick > 20000) p.tick = 20000; p.mask = 1u << sim::F_SPURIOUS; p.p[0] = r.range(1, 3); p.p[1] = r.below(N_LIMITS); p.p[2] = r.chance(20); if (p.p[2]) p.mask |= 1u << sim::F_ALLOC;
  int total = (int)r.range(1, tier ? 40 : 20);
  for (int i = 0; i < total; i++) { Op o; o.thr = (int)r.range(1, p.p[0]); int k = (int)r.below(100);
    if (k < 68) { o.code = LIM_STMT; o.a = r.below(LIM_NKINDS); o.b = r.below(6); o.c = r.below(2); }
    else if (k < 82) { o.code = LIM_CATEGORY; o.a = r.below(4); }
    else if (k < 92) { o.code = LIM_SETLEVEL; o.a = r.chance(50) ? 5 : r.below(6); }
    else { o.code = LIM_PAUSE; o.a = pause_knob(r); }
    p.ops.push_back(o); }
}
std::string opname(const Program& p, const Op& o) {
  std::string s = "T" + std::to_string(o.thr) + " " + op_names[o.code % LIM_NOPS];
  if (o.code == LIM_STMT) s += std::string(" ") + kinds[o.a % LIM_NKINDS] + " level " + std::to_string(o.b % 6) + " (limit " + limits[p.p[1] % N_LIMITS] + ")"; else s += " " + std::to_string(o.a);
  return s;
}
const char* const probes_[] = {"statements", "category_changes", "level_changes", "pauses", "statements_above_the_limit", "statements_above_the_level_in_force", "messages", "limit_LLDISABLE", "limit_LLCRIT", "limit_LLWARN", "limit_LLDEBUG", nullptr};
RegisterProp R({"N02", gen, run, 3000000, opname, probes_});
}
