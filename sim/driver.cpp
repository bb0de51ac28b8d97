// Explores seeds in parallel, checks determinism, minimises and replays violations.
#include "scen.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <locale>
#include <cerrno>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using sim::Result;
std::vector<Prop>& props() { static std::vector<Prop> v; return v; }

static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const Prop* g_prop; static int g_tier = 0; static bool g_trace = false;

static uint64_t mixseed(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 1) * 0xD1B54A32D192ED03ull); return r.next(); }
static uint64_t idhash(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }

struct Job { const Program* prog; };
static void run_tramp(void* a) { g_prop->run(*((Job*)a)->prog); }

// runs one simulation in a forked child; the result is in *res
struct Spec { bool gen; uint64_t gseed; const Program* prog; uint64_t sched; bool replay; const std::vector<sim::Ovr>* ovr; const std::vector<sim::Flt>* flt; };
static void child_run(const Spec& sp, Result* res) {
  Program p;
  if (sp.gen) { Rng r(sp.gseed); g_prop->gen(r, p, g_tier); } else p = *sp.prog;
  sim::RunCfg c; c.junk = p.junk; c.tick_ns = p.tick; c.real0_ns = p.real0; c.fault_mask = p.mask; c.sched_seed = sp.sched; c.budget = g_prop->budget; c.trace = g_trace; c.hold = p.hold;
  if (sp.replay) { c.replay = true; c.ovr = sp.ovr->data(); c.novr = sp.ovr->size(); c.flt = sp.flt->data(); c.nflt = sp.flt->size(); }
  sim::rt_fix_heap(); static Job j; static Program keep; keep.~Program(); new (&keep) Program(p); j.prog = &keep;
  alarm(120);
  sim::rt_run(c, run_tramp, &j, res);
}
static void clear_result(Result* r) { size_t head = offsetof(Result, ovr); memset((void*)r, 0, head); }
// On a busy machine the kernel frees the page tables of ended processes later than runs make new ones: let it catch up.
static double memory_left() {
  char b[256]; int fd = open("/proc/meminfo", O_RDONLY | O_CLOEXEC); if (fd < 0) return 1; ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return 1; b[n] = 0;
  const char* t = strstr(b, "MemTotal:"); const char* a = strstr(b, "MemAvailable:"); if (!t || !a) return 1;
  double total = strtod(t + 9, nullptr); return total > 0 ? strtod(a + 13, nullptr) / total : 1;
}
static void spare_memory() {
  static unsigned n; if (++n % 32) return;
  double m = memory_left(); if (m >= 0.7) return;
  if (m >= 0.5) { usleep(5000); return; }
  for (int i = 0; i < 100 && m < 0.6; i++) { usleep(20000); m = memory_left(); }
}
static bool run_one(const Spec& sp, Result* res) {     // false: infrastructure error
  spare_memory();
  int st = 0;
  for (int tries = 0;; tries++) {
    clear_result(res);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0 && tries < 50) { usleep(200000); continue; }
    if (pid < 0) { perror("fork"); return false; }
    if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); child_run(sp, res); _exit(3); }
    st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (res->status == 0 && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && tries < 5) { usleep(500000); continue; }   // memory ran out, not the run's doing
    break;
  }
  if (res->status == 0) {
    res->status = 3;
    snprintf(res->msg, sizeof res->msg, "the simulation process ended without a result (wait status %x)", st);
  }
  return res->status == 1 || res->status == 2;
}
static Result* new_result() {
  void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Result*)p;
}
struct WorkerStats { uint64_t runs, viol, events, switches, preempts, obligations, detchecks, nontrivial, maxevents; int64_t simns; uint64_t nfault[sim::F_COUNT], nopp[sim::F_COUNT], runs_with_fault, probes[sim::NPROBE]; int infra; char msg[2000]; uint64_t badidx; };
struct Ctl { volatile int64_t first; volatile int infra; };

// ---------------------------------------------------------------- replay files
static void put_program(std::ostream& o, const Program& p) {
  o << "junk " << p.junk << "\ntick " << p.tick << "\nreal0 " << p.real0 << "\nmask " << p.mask << "\nparams";
  for (auto v : p.p) o << ' ' << v;
  o << '\n';
  for (auto& x : p.ops) { o << "op " << x.thr << ' ' << x.code << ' ' << x.a << ' ' << x.b << ' ' << x.c << ' ' << x.d; if (g_prop->opname) o << "   # " << g_prop->opname(p, x); o << '\n'; }
}
struct Replay { std::string prop, cls; Program prog; std::vector<sim::Ovr> ovr; std::vector<sim::Flt> flt; uint64_t hash = 0; int tier = 0; };
static bool read_replay(const char* f, Replay& r) {
  std::ifstream in(f); if (!in) return false; std::string line;
  while (std::getline(in, line)) {
    auto h = line.find('#'); if (h != std::string::npos) line.resize(h);
    std::istringstream is(line); std::string k; if (!(is >> k)) continue;
    if (k == "property") is >> r.prop; else if (k == "class") is >> r.cls; else if (k == "junk") is >> r.prog.junk; else if (k == "tick") is >> r.prog.tick;
    else if (k == "real0") is >> r.prog.real0; else if (k == "mask") is >> r.prog.mask; else if (k == "params") { for (auto& v : r.prog.p) is >> v; }
    else if (k == "op") { Op o; is >> o.thr >> o.code >> o.a >> o.b >> o.c >> o.d; r.prog.ops.push_back(o); }
    else if (k == "run") { sim::Ovr o{}; std::string w; is >> w >> o.tid >> w >> o.ev; r.ovr.push_back(o); }
    else if (k == "fault") { std::string n, w; sim::Flt x{}; is >> n >> w >> x.nth >> w >> x.val; for (unsigned i = 0; i < sim::F_COUNT; i++) if (n == sim::fault_names[i]) x.kind = i; r.flt.push_back(x); }
    else if (k == "hash") is >> std::hex >> r.hash >> std::dec; else if (k == "tier") is >> r.tier;
  }
  return true;
}
static std::string g_self;
static std::string symbolise(const std::string& m) {
  std::string out; size_t i = 0;
  while (i < m.size()) {
    if (m.compare(i, 4, "{pc:") == 0) {
      size_t e = m.find('}', i); std::string pc = m.substr(i + 4, e - i - 4); i = e + 1;
      unsigned long a = strtoul(pc.c_str(), 0, 16) - 1; char cmd[700]; snprintf(cmd, sizeof cmd, "addr2line -e '%s' -s -f -C 0x%lx 2>/dev/null", g_self.c_str(), a);
      std::string fn, loc; if (FILE* f = popen(cmd, "r")) { char b[1500]; if (fgets(b, sizeof b, f)) fn = b; if (fgets(b, sizeof b, f)) loc = b; pclose(f); }
      while (!fn.empty() && fn.back() == '\n') fn.pop_back(); while (!loc.empty() && loc.back() == '\n') loc.pop_back();
      if (fn.size() > 90) fn = fn.substr(0, 87) + "..."; auto sp = loc.find(" ("); if (sp != std::string::npos) loc.resize(sp);
      out += fn + " " + loc;
    } else out += m[i++];
  }
  return out;
}
static std::string backtrace_text(const Result* r) {
  extern char __executable_start; std::string s;
  for (unsigned i = 0; i < r->nbt; i++) { uintptr_t a = (uintptr_t)r->bt[i]; extern char etext; if (a < (uintptr_t)&__executable_start || a >= (uintptr_t)&etext) continue;
    char b[40]; snprintf(b, sizeof b, "{pc:%lx}", (unsigned long)(a - (uintptr_t)&__executable_start)); std::string t = symbolise(b);
    if (t.find("rt.cpp") != std::string::npos) continue; s += "#   " + t + "\n"; }
  return s;
}
static std::string oneline(std::string s) { for (auto& c : s) if (c == '\n') c = ' '; return s; }
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

// ---------------------------------------------------------------- minimisation
struct Found { Program prog; std::vector<sim::Ovr> ovr; std::vector<sim::Flt> flt; std::string cls, msg; uint64_t hash = 0; };
static void take(Found& f, const Result* r) { f.ovr.assign(r->ovr, r->ovr + r->novr); f.flt.assign(r->flt, r->flt + r->nflt); f.cls = r->cls; f.msg = r->msg; f.hash = r->hash; }
static bool replay_try(const Program& p, const std::vector<sim::Ovr>& o, const std::vector<sim::Flt>& f, const std::string& cls, Result* r) {
  return run_one(Spec{false, 0, &p, 0, true, &o, &f}, r) && r->status == 2 && cls == r->cls;
}
static void minimise(Found& f, Result* r, double limit) {
  double t0 = wall();
  auto left = [&] { return limit - (wall() - t0); };
  // 1. operations, looking for a new schedule each time
  size_t chunk = std::max<size_t>(1, f.prog.ops.size() / 2);
  while (left() > limit * 0.4 && !f.prog.ops.empty()) {
    bool any = false;
    for (size_t i = 0; i < f.prog.ops.size() && left() > limit * 0.4;) {
      Program c = f.prog; size_t n = std::min(chunk, c.ops.size() - i);
      c.ops.erase(c.ops.begin() + i, c.ops.begin() + i + n);
      bool ok = replay_try(c, f.ovr, f.flt, f.cls, r);
      if (ok) { Found g = f; g.prog = c; g.msg = r->msg; g.hash = r->hash; f = g; any = true; continue; }
      int tries = chunk > 1 ? 25 : 40;
      for (int s = 1; s <= tries && !ok && left() > limit * 0.4; s++) {
        if (run_one(Spec{false, 0, &c, (uint64_t)s * 7919, false, nullptr, nullptr}, r) && r->status == 2 && f.cls == r->cls) { ok = true; f.prog = c; take(f, r); }
      }
      if (ok) any = true; else i += n;
    }
    if (chunk == 1) { if (!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
  }
  // 2. faults and preemptions
  auto shrink = [&](auto& list) {
    size_t ch = std::max<size_t>(1, list.size() / 2);
    while (!list.empty() && left() > 0) {
      bool any = false;
      for (size_t i = 0; i < list.size() && left() > 0;) {
        auto save = list; size_t n = std::min(ch, list.size() - i);
        list.erase(list.begin() + i, list.begin() + i + n);
        if (replay_try(f.prog, f.ovr, f.flt, f.cls, r)) { any = true; f.msg = r->msg; f.hash = r->hash; } else { list = save; i += n; }
      }
      if (ch == 1) { if (!any) break; } else ch /= 2;
    }
  };
  shrink(f.flt); shrink(f.ovr);
  // 3. simpler argument values
  for (auto& o : f.prog.ops) for (int64_t* v : {&o.a, &o.b, &o.c, &o.d}) {
    if (left() < 0) break;
    for (int64_t nv : {(int64_t)0, (int64_t)1, *v / 2}) { if (*v == nv || *v == 0 || (*v == 1 && nv != 0)) continue; int64_t old = *v; *v = nv;
      if (replay_try(f.prog, f.ovr, f.flt, f.cls, r)) { f.msg = r->msg; f.hash = r->hash; break; } *v = old; }
  }
}

int main(int argc, char** argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) == -1 || getenv("SIM_REEXEC")) { fprintf(stderr, "cannot switch off address randomisation\n"); }
    else { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); perror("execv"); return 2; }
  }
  unsetenv("SIM_REEXEC"); setenv("LC_ALL", "C", 1); unsetenv("TZ");
  { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n > 0) g_self.assign(b, n); }
  std::string prop, out = ".", replay; uint64_t seed = 1, runs = 1000; double cap = 20, mincap = 25; int workers = 8; int64_t one = -1; bool list = false, nomin = false; uint64_t detevery = 40;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto v = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") prop = v(); else if (a == "--seed") seed = strtoull(v(), 0, 10); else if (a == "--runs") runs = strtoull(v(), 0, 10); else if (a == "--time") cap = atof(v());
    else if (a == "--workers") workers = atoi(v()); else if (a == "--out") out = v(); else if (a == "--replay") replay = v(); else if (a == "--one") one = atoll(v());
    else if (a == "--tier") g_tier = atoi(v()); else if (a == "--trace") g_trace = true; else if (a == "--list") list = true; else if (a == "--mintime") mincap = atof(v()); else if (a == "--nomin") nomin = true; else if (a == "--detevery") detevery = strtoull(v(), 0, 10); }
  if (list) { for (auto& p : props()) puts(p.id); return 0; }
  sim::rt_init();
  { // the C++ library's lazily made caches: always there before the first run
    std::ostringstream o; o << 1 << ' ' << 2ul << ' ' << 1.5 << ' ' << true << ' ' << (void*)0 << std::hex << 3 << std::endl; std::istringstream i("1 2.5 x"); int a; double b; std::string c; i >> a >> b >> c; std::locale l; (void)(l == std::locale::classic()); time_t z = 0; struct tm x; localtime_r(&z, &x); }
  Replay rp;
  if (!replay.empty()) { if (!read_replay(replay.c_str(), rp)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; } prop = rp.prop; g_tier = rp.tier; }
  for (auto& p : props()) if (prop == p.id) g_prop = &p;
  if (!g_prop) { fprintf(stderr, "no such property here: %s\n", prop.c_str()); return 2; }
  Result* res = new_result();
  uint64_t base = mixseed(seed, idhash(g_prop->id));

  if (!replay.empty()) {
    if (!run_one(Spec{false, 0, &rp.prog, 0, true, &rp.ovr, &rp.flt}, res)) { fprintf(stderr, "replay: infrastructure error: %s\n", res->msg); return 2; }
    if (res->status == 1) { printf("replay: no violation (hash %016lx)\n", (unsigned long)res->hash); return 3; }
    bool same = rp.cls == res->cls && rp.hash == res->hash;
    printf("replay: %s: %s\n%s", res->cls, symbolise(res->msg).c_str(), backtrace_text(res).c_str());
    printf("replay: hash %016lx, %s the recorded one\n", (unsigned long)res->hash, same ? "equal to" : "DIFFERENT from");
    return same ? 1 : 4;
  }
  if (one >= 0) {
    Program p; Rng r(mixseed(base, one)); g_prop->gen(r, p, g_tier); put_program(std::cout, p); std::cout.flush();
    Spec sp{true, mixseed(base, one), nullptr, mixseed(base, one) ^ 0x5555, false, nullptr, nullptr};
    run_one(sp, res);
    printf("status %d %s %s\nhash %016lx events %lu switches %lu preempts %lu threads %u faults %u obligations %lu simtime %.6f\n", res->status, res->cls, symbolise(res->msg).c_str(), (unsigned long)res->hash, (unsigned long)res->events, (unsigned long)res->switches, (unsigned long)res->preempts, res->nthreads, res->nflt, (unsigned long)res->obligations, res->simns * 1e-9);
    printf("%s", backtrace_text(res).c_str());
    return res->status == 1 ? 0 : 1;
  }
  // ---------------- exploration
  double t0 = wall();
  auto* st = (WorkerStats*)mmap(nullptr, sizeof(WorkerStats) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto* ctl = (Ctl*)mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto* hashes = (uint64_t*)mmap(nullptr, sizeof(uint64_t) * runs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  auto* nontriv = (uint8_t*)mmap(nullptr, runs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ctl->first = INT64_MAX;
  cpu_set_t avail; CPU_ZERO(&avail); sched_getaffinity(0, sizeof avail, &avail); std::vector<int> cpus; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &avail)) cpus.push_back(i);
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpus[w % cpus.size()], &s); sched_setaffinity(0, sizeof s, &s);
      Result* r = new_result(); WorkerStats& S = st[w];
      for (uint64_t i = w; i < runs; i += workers) {
        if ((int64_t)i > ctl->first || ctl->infra || wall() - t0 > cap) break;
        uint64_t gs = mixseed(base, i);
        Spec sp{true, gs, nullptr, gs ^ 0x5555, false, nullptr, nullptr};
        if (!run_one(sp, r)) { S.infra = 1; snprintf(S.msg, sizeof S.msg, "run %lu: %.1800s", (unsigned long)i, r->msg); S.badidx = i; ctl->infra = 1; break; }
        S.runs++; S.events += r->events; S.switches += r->switches; S.preempts += r->preempts; S.obligations += r->obligations; S.simns += r->simns; if (r->events > S.maxevents) S.maxevents = r->events;
        uint64_t nf = 0; for (unsigned k = 0; k < sim::F_COUNT; k++) { S.nfault[k] += r->nfault[k]; S.nopp[k] += r->nopp[k]; nf += r->nfault[k]; }
        if (nf) S.runs_with_fault++;
        for (int k = 0; k < sim::NPROBE; k++) S.probes[k] += r->probes[k];
        bool nt = (r->preempts || nf || r->switches > 2) && r->obligations; S.nontrivial += nt; hashes[i] = r->hash ? r->hash : 1; nontriv[i] = nt;
        if (r->status == 2) {
          S.viol++;
          int64_t cur = ctl->first; while ((int64_t)i < cur && !__sync_bool_compare_and_swap(&ctl->first, cur, (int64_t)i)) cur = ctl->first;
          break;
        }
        if (i / workers % detevery == 0) {          // determinism and replay fidelity on a sample
          uint64_t h = r->hash, e = r->events; S.detchecks++;
          std::vector<sim::Ovr> o(r->ovr, r->ovr + r->novr); std::vector<sim::Flt> f(r->flt, r->flt + r->nflt);
          bool ok = run_one(sp, r) && r->hash == h && r->events == e;
          Program p; { Rng g(gs); g_prop->gen(g, p, g_tier); }
          bool ok2 = ok && run_one(Spec{false, 0, &p, 0, true, &o, &f}, r) && r->hash == h && r->events == e && r->status == 1;
          if (!ok2) { S.infra = 1; snprintf(S.msg, sizeof S.msg, "run %lu is not deterministic (%s): hash %016lx events %lu, again %016lx events %lu status %d %s", (unsigned long)i, ok ? "replay" : "second run", (unsigned long)h, (unsigned long)e, (unsigned long)r->hash, (unsigned long)r->events, r->status, r->msg); ctl->infra = 1; break; }
        }
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (auto p : pids) { int s; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0) && !(WIFSIGNALED(s) && WTERMSIG(s) == SIGKILL)) ctl->infra = 1; }
  double texp = wall() - t0;
  WorkerStats T{}; for (int w = 0; w < workers; w++) { auto& s = st[w]; T.runs += s.runs; T.viol += s.viol; T.events += s.events; T.switches += s.switches; T.preempts += s.preempts; T.obligations += s.obligations; T.detchecks += s.detchecks; T.nontrivial += s.nontrivial; T.simns += s.simns; T.runs_with_fault += s.runs_with_fault; T.maxevents = std::max(T.maxevents, s.maxevents);
    for (unsigned k = 0; k < sim::F_COUNT; k++) { T.nfault[k] += s.nfault[k]; T.nopp[k] += s.nopp[k]; } for (int k = 0; k < sim::NPROBE; k++) T.probes[k] += s.probes[k]; }
  int rc = 0; std::string vmsg, vcls, vpath;
  if (ctl->first != INT64_MAX) {
    int64_t i = ctl->first; uint64_t gs = mixseed(base, i);
    Spec sp{true, gs, nullptr, gs ^ 0x5555, false, nullptr, nullptr};
    Found f; { Rng g(gs); g_prop->gen(g, f.prog, g_tier); }
    if (!run_one(sp, res) || res->status != 2) { fprintf(stderr, "violation of run %ld did not repeat: %s\n", (long)i, res->msg); return 2; }
    take(f, res);
    if (!replay_try(f.prog, f.ovr, f.flt, f.cls, res) || res->hash != f.hash) { fprintf(stderr, "violation of run %ld (%s: %s) does not replay: got %s %s\n", (long)i, f.cls.c_str(), f.msg.c_str(), res->cls, res->msg); return 2; }
    size_t ops0 = f.prog.ops.size(), ovr0 = f.ovr.size(), flt0 = f.flt.size();
    Found orig = f;
    if (!nomin) minimise(f, res, mincap);
    if (!replay_try(f.prog, f.ovr, f.flt, f.cls, res)) { f = orig; replay_try(f.prog, f.ovr, f.flt, f.cls, res); }
    f.hash = res->hash; f.msg = res->msg;
    vcls = f.cls; vmsg = symbolise(f.msg);
    char pth[600]; snprintf(pth, sizeof pth, "%s/%s-seed%lu-run%ld.replay", out.c_str(), g_prop->id, (unsigned long)seed, (long)i); vpath = pth;
    std::ofstream o(vpath);
    o << "# " << oneline(vmsg) << "\n" << backtrace_text(res) << "# found as run " << i << " of VERIF_SEED " << seed << "; minimised from " << ops0 << " operations, " << ovr0 << " preemptions, " << flt0 << " faults to " << f.prog.ops.size() << ", " << f.ovr.size() << ", " << f.flt.size() << "\n";
    o << "property " << g_prop->id << "\ntier " << g_tier << "\nclass " << f.cls << "\n"; put_program(o, f.prog);
    for (auto& x : f.ovr) o << "run thread " << x.tid << " at-event " << x.ev << "\n";
    for (auto& x : f.flt) o << "fault " << sim::fault_names[x.kind] << " opportunity " << x.nth << " value " << x.val << "\n";
    char hb[32]; snprintf(hb, sizeof hb, "%016lx", (unsigned long)f.hash); o << "hash " << hb << "\n"; o.close();
    // a fresh process must reproduce it exactly
    std::string cmd = "'" + g_self + "' --replay '" + vpath + "' >/dev/null 2>&1"; int s = system(cmd.c_str());
    if (!WIFEXITED(s) || WEXITSTATUS(s) != 1) { fprintf(stderr, "replay of %s in a fresh process does not reproduce (%x): %s %s\n", vpath.c_str(), s, vcls.c_str(), vmsg.c_str()); return 2; }
    rc = 1;
  } else if (ctl->infra) {
    for (int w = 0; w < workers; w++) if (st[w].infra) fprintf(stderr, "infrastructure error: %s\n", st[w].msg);
    return 2;
  }
  std::vector<uint64_t> hs; std::set<int> smp; for (uint64_t i = 0; i < runs; i++) if (hashes[i] && nontriv[i]) hs.push_back(hashes[i]);
  std::sort(hs.begin(), hs.end()); uint64_t distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
  std::ostringstream js;
  js << "{\"property\":" << jstr(g_prop->id) << ",\"seed\":" << seed << ",\"runs\":" << T.runs << ",\"violations\":" << (rc ? 1 : 0) << ",\"seconds\":" << texp
     << ",\"events\":" << T.events << ",\"max_events\":" << T.maxevents << ",\"switches\":" << T.switches << ",\"preemptions\":" << T.preempts << ",\"obligations\":" << T.obligations << ",\"simulated_seconds\":" << T.simns * 1e-9
     << ",\"distinct\":" << distinct << ",\"nontrivial\":" << T.nontrivial << ",\"runs_with_fault\":" << T.runs_with_fault << ",\"determinism_checks\":" << T.detchecks << ",\"faults\":{";
  bool first = true; for (unsigned k = 0; k < sim::F_COUNT; k++) if (T.nopp[k] || T.nfault[k]) { js << (first ? "" : ",") << jstr(sim::fault_names[k]) << ":{\"injected\":" << T.nfault[k] << ",\"opportunities\":" << T.nopp[k] << "}"; first = false; }
  js << "},\"probes\":{"; first = true; if (g_prop->probes) for (int k = 0; g_prop->probes[k]; k++) { js << (first ? "" : ",") << jstr(g_prop->probes[k]) << ":" << T.probes[k]; first = false; }
  js << "},\"samples\":["; 
  for (int k = 0; k < 3; k++) { uint64_t i = k * 7; if (i >= runs) break; Program p; Rng g(mixseed(base, i)); g_prop->gen(g, p, g_tier); std::ostringstream o; put_program(o, p); std::string t = o.str(); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; char hb[40]; snprintf(hb, sizeof hb, "hash %016lx\n", (unsigned long)hashes[i]); js << (k ? "," : "") << jstr("run " + std::to_string(i) + " " + hb + t); }
  js << "]";
  if (rc) js << ",\"class\":" << jstr(vcls) << ",\"message\":" << jstr(vmsg) << ",\"replay\":" << jstr(vpath);
  js << "}";
  puts(js.str().c_str());
  return rc;
}
