// Deterministic simulator run-time.  Compiled WITHOUT instrumentation, with -fno-builtin.
// Uses no standard containers: nothing here may share a template instantiation with the
// instrumented objects.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "rt.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <new>
#include <cxxabi.h>
#include <typeinfo>
#include <fcntl.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)

namespace sim {

const char* const fault_names[F_COUNT] = {
  "alloc_failure", "weak_cas_spurious_failure", "spurious_wakeup", "thread_creation_failure",
  "stream_error_state", "stream_exception", "clock_jump", "interrupted_sleep", "stalled_thread",
  "report_open_failure", "report_write_error", "report_short_write", "report_close_failure",
  "element_copy_exception", "operand_exception", "constructor_exception", "short_read",
  "read_error", "listener_exception", "signal_wakes_other_waiter", "early_wake" };

// ------------------------------------------------------------------ memory layout
static const uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 30;
static const uintptr_t RUN0 = ARENA + (256u << 20);       // run allocations start here
static const uintptr_t STACKS = 0x110000000000ull, STACK_SZ = 8u << 20;
enum { MAXT = 128 };
static const uintptr_t STATE = 0x120000000000ull;         // 1 byte per 8 of arena
static const uintptr_t CELLS_A = 0x130000000000ull;       // 64 bytes per 8 of arena
static const uintptr_t CELLS_S = 0x140000000000ull;
static const uintptr_t CELLS_D = 0x150000000000ull;
static const uintptr_t RTMEM = 0x160000000000ull, RTMEM_SZ = 1ull << 30;

extern "C" char __executable_start, etext, __data_start, _end;
static uintptr_t x_text0, x_text1, x_data0, x_data1;

struct Blk {               // 32-byte header before every block
  uint64_t magic; uint64_t size; void* pc; uint32_t seqlo; uint8_t flags; uint8_t tid; uint16_t off;
};
static const uint64_t MAGIC = 0xB10CB10CA110CA7Eull;
enum { B_LIVE = 1, B_CODE = 2, B_NEW = 4, B_ARR = 8, B_FREED = 16 };

static uintptr_t g_bump = 0, g_dbump = 0;       // next free addresses: simulated run, driver
static uintptr_t g_rtbump = RTMEM;
static bool g_mapped = false;
static int g_junk = 0;
static uint64_t g_live_blocks, g_live_bytes;
static uint32_t g_allocseq;

struct Slot { uint32_t ep; uint32_t pc; uint8_t tid1; uint8_t mask; uint8_t fl; uint8_t pad; };
enum { NSLOT = 5 };
struct Cell { Slot s[NSLOT]; uint32_t pad; };
static_assert(sizeof(Cell) == 64, "");
enum { A_W = 1, A_ATOMIC = 2, A_FREE = 4 };

// ------------------------------------------------------------------ threads
enum { T_UNUSED, T_RUN, T_BLOCK, T_DONE };
enum WaitKind { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_GUARD, W_ONCE, W_RW, W_FUTEX, W_IDLE };

struct Thread {
  int tid; volatile int fut; int st; int quiet; int nofault; unsigned fmask;
  void* (*fn)(void*); void* arg; pthread_t real; bool has_real, detached, joined;
  uint32_t clk[MAXT], relf[MAXT], acqp[MAXT]; bool has_relf, has_acqp;
  const void* wobj; int wkind; uint64_t wake_ns; bool timed; bool timedout; uint64_t wseq;
  uint32_t noprog; const void* np_addr; uint64_t np_val;
  uint64_t run_start; int64_t prio; uint64_t nyield, nev0, nevacc; void* retval;
  const void* spin_np_addr; void* sigstk;
};
static Thread g_thr[MAXT];
static int g_nthr;
static bool g_reuse;                // new threads take the place of joined ones
static Thread* g_cur;
static volatile int g_on;          // instrumentation enabled for the running thread
static bool g_active;
static uint64_t g_ev, g_next, g_hash, g_stamp, g_wseq;
static Thread* g_dead;
static volatile int g_done;
static Result* R;
static RunCfg C;
static uint32_t g_oi;              // replay override index
static bool g_fair; static uint64_t g_fair_since;
static unsigned g_fmask;
static int64_t g_slept;            // ns of simulated time beyond events
static int64_t g_realoff;
static void (*g_fn)(void*);
static bool g_lt_hook = true;
static uint64_t g_fq = 20000;      // longest uninterrupted stretch while others can run
// Fair stretches differ in length: with a fixed one a loop of that very period would always be interrupted at the same place.
static inline uint64_t fairq(uint64_t start) { return 180 + (start * 0x9E3779B97F4A7C15ull >> 56); }

// real functions
static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*r_join)(pthread_t, void**);
static int (*r_detach)(pthread_t);
static int (*r_nanosleep)(const timespec*, timespec*);
static int (*r_clock_gettime)(clockid_t, timespec*);
static struct tm* (*r_localtime_r)(const time_t*, struct tm*);
static struct tm* (*r_gmtime_r)(const time_t*, struct tm*);
static FILE* (*r_fopen)(const char*, const char*);
static int (*r_fclose)(FILE*);
static ssize_t (*r_write)(int, const void*, size_t);
static ssize_t (*r_writev)(int, const struct iovec*, int);
static pthread_key_t g_exitkey;

static inline void raw_set(void* d, int c, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }
static inline void raw_copy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline long raw_sys(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f; long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
static inline bool in_text(const void* p) { uintptr_t a = (uintptr_t)p; return a >= x_text0 && a < x_text1; }

// ------------------------------------------------------------------ PRNG
struct Prng { uint64_t s;
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(uint32_t ppm) { return next() % 1000000 < ppm; }
};
static Prng g_rng, g_frng;
static uint64_t g_strat_at;
enum { S_DEFAULT, S_WALK, S_PCT, S_RR, S_STALL, S_SYNC, S_N };
static int g_strat; static uint32_t g_pppm, g_syncppm; static uint64_t g_rrq; static int g_stall_tid;
static uint64_t g_stall_a, g_stall_b; enum { HOLD_MAX = 1 << 17 };      // a thread is not held for longer: the others may never stop
static int g_hold_op; static uint32_t g_hold_sync; static bool g_hold_atsync; static bool g_stall_hit, g_hold; static int g_holds;   // g_hold: whoever runs at g_stall_a is held until no other can run
static uint64_t g_chg[16]; static int g_nchg, g_ichg; static int64_t g_lowprio;
struct FK { bool en; bool oneshot; uint32_t ppm; uint32_t nth; uint32_t opp; uint32_t ri; };
static FK g_fk[F_COUNT];

// ------------------------------------------------------------------ failure reporting
static inline void set_on() { g_on = g_active && g_cur && !g_cur->quiet; }
[[noreturn]] static void finish(int status, const char* cls) {
  g_on = 0; g_active = false;
  R->hash = g_hash; R->events = g_ev; R->simns = (int64_t)(g_slept + (int64_t)(g_ev * C.tick_ns));
  R->nthreads = g_nthr;
  if (cls) { strncpy(R->cls, cls, sizeof R->cls - 1); }
  if (status == 2) R->nbt = backtrace(R->bt, MAX_BT);
  __sync_synchronize();
  R->status = status;
  raw_sys(SYS_exit_group, status == 1 ? 0 : status == 2 ? 1 : 2, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
static void vset(const char* fmt, va_list ap) { vsnprintf(R->msg, sizeof R->msg, fmt, ap); }
void fail(const char* cls, const char* fmt, ...) {
  g_on = 0; va_list ap; va_start(ap, fmt); vset(fmt, ap); va_end(ap); finish(2, cls);
}
void infra(const char* fmt, ...) {
  g_on = 0; va_list ap; va_start(ap, fmt);
  if (R) { vset(fmt, ap); va_end(ap); finish(3, "infra"); }
  vfprintf(stderr, fmt, ap); fputc('\n', stderr); va_end(ap); _exit(2);
}
static void* rt_alloc(size_t n) {
  n = (n + 15) & ~15ull; uintptr_t p = g_rtbump; g_rtbump += n;
  if (g_rtbump > RTMEM + RTMEM_SZ) infra("rt memory exhausted");
  return (void*)p;
}

// ------------------------------------------------------------------ futex baton
static void fut_wake(volatile int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); raw_sys(SYS_futex, (long)f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void fut_wait(volatile int* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) raw_sys(SYS_futex, (long)f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static inline int64_t now_mono() { return 1000000000000ll + g_slept + (int64_t)(g_ev * C.tick_ns); }

static inline void mix(uint64_t v) { g_hash = (g_hash ^ v) * 0x100000001b3ull; g_hash ^= g_hash >> 29; }

static bool eligible(Thread* t) { return t->st == T_RUN; }
static int count_runnable() { int n = 0; for (int i = 0; i < g_nthr; i++) n += g_thr[i].st == T_RUN; return n; }
static Thread* rr_next(int from) {
  for (int k = 1; k <= g_nthr; k++) { Thread* t = &g_thr[(from + k) % g_nthr]; if (t->st == T_RUN) return t; }
  return nullptr;
}
static bool stalled(int tid) {
  return g_strat == S_STALL && tid == g_stall_tid && g_ev >= g_stall_a && g_ev < g_stall_b;
}
static Thread* explore_pick(Thread* not_this) {
  if (g_strat == S_PCT) {
    Thread* best = nullptr;
    for (int i = 0; i < g_nthr; i++) { Thread* t = &g_thr[i]; if (t->st == T_RUN && (!best || t->prio > best->prio)) best = t; }
    return best;
  }
  Thread* c[MAXT]; int n = 0; bool excl = false;
  for (int i = 0; i < g_nthr; i++) { Thread* t = &g_thr[i];
    if (t->st != T_RUN) continue;
    if (stalled(i)) { excl = true; continue; }
    if (t == not_this) continue;
    c[n++] = t; }
  if (!n) {
    if (excl && g_hold && g_holds > 0) { g_holds--; g_stall_tid = -1; if (g_hold_atsync) { g_stall_a = ~0ull; g_hold_sync = 1 + (uint32_t)g_rng.below(1ull << (1 + g_rng.below(8))); } else g_stall_a = g_ev + 1 + g_rng.below(1ull << (3 + g_rng.below(11))); }
    if (not_this && not_this->st == T_RUN) return not_this;
    for (int i = 0; i < g_nthr; i++) if (g_thr[i].st == T_RUN) return &g_thr[i];
    return nullptr;
  }
  if (excl && !g_stall_hit) { g_stall_hit = true; R->nfault[F_STALL]++; }
  if (g_strat == S_RR || g_strat == S_DEFAULT) { int from = not_this ? not_this->tid : (g_cur ? g_cur->tid : 0);
    Thread* t = rr_next(from); return t ? t : c[0]; }
  return c[g_rng.below(n)];
}
static void strat_next() {       // when does the strategy act next?
  uint64_t n = ~0ull;
  if (C.replay) { while (g_oi < C.novr && C.ovr[g_oi].ev <= g_ev) g_oi++; if (g_oi < C.novr) n = C.ovr[g_oi].ev; }
  else if (!g_fair) switch (g_strat) {
    case S_WALK: case S_STALL: case S_SYNC: {
      if (g_pppm) { // geometric
        uint64_t u = g_rng.next(); double x = ((u >> 11) + 1) * (1.0 / 9007199254740993.0);
        // -ln(x)/p without libm: use log2 via builtin on exponent approximations
        double l = 0, y = x; while (y < 0.5) { y *= 2; l += 0.6931471805599453; }
        double z = (1 - y); double s = 0, zp = z; for (int k = 1; k < 24; k++) { s += zp / k; zp *= z; }
        l += s; n = g_ev + 1 + (uint64_t)(l * 1e6 / g_pppm);
      }
      if (g_strat == S_STALL && g_ev < g_stall_a && n > g_stall_a) n = g_stall_a;
      break; }
    case S_PCT: if (g_ichg < g_nchg) n = g_chg[g_ichg] > g_ev ? g_chg[g_ichg] : g_ev + 1; break;
    case S_RR: n = g_cur->run_start + g_rrq; break;
  }
  g_strat_at = n;
  // timers
  for (int i = 0; i < g_nthr; i++) { Thread* t = &g_thr[i];
    if (t->st == T_BLOCK && t->timed) { int64_t d = (int64_t)t->wake_ns - now_mono();
      uint64_t e = d <= 0 ? g_ev + 1 : C.tick_ns ? g_ev + ((uint64_t)d + C.tick_ns - 1) / C.tick_ns : ~0ull; if (e < n) n = e; } }
  uint64_t q = g_fair ? fairq(g_cur->run_start) : g_fq; uint64_t fe = g_cur->run_start + q; if (fe <= g_ev) fe = g_ev + 1;
  if (fe < n) n = fe;
  if (C.budget + g_fair_since < n) n = C.budget + g_fair_since;
  if (n <= g_ev) n = g_ev + 1;
  g_next = n;
}
static void record_ovr(uint64_t ev, int tid) {
  if (R->novr >= MAX_OVR) { g_strat = S_DEFAULT; return; }
  R->ovr[R->novr++] = Ovr{ev, tid, 0};
}
static void reap() {
  if (g_dead) { Thread* d = g_dead; g_dead = nullptr; int s = g_on; g_on = 0; r_join(d->real, nullptr); g_on = s; }
}
static void switch_to(Thread* t) {
  Thread* me = g_cur;
  if (t == me) { strat_next(); return; }        // simulated time may have moved
  R->switches++;
  if (C.trace) fprintf(stderr, "[%llu] T%d -> T%d\n", (unsigned long long)g_ev, me->tid, t->tid);
  me->nevacc += g_ev - me->nev0;
  g_on = 0;
  g_cur = t; t->run_start = g_ev; t->nev0 = g_ev; t->noprog = 0;
  strat_next();
  fut_wake(&t->fut);
  fut_wait(&me->fut);
  reap();
  set_on();
}
static bool fire_timers() {
  bool any = false; int64_t now = now_mono();
  for (int i = 0; i < g_nthr; i++) { Thread* t = &g_thr[i];
    if (t->st == T_BLOCK && t->timed && (int64_t)t->wake_ns <= now) { t->st = T_RUN; t->timedout = true; t->timed = false; any = true; } }
  return any;
}
static void describe_blocked(char* buf, size_t n) {
  static const char* wk[] = {"?", "mutex", "condition", "join", "sleep", "static guard", "once", "rwlock", "futex", "idle"};
  size_t o = 0; buf[0] = 0;
  for (int i = 0; i < g_nthr && o + 60 < n; i++) { Thread* t = &g_thr[i];
    if (t->st == T_BLOCK) o += snprintf(buf + o, n - o, " T%d waits for %s;", i, wk[t->wkind]); }
}
// choose who runs when the current thread cannot (or is exiting)
static Thread* pick_forced(bool rr) {
  g_ev++;
  for (;;) {
    if (count_runnable()) break;
    int64_t best = INT64_MAX; Thread* b = nullptr; bool other = false;
    for (int i = 0; i < g_nthr; i++) { Thread* t = &g_thr[i]; if (t->st == T_BLOCK && t->timed) { if (t->wkind != W_IDLE) other = true; if ((int64_t)t->wake_ns < best) { best = t->wake_ns; b = t; } } }
    if (b && other) { int64_t d = best - now_mono(); if (d > 0) g_slept += d; fire_timers(); continue; }
    bool idle = false;
    for (int i = 0; i < g_nthr; i++) { Thread* t = &g_thr[i]; if (t->st == T_BLOCK && t->wkind == W_IDLE) { t->st = T_RUN; t->timed = t->timedout = false; idle = true; break; } }
    if (idle) continue;
    char b2[1500]; describe_blocked(b2, sizeof b2);
    fail("deadlock", "no thread can run:%s", b2);
  }
  Thread* def = rr_next(g_cur->tid);
  Thread* t = def;
  if (C.replay) {
    while (g_oi < C.novr && C.ovr[g_oi].ev < g_ev) g_oi++;
    if (g_oi < C.novr && C.ovr[g_oi].ev == g_ev) { int k = C.ovr[g_oi].tid; g_oi++; if (k >= 0 && k < g_nthr && g_thr[k].st == T_RUN) t = &g_thr[k]; }
  } else if (!g_fair && !rr) {
    t = explore_pick(nullptr);
    if (t != def) { if (R->novr >= MAX_OVR) t = def; record_ovr(g_ev, t->tid); }
  }
  mix(0xF0000 | t->tid);
  return t;
}
static void go_away(bool rr = false) { Thread* t = pick_forced(rr); switch_to(t); if (t == g_cur) { set_on(); } }

static void preempt_to(Thread* t, bool record) {
  if (!t || t == g_cur) return;
  if (record) { if (R->novr >= MAX_OVR) { g_strat = S_DEFAULT; return; } record_ovr(g_ev, t->tid); }
  R->preempts++;
  mix(0xE0000 | t->tid);
  switch_to(t);
}
// An operation of the program starts here: some runs hold the thread somewhere inside of a chosen one.
void op_point() {
  if (!g_on || C.replay || !g_hold || g_fair) return;
  if (g_hold_op > 0 && --g_hold_op == 0) {
    g_stall_tid = -1;
    if (g_hold_atsync) g_hold_sync = 1 + (uint32_t)g_rng.below(1ull << (1 + g_rng.below(6)));
    else { g_stall_a = g_ev + 1 + g_rng.below(1ull << (2 + g_rng.below(10))); strat_next(); }
  }
}
static void begin_fair() { g_fair = true; g_fair_since = g_ev; }


static __attribute__((noinline)) void slow_point(bool want) {
  g_on = 0;
  fire_timers();
  if (g_ev >= C.budget + g_fair_since) {
    if (!g_fair) begin_fair();
    else { char b[1500]; describe_blocked(b, sizeof b);
      fail("livelock", "no completion within %llu events under a fair schedule without faults;%s", (unsigned long long)C.budget, b); }
  }
  Thread* t = nullptr; bool rec = false;
  if (C.replay) {
    while (g_oi < C.novr && C.ovr[g_oi].ev < g_ev) g_oi++;
    if (g_oi < C.novr && C.ovr[g_oi].ev == g_ev) { int k = C.ovr[g_oi].tid; g_oi++; if (k >= 0 && k < g_nthr && g_thr[k].st == T_RUN) t = &g_thr[k]; }
  }
  if (!t) {
    uint64_t q = g_fair ? fairq(g_cur->run_start) : g_fq;
    if (g_ev - g_cur->run_start >= q) {
      t = rr_next(g_cur->tid);
      if (t == g_cur) { t = nullptr; g_cur->run_start = g_ev; }
      else if (g_strat == S_PCT) g_cur->prio = --g_lowprio;
    } else if (!C.replay && !g_fair && (want || g_ev >= g_strat_at)) {
      if (g_strat == S_STALL && g_hold && g_stall_tid < 0 && g_ev >= g_stall_a) { g_stall_tid = g_cur->tid; g_stall_b = g_ev + HOLD_MAX; }
      switch (g_strat) {
        case S_PCT: while (g_ichg < g_nchg && g_chg[g_ichg] <= g_ev) { g_ichg++; g_cur->prio = --g_lowprio; }
                    t = explore_pick(nullptr); rec = true; break;
        case S_WALK: case S_STALL: case S_SYNC: case S_RR: t = explore_pick(g_cur); rec = true; break;
      }
    }
  }
  if (t && t != g_cur) preempt_to(t, rec);
  strat_next();
  set_on();
}
static inline void ev(unsigned kind) {
  ++g_ev; mix(kind << 8 | g_cur->tid);
  if (unlikely(g_ev >= g_next)) slow_point(false);
}
// an event at which threads interact: some strategies prefer to preempt here
static inline void sync_ev(unsigned kind) {
  ++g_ev; mix(kind << 8 | g_cur->tid);
  bool want = g_syncppm && g_nthr > 1 && !g_fair && g_rng.chance(g_syncppm);
  if (unlikely(g_hold_sync) && g_nthr > 1 && !g_fair && --g_hold_sync == 0) { g_stall_tid = g_cur->tid; g_stall_a = g_ev; g_stall_b = g_ev + HOLD_MAX; want = true; }
  if (unlikely(want || g_ev >= g_next)) slow_point(want);
}
static void forced_rr() {          // the running thread makes no progress: let another run
  Thread* t = rr_next(g_cur->tid);
  if (!t || t == g_cur) return;
  if (g_strat == S_PCT) g_cur->prio = --g_lowprio;
  g_on = 0; preempt_to(t, false); strat_next(); set_on();
}
struct Watch { uintptr_t a, e; WatchHook fn; };
static Watch g_watch;
static inline void watched(const void* a, uint64_t v, int what) {      // what: 0 load, 1 store, 2 rmw, 3 failed weak rmw
  if (unlikely(g_watch.fn != nullptr) && (uintptr_t)a >= g_watch.a && (uintptr_t)a < g_watch.e) { int o = g_on; g_on = 0; g_watch.fn(what, v); g_on = o; }
}
static void do_yield() {
  if (g_strat == S_PCT) g_cur->prio = --g_lowprio;
  g_cur->nyield++;
  g_on = 0;
  if (g_watch.fn) g_watch.fn(4, 0);
  Thread* t = pick_forced(false); switch_to(t); set_on();
}

// ------------------------------------------------------------------ memory checks
static inline Cell* cell_of(uintptr_t a) {
  if (a - STACKS < (uintptr_t)MAXT * STACK_SZ) return (Cell*)(CELLS_S + ((a - STACKS) >> 3) * sizeof(Cell));
  if (a - ARENA < ARENA_SZ) return a < RUN0 ? nullptr : (Cell*)(CELLS_A + ((a - ARENA) >> 3) * sizeof(Cell));
  if (a - x_data0 < x_data1 - x_data0) return (Cell*)(CELLS_D + ((a - x_data0) >> 3) * sizeof(Cell));
  return nullptr;
}
static inline uint8_t* state_of(uintptr_t a) { return (uint8_t*)(STATE + ((a - ARENA) >> 3)); }
static Blk* find_blk(uintptr_t a) {
  uintptr_t p = a & ~15ull;
  for (int i = 0; i < (1 << 18) && p > ARENA + 32; i++, p -= 16) {
    Blk* b = (Blk*)(p - 32);
    if (b->magic == MAGIC) return b;
  }
  return nullptr;
}
static const char* pcs(const void* pc, char* buf) {   // pc relative to the executable, for the driver to symbolise
  if (in_text(pc)) sprintf(buf, "{pc:%lx}", (unsigned long)((uintptr_t)pc - (uintptr_t)&__executable_start)); else sprintf(buf, "%p", pc);
  return buf;
}
static __attribute__((noinline)) void bad_access(uintptr_t a, unsigned size, unsigned fl, void* pc) {
  g_on = 0; char b1[40], b2[40];
  uint8_t st = *state_of(a);
  Blk* b = find_blk(a);
  const char* op = fl & A_W ? "write" : "read";
  if (st == 0xFD && b) fail("use-after-free", "%s of %u bytes at offset %ld of a released block of %lu bytes (allocated at %s, accessed at %s by T%d)",
    op, size, (long)(a - (uintptr_t)(b + 1)), (unsigned long)b->size, pcs(b->pc, b1), pcs(pc, b2), g_cur->tid);
  fail("heap-overflow", "%s of %u bytes outside any block, near offset %ld of a block of %lu bytes (allocated at %s, accessed at %s by T%d)",
    op, size, b ? (long)(a - (uintptr_t)(b + 1)) : 0, b ? (unsigned long)b->size : 0, b ? pcs(b->pc, b1) : "?", pcs(pc, b2), g_cur->tid);
}
static __attribute__((noinline)) void race(uintptr_t a, const Slot& s, unsigned fl, void* pc) {
  g_on = 0; char b1[40], b2[40];
  fail("data-race", "%s%s by T%d at %s and %s%s by T%d at %s touch the same memory without synchronisation",
    fl & A_ATOMIC ? "atomic " : "", fl & A_FREE ? "release" : fl & A_W ? "write" : "read", g_cur->tid, pcs(pc, b1),
    s.fl & A_ATOMIC ? "atomic " : "", s.fl & A_FREE ? "release" : s.fl & A_W ? "write" : "read", s.tid1 - 1,
    pcs((void*)((uintptr_t)&__executable_start + s.pc), b2));
}
static inline bool addr_ok(uintptr_t a, unsigned size, unsigned fl, void* pc) {   // returns false: no race check
  if (a - ARENA >= ARENA_SZ || a < RUN0) return true;
  bool harness = false;
  uintptr_t p = a, e = a + size;
  while (p < e) {
    uint8_t st = *state_of(p); unsigned off = p & 7; unsigned n = 8 - off; if (n > e - p) n = e - p;
    unsigned valid = st & 15;
    if (unlikely(st == 0xFD || st == 0 || off + n > valid)) bad_access(p, n, fl, pc);
    if (st & 16) harness = true;
    p += n;
  }
  return !harness;
}
static inline void race_check(uintptr_t a, unsigned size, unsigned fl, void* pc) {
  Thread* t = g_cur; uintptr_t e = a + size;
  while (a < e) {
    unsigned off = a & 7, n = 8 - off; if (n > e - a) n = e - a;
    uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
    Cell* c = cell_of(a); if (!c) return;
    int put = -1;
    for (int i = 0; i < NSLOT; i++) { Slot& s = c->s[i];
      if (!s.tid1) { if (put < 0) put = i; break; }
      if (!(s.mask & mask)) continue;
      int ot = s.tid1 - 1;
      if (ot == t->tid) { if (s.fl == fl && !(s.mask & ~mask)) put = i; continue; }
      if (!((s.fl | fl) & A_W)) continue;
      if ((s.fl & A_ATOMIC) && (fl & A_ATOMIC)) continue;
      if (t->clk[ot] >= s.ep) continue;
      race(a, s, fl, pc);
    }
    if (put < 0) { for (int i = 0; i < NSLOT; i++) { Slot& s = c->s[i]; if (t->clk[s.tid1 - 1] >= s.ep && (s.tid1 - 1 != t->tid || put < 0)) put = i; } }
    if (put < 0) put = (int)(g_ev % NSLOT);
    Slot& s = c->s[put];
    s.ep = t->clk[t->tid]; s.tid1 = t->tid + 1; s.mask = mask; s.fl = fl;
    s.pc = (uint32_t)((uintptr_t)pc - (uintptr_t)&__executable_start);
    a += n;
  }
}
static inline void access(void* p, unsigned size, unsigned fl, void* pc) {
  if (!g_on) return;
  ev(fl & A_W ? E_WRITE : E_READ);
  if (addr_ok((uintptr_t)p, size, fl, pc)) race_check((uintptr_t)p, size, fl, pc);
}
static inline void vaccess(void* p, unsigned size, unsigned fl, void* pc) {   // volatile: like a relaxed atomic
  if (!g_on) return;
  sync_ev(fl & A_W ? E_AWRITE : E_AREAD);
  if (addr_ok((uintptr_t)p, size, fl, pc)) race_check((uintptr_t)p, size, fl | A_ATOMIC, pc);
  if (!(fl & A_W) && size <= 8) {
    Thread* t = g_cur; uint64_t v = 0; __builtin_memcpy(&v, p, 1); if (size >= 4) v = *(uint32_t*)p;
    if (t->np_addr == p && t->np_val == v) { if (++t->noprog >= 100) { t->noprog = 0; forced_rr(); } }
    else { t->np_addr = p; t->np_val = v; t->noprog = 0; }
  }
}
static void range(void* p, size_t size, unsigned fl, void* pc) {
  if (!g_on || !size) return;
  ev(fl & A_W ? E_WRITE : E_READ);
  if (addr_ok((uintptr_t)p, size, fl, pc)) race_check((uintptr_t)p, size, fl, pc);
}

// ------------------------------------------------------------------ synchronisation objects
struct Obj { const void* a; int owner, count, readers; uint32_t clk[MAXT]; };
enum { NOBJ = 1 << 17 };
static Obj* g_obj[NOBJ];
static Obj* obj(const void* a) {
  size_t h = ((uintptr_t)a * 0x9E3779B97F4A7C15ull) >> 47; 
  for (size_t i = 0; i < NOBJ; i++) { Obj*& o = g_obj[(h + i) & (NOBJ - 1)];
    if (!o) { o = (Obj*)rt_alloc(sizeof(Obj)); o->a = a; o->owner = -1; return o; }
    if (o->a == a) return o; }
  infra("too many synchronisation objects");
}
static inline void join_clk(uint32_t* d, const uint32_t* s) { for (int i = 0; i < g_nthr; i++) if (s[i] > d[i]) d[i] = s[i]; }
static inline void copy_clk(uint32_t* d, const uint32_t* s) { for (int i = 0; i < MAXT; i++) d[i] = s[i]; }
static inline void acq(Obj* o) { join_clk(g_cur->clk, o->clk); }
static inline void rel(Obj* o) { join_clk(o->clk, g_cur->clk); g_cur->clk[g_cur->tid]++; }

static void wake_all(int kind, const void* o) {
  for (int i = 0; i < g_nthr; i++) { Thread* t = &g_thr[i]; if (t->st == T_BLOCK && t->wkind == kind && t->wobj == o) { t->st = T_RUN; t->timed = false; t->timedout = false; } }
}
static void block(int kind, const void* o, int64_t deadline = -1) {
  Thread* t = g_cur; t->st = T_BLOCK; t->wkind = kind; t->wobj = o; t->wseq = ++g_wseq;
  t->timed = deadline >= 0; t->wake_ns = deadline; t->timedout = false;
  g_on = 0; go_away(); g_on = 0;
  t->wkind = W_NONE; t->wobj = nullptr; t->timed = false;
}
static void m_unlock_raw(Obj* m) { m->owner = -1; m->count = 0; rel(m); wake_all(W_MUTEX, m->a); }
static int m_lock(const void* a, int kind, int64_t deadline = -1) {   // g_on is 0 here
  Obj* m = obj(a);
  for (;;) {
    if (m->owner < 0) { m->owner = g_cur->tid; m->count = 1; acq(m); return 0; }
    if (m->owner == g_cur->tid) {
      if (kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
      if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
      if (deadline < 0) fail("deadlock", "T%d locks a mutex it already holds", g_cur->tid);
    }
    block(W_MUTEX, a, deadline);
    if (g_cur->timedout && m->owner >= 0) return ETIMEDOUT;
  }
}
static inline int mkind(const pthread_mutex_t* m) { return m->__data.__kind & 3; }
static void check_obj(const void* a, void* pc) { addr_ok((uintptr_t)a, 1, A_W, pc); }

// ------------------------------------------------------------------ faults
bool fault(FaultKind k, uint32_t nvalues, uint32_t* value) {
  if (!g_active || !g_cur) return false;
  Thread* t = g_cur;
  if (t->nofault || !((t->fmask | g_fmask) & (1u << k))) return false;
  FK& f = g_fk[k];
  uint32_t nth = f.opp++; R->nopp[k]++;
  bool hit = false; uint32_t v = 0;
  if (C.replay) {
    for (uint32_t i = 0; i < C.nflt; i++) if (C.flt[i].kind == k && C.flt[i].nth == nth) { hit = true; v = C.flt[i].val; break; }
  } else if (f.en && !g_fair) {
    hit = f.oneshot ? nth == f.nth : g_frng.chance(f.ppm);
    if (hit) { v = nvalues > 1 ? (uint32_t)g_frng.below(nvalues) : 0;
      if (R->nflt < MAX_FLT) R->flt[R->nflt++] = Flt{(uint32_t)k, nth, v}; else hit = false; }
  }
  if (hit) { R->nfault[k]++; if (value) *value = v; int o = g_on; (void)o; mix(0xFA0000 | k << 8 | (v & 255));
    if (C.trace) fprintf(stderr, "[%llu] T%d fault %s #%u value %u\n", (unsigned long long)g_ev, t->tid, fault_names[k], nth, v); }
  return hit;
}
uint64_t fault_hits(FaultKind k) { return R ? R->nfault[k] : 0; }
void count_fault(FaultKind k) { if (R) { R->nfault[k]++; R->nopp[k]++; } }

// ------------------------------------------------------------------ scenario interface
Quiet::Quiet() { if (g_active) { g_cur->quiet++; g_on = 0; } }
Quiet::~Quiet() { if (g_active) { g_cur->quiet--; set_on(); } }
NoFaults::NoFaults() { if (g_active) g_cur->nofault++; }
NoFaults::~NoFaults() { if (g_active) g_cur->nofault--; }
FaultWindow::FaultWindow(unsigned m) : old(0) { if (g_active) { old = g_cur->fmask; g_cur->fmask = m; } }
FaultWindow::~FaultWindow() { if (g_active) g_cur->fmask = old; }
void faults_global(unsigned m) { g_fmask = m; }
void point(unsigned kind) { if (g_on) sync_ev(kind); }
void watch(const void* a, size_t n, WatchHook fn) { g_watch.a = (uintptr_t)a; g_watch.e = (uintptr_t)a + n; g_watch.fn = fn; }
bool active() { return g_active; }
int tid() { return g_cur ? g_cur->tid : -1; }
uint64_t stamp() { return ++g_stamp; }
uint64_t event_count() { return g_ev; }
void probe(unsigned id, uint64_t n) { if (R && id < NPROBE) R->probes[id] += n; }
void obligation(uint64_t n) { if (R) R->obligations += n; }
void reuse_threads(bool on) { g_reuse = on; }
void fair(bool on) { if (on) { if (!g_fair) begin_fair(); } else { g_fair = false; g_fair_since = g_ev; } if (g_active) { int o = g_on; g_on = 0; strat_next(); g_on = o; } }
void clock_jump(int64_t ns) { g_realoff += ns; count_fault(F_CLOCK_JUMP); mix(0xC10C); }
void advance(int64_t ns) { g_slept += ns; if (g_active) { int o = g_on; g_on = 0; strat_next(); g_on = o; } }
int64_t mono_ns() { return now_mono(); }
int64_t real_ns() { return C.real0_ns + g_realoff + (now_mono() - 1000000000000ll); }
uint64_t yields(int t) { return g_thr[t].nyield; }
uint64_t my_events() { return g_cur->nevacc + (g_ev - g_cur->nev0); }
uint64_t live_blocks() { return g_live_blocks; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t alloc_seq() { return g_allocseq; }
void set_localtime_hook(bool on) { g_lt_hook = on; }
int runnable_others() { return count_runnable() - 1; }
bool sleep_until_idle(int64_t max_ns) {
  if (!g_active) return true;
  if (g_on) ev(E_SLEEP);
  g_on = 0; block(W_IDLE, nullptr, max_ns < 0 ? -1 : now_mono() + max_ns); bool idle = !g_cur->timedout; set_on(); return idle;
}

// ------------------------------------------------------------------ allocator
static void map_fixed(uintptr_t a, size_t n) {
  void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)a) { static const char m[] = "simulator: cannot map memory\n"; ssize_t x = ::write(2, m, sizeof m - 1); (void)x; _exit(2); }
}
static void early_map() {
  if (g_mapped) return;
  g_mapped = true;
  map_fixed(ARENA, ARENA_SZ); map_fixed(STATE, ARENA_SZ >> 3); map_fixed(RTMEM, RTMEM_SZ);
  map_fixed(CELLS_A, (ARENA_SZ >> 3) * sizeof(Cell));
  g_dbump = ARENA + 4096; g_bump = RUN0;
}
static void* g_free[40];
// what a run inherits from the driver lies at the same addresses whatever the driver did before
static void driver_heap_fix() { uintptr_t a = ARENA + (128u << 20); if (g_dbump < a) { g_dbump = a; for (auto& f : g_free) f = nullptr; } }
static void* do_alloc(size_t size, size_t align, unsigned flags, void* pc) {
  if (unlikely(!g_mapped)) early_map();
  if (size > (256u << 20)) { errno = ENOMEM; return nullptr; }
  bool run = g_active;
  if (!run) {
    if (align > 16) { static const char m[] = "simulator: over-aligned driver allocation\n"; ssize_t x = ::write(2, m, sizeof m - 1); (void)x; _exit(2); }
    int cls = 5; while ((1ull << cls) < size) cls++;
    if (void* p = g_free[cls]) { g_free[cls] = *(void**)p; Blk* b = (Blk*)p - 1; b->size = size; b->flags = B_LIVE | flags; return p; }
    uintptr_t p = g_dbump + 32; g_dbump = p + (1ull << cls) + 16; g_dbump = (g_dbump + 15) & ~15ull;
    if (g_dbump > RUN0) { static const char m[] = "simulator: driver heap exhausted\n"; ssize_t x = ::write(2, m, sizeof m - 1); (void)x; _exit(2); }
    Blk* b = (Blk*)p - 1; *b = Blk{MAGIC, size, pc, 0, (uint8_t)(B_LIVE | flags), 0, (uint16_t)cls};
    return (void*)p;
  }
  if (align < 16) align = 16;
  uintptr_t p = (g_bump + 32 + align - 1) & ~(align - 1);
  uintptr_t e = (p + size + 16 + 15) & ~15ull;
  if (size == 0) e = p + 16;
  if (e > ARENA + ARENA_SZ) { if (R) infra("arena exhausted"); _exit(2); }
  g_bump = e;
  Blk* b = (Blk*)p - 1;
  bool code = run && g_on && in_text(pc);
  *b = Blk{MAGIC, size, pc, ++g_allocseq, (uint8_t)(B_LIVE | flags | (code ? B_CODE : 0)), (uint8_t)(g_cur ? g_cur->tid : 0), 0};
  uint8_t h = code ? 0 : 16;
  uint8_t* s = state_of(p); size_t full = size >> 3;
  for (size_t i = 0; i < full; i++) s[i] = 8 | h;
  if (size & 7) s[full] = (size & 7) | h;
  if (run && size) {
    if (g_junk >= 0) raw_set((void*)p, g_junk, size);
    else { uint8_t* q = (uint8_t*)p; for (size_t i = 0; i < size; i++) q[i] = (uint8_t)((i * 37 + g_allocseq * 11) | 1); }
  }
  if (code && (flags & B_NEW)) { g_live_blocks++; g_live_bytes += size; }
  return (void*)p;
}
static void do_free(void* p, unsigned flags, size_t sized, void* pc) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p; char b1[40], b2[40];
  if (a - ARENA >= ARENA_SZ) { if (g_active && R) { fail("bad-free", "release of memory at %p that no allocation returned (at %s)", p, pcs(pc, b1)); } return; }
  Blk* b = (Blk*)p - 1;
  if (a < RUN0) {
    if (g_active || !(b->flags & B_LIVE) || b->magic != MAGIC) return;
    b->flags = 0; if (b->off >= 5 && b->off < 40) { *(void**)p = g_free[b->off]; g_free[b->off] = p; }
    return;
  }
  if (b->magic != MAGIC || (a & 15)) { fail("bad-free", "release of %p, which is not the start of a block (at %s)", p, pcs(pc, b1)); }
  if (b->flags & B_FREED) { fail("double-free", "a block of %lu bytes allocated at %s is released twice (second time at %s by T%d)", (unsigned long)b->size, pcs(b->pc, b1), pcs(pc, b2), g_cur ? g_cur->tid : -1); }
  if ((b->flags & (B_NEW | B_ARR)) != (flags & (B_NEW | B_ARR)))
    fail("bad-free", "a block of %lu bytes allocated at %s with %s is released with %s (at %s)", (unsigned long)b->size, pcs(b->pc, b1),
      !(b->flags & B_NEW) ? "malloc" : b->flags & B_ARR ? "new[]" : "new", !(flags & B_NEW) ? "free" : flags & B_ARR ? "delete[]" : "delete", pcs(pc, b2));
  if (sized != (size_t)-1 && sized != b->size)
    fail("bad-free", "a block of %lu bytes allocated at %s is released as one of %lu bytes (at %s)", (unsigned long)b->size, pcs(b->pc, b1), (unsigned long)sized, pcs(pc, b2));
  if (g_on && (b->flags & B_CODE) && b->size) {
    size_t n = b->size; if (n > 65536) n = 65536;
    race_check(a, n, A_W | A_FREE, pc);
  }
  if ((b->flags & B_CODE) && (b->flags & B_NEW)) { g_live_blocks--; g_live_bytes -= b->size; }
  b->flags = (b->flags & ~B_LIVE) | B_FREED;
  uint8_t* s = state_of(a); size_t n = (b->size + 7) >> 3;
  for (size_t i = 0; i < n; i++) s[i] = 0xFD;
  raw_set(p, 0xDD, b->size);
}
uint64_t live_since(uint64_t since) {
  uint64_t n = 0; uintptr_t p = RUN0;
  while (p + 32 < g_bump) { Blk* b = (Blk*)p; if (b->magic != MAGIC) { p += 16; continue; }
    if ((b->flags & B_LIVE) && (b->flags & B_CODE) && (b->flags & B_NEW) && b->seqlo > since) n += b->size;
    p += 32 + ((b->size + 15) & ~15ull); }
  return n;
}
void check_leaks(uint64_t since, const char* what) {
  int o = g_on; g_on = 0;
  char det[1200]; size_t dl = 0; uint64_t n = 0, bytes = 0; uintptr_t p = RUN0;
  while (p + 32 < g_bump) { Blk* b = (Blk*)p; if (b->magic != MAGIC) { p += 16; continue; }
    if ((b->flags & B_LIVE) && (b->flags & B_CODE) && (b->flags & B_NEW) && b->seqlo > since) {
      n++; bytes += b->size; char b1[40];
      if (dl + 100 < sizeof det) dl += snprintf(det + dl, sizeof det - dl, "; %lu bytes from %s by T%d", (unsigned long)b->size, pcs(b->pc, b1), b->tid); }
    p += 32 + ((b->size + 15) & ~15ull); }
  if (n) fail("leak", "%s: %lu blocks (%lu bytes) are not returned%s", what, (unsigned long)n, (unsigned long)bytes, det);
  g_on = o;
}
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

// ------------------------------------------------------------------ C memory functions
EXPORT void* memcpy(void* d, const void* s, size_t n) {
  if (unlikely(g_on) && n && in_text(PC)) { range((void*)s, n, 0, PC); range(d, n, A_W, PC); }
  raw_copy(d, s, n); return d;
}
EXPORT void* memmove(void* d, const void* s, size_t n) {
  if (unlikely(g_on) && n && in_text(PC)) { range((void*)s, n, 0, PC); range(d, n, A_W, PC); }
  if (d == s || !n) return d;
  if ((uintptr_t)d - (uintptr_t)s >= n) raw_copy(d, s, n);
  else { unsigned char* a = (unsigned char*)d; const unsigned char* b = (const unsigned char*)s; while (n--) a[n] = b[n]; }
  return d;
}
EXPORT void* memset(void* d, int c, size_t n) {
  if (unlikely(g_on) && n && in_text(PC)) range(d, n, A_W, PC);
  raw_set(d, c, n); return d;
}
EXPORT int memcmp(const void* a, const void* b, size_t n) {
  if (unlikely(g_on) && n && in_text(PC)) { range((void*)a, n, 0, PC); range((void*)b, n, 0, PC); }
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i];
  return 0;
}
EXPORT size_t strlen(const char* a) {
  size_t n = 0; while (a[n]) n++;
  if (unlikely(g_on) && in_text(PC)) range((void*)a, n + 1, 0, PC);
  return n;
}
extern "C" __attribute__((visibility("default"))) void* sim_memchr(const void* a, int c, size_t n) __asm__("memchr");
void* sim_memchr(const void* a, int c, size_t n) {
  const unsigned char* x = (const unsigned char*)a; size_t i = 0; while (i < n && x[i] != (unsigned char)c) i++;
  if (unlikely(g_on) && n && in_text(PC)) range((void*)a, i < n ? i + 1 : n, 0, PC);
  return i < n ? (void*)(x + i) : nullptr;
}

// ------------------------------------------------------------------ allocation
EXPORT void* malloc(size_t n) { void* p = do_alloc(n, 16, 0, PC); if (!p) errno = ENOMEM; return p; }
EXPORT void free(void* p) { do_free(p, 0, (size_t)-1, PC); }
EXPORT void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = do_alloc(n, 16, 0, PC); if (p) raw_set(p, 0, n); return p; }
EXPORT void* realloc(void* o, size_t n) {
  if (!o) return do_alloc(n, 16, 0, PC);
  void* p = do_alloc(n, 16, 0, PC); if (!p) return nullptr;
  size_t os = ((Blk*)o - 1)->size; raw_copy(p, o, os < n ? os : n); do_free(o, 0, (size_t)-1, PC); return p;
}
EXPORT void* memalign(size_t al, size_t n) { return do_alloc(n, al, 0, PC); }
EXPORT void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al, 0, PC); }
EXPORT int posix_memalign(void** o, size_t al, size_t n) { void* p = do_alloc(n, al, 0, PC); if (!p) return ENOMEM; *o = p; return 0; }
EXPORT size_t malloc_usable_size(void* p) { return p ? ((Blk*)p - 1)->size : 0; }
static void* op_new(size_t n, size_t al, unsigned fl, void* pc) {
  if (g_on && fault(F_ALLOC)) throw std::bad_alloc();
  void* p = do_alloc(n, al, B_NEW | fl, pc); if (!p) throw std::bad_alloc(); return p;
}
static void* op_new_nt(size_t n, unsigned fl, void* pc) { if (g_on && fault(F_ALLOC)) return nullptr; return do_alloc(n, 16, B_NEW | fl, pc); }
void* operator new(size_t n) { return op_new(n, 16, 0, PC); }
void* operator new[](size_t n) { return op_new(n, 16, B_ARR, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 0, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, B_ARR, PC); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, 0, PC); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, B_ARR, PC); }
void operator delete(void* p) noexcept { do_free(p, B_NEW, (size_t)-1, PC); }
void operator delete[](void* p) noexcept { do_free(p, B_NEW | B_ARR, (size_t)-1, PC); }
void operator delete(void* p, size_t n) noexcept { do_free(p, B_NEW, n, PC); }
void operator delete[](void* p, size_t) noexcept { do_free(p, B_NEW | B_ARR, (size_t)-1, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p, B_NEW, (size_t)-1, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p, B_NEW | B_ARR, (size_t)-1, PC); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p, B_NEW, (size_t)-1, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, B_NEW | B_ARR, (size_t)-1, PC); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { do_free(p, B_NEW, n, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p, B_NEW | B_ARR, (size_t)-1, PC); }

// ------------------------------------------------------------------ instrumentation call-backs
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void** p, void* v) { if (!g_on) return; ev(E_WRITE); unsigned fl = *p == v ? 0 : A_W; if (addr_ok((uintptr_t)p, 8, fl, PC)) race_check((uintptr_t)p, 8, fl, PC); }  // the event must not depend on what the memory held
EXPORT void __tsan_vptr_read(void** p) { access(p, 8, 0, PC); }
#define RW(n) \
  EXPORT void __tsan_read##n(void* p) { access(p, n, 0, PC); } \
  EXPORT void __tsan_write##n(void* p) { access(p, n, A_W, PC); } \
  EXPORT void __tsan_unaligned_read##n(void* p) { access(p, n, 0, PC); } \
  EXPORT void __tsan_unaligned_write##n(void* p) { access(p, n, A_W, PC); } \
  EXPORT void __tsan_volatile_read##n(void* p) { vaccess(p, n, 0, PC); } \
  EXPORT void __tsan_volatile_write##n(void* p) { vaccess(p, n, A_W, PC); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void* p) { vaccess(p, n, 0, PC); } \
  EXPORT void __tsan_unaligned_volatile_write##n(void* p) { vaccess(p, n, A_W, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { range(p, n, 0, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { range(p, n, A_W, PC); }

static inline bool is_acq(int mo) { mo &= 7; return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { mo &= 7; return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void hb_load(const void* a, int mo) {
  Obj* o = obj(a); Thread* t = g_cur;
  if (is_acq(mo)) join_clk(t->clk, o->clk); else { join_clk(t->acqp, o->clk); t->has_acqp = true; }
}
static void hb_store(const void* a, int mo) {
  Obj* o = obj(a); Thread* t = g_cur;
  if (is_rel(mo)) { copy_clk(o->clk, t->clk); t->clk[t->tid]++; }
  else if (t->has_relf) copy_clk(o->clk, t->relf);
  else for (int i = 0; i < g_nthr; i++) o->clk[i] = 0;
}
static void hb_rmw(const void* a, int mo) {
  Obj* o = obj(a); Thread* t = g_cur;
  if (is_acq(mo)) join_clk(t->clk, o->clk); else { join_clk(t->acqp, o->clk); t->has_acqp = true; }
  if (is_rel(mo)) { join_clk(o->clk, t->clk); t->clk[t->tid]++; }
  else if (t->has_relf) join_clk(o->clk, t->relf);
}
static void noprogress(const void* a, uint64_t v) {
  Thread* t = g_cur;
  if (t->np_addr == a && t->np_val == v) { if (++t->noprog >= 100) { t->noprog = 0; forced_rr(); } }
  else { t->np_addr = a; t->np_val = v; t->noprog = 0; }
}
static inline void a_check(const void* a, unsigned n, unsigned fl, void* pc) {
  if (addr_ok((uintptr_t)a, n, fl, pc)) race_check((uintptr_t)a, n, fl | A_ATOMIC, pc);
}
EXPORT void __tsan_atomic_thread_fence(int mo) {
  if (!g_on) { __sync_synchronize(); return; }
  sync_ev(E_FENCE); Thread* t = g_cur;
  if (is_acq(mo) && t->has_acqp) join_clk(t->clk, t->acqp);
  if (is_rel(mo)) { copy_clk(t->relf, t->clk); t->has_relf = true; t->clk[t->tid]++; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}
typedef unsigned __int128 u128;
#define ATOMIC(b, T, n) \
  EXPORT T __tsan_atomic##b##_load(const volatile T* a, int mo) { \
    if (!g_on) { return *a; } sync_ev(E_AREAD); a_check((void*)a, n, 0, PC); hb_load((void*)a, mo); T v = *a; watched((void*)a, (uint64_t)v, 0); noprogress((void*)a, (uint64_t)v); return v; } \
  EXPORT void __tsan_atomic##b##_store(volatile T* a, T v, int mo) { \
    if (!g_on) { *a = v; return; } sync_ev(E_AWRITE); a_check((void*)a, n, A_W, PC); hb_store((void*)a, mo); *a = v; watched((void*)a, (uint64_t)v, 1); g_cur->noprog = 0; } \
  RMW(b, T, n, exchange, v) RMW(b, T, n, fetch_add, o + v) RMW(b, T, n, fetch_sub, o - v) RMW(b, T, n, fetch_and, o & v) \
  RMW(b, T, n, fetch_or, o | v) RMW(b, T, n, fetch_xor, o ^ v) RMW(b, T, n, fetch_nand, ~(o & v)) \
  EXPORT int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return cas_##b(a, e, v, mo, fmo, false, PC); } \
  EXPORT int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return cas_##b(a, e, v, mo, fmo, true, PC); } \
  EXPORT T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { cas_##b(a, &e, v, mo, fmo, false, PC); return e; }
#define RMW(b, T, n, name, expr) \
  EXPORT T __tsan_atomic##b##_##name(volatile T* a, T v, int mo) { \
    if (g_on) { sync_ev(E_ARMW); a_check((void*)a, n, A_W, PC); hb_rmw((void*)a, mo); } \
    T o = *a; T nv = (T)(expr); *a = nv; if (g_on) { watched((void*)a, (uint64_t)o, 2); if (nv == o) noprogress((void*)a, (uint64_t)o); else g_cur->noprog = 0; } return o; }
#define CAS(b, T, n) \
  static int cas_##b(volatile T* a, T* e, T v, int mo, int fmo, bool weak, void* pc) { \
    if (!g_on) { if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    sync_ev(E_ARMW); a_check((void*)a, n, A_W, pc); T o = *a; \
    bool ok = o == *e, sp = ok && weak && fault(F_WEAKCAS); if (sp) ok = false; \
    watched((void*)a, (uint64_t)o, sp ? 3 : 2); \
    if (ok) { hb_rmw((void*)a, mo); *a = v; g_cur->noprog = 0; return 1; } \
    hb_load((void*)a, fmo); *e = o; noprogress((void*)a, (uint64_t)o); return 0; }
CAS(8, uint8_t, 1) CAS(16, uint16_t, 2) CAS(32, uint32_t, 4) CAS(64, uint64_t, 8) CAS(128, u128, 16)
ATOMIC(8, uint8_t, 1) ATOMIC(16, uint16_t, 2) ATOMIC(32, uint32_t, 4) ATOMIC(64, uint64_t, 8) ATOMIC(128, u128, 16)

// ------------------------------------------------------------------ threads
static void thread_gone(void*) {          // last call-back of a simulated thread
  Thread* t = g_cur; g_on = 0;
  ++g_ev; mix(E_EXIT << 8 | t->tid);
  t->st = T_DONE; t->clk[t->tid]++;
  wake_all(W_JOIN, t);
  R->switches++;
  if (t->tid == 0) { g_dead = t; g_done = 1; fut_wake(&g_done); return; }
  Thread* n = pick_forced(false);
  g_dead = t;
  g_cur = n; n->run_start = g_ev; n->nev0 = g_ev; strat_next();
  fut_wake(&n->fut);
}
static void* thread_main(void* x) {
  Thread* t = (Thread*)x;
  fut_wait(&t->fut);
  if (!t->sigstk) t->sigstk = rt_alloc(32768);
  stack_t ss; ss.ss_sp = t->sigstk; ss.ss_size = 32768; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  reap();
  pthread_setspecific(g_exitkey, t);
  set_on();
  void* r = t->fn(t->arg);
  t->retval = r;
  return r;
}
static Thread* new_thread(void* (*fn)(void*), void* arg) {
  Thread* t = nullptr;
  if (g_reuse) for (int i = 1; i < g_nthr && !t; i++) { Thread* x = &g_thr[i];    // the place of a thread that has been joined
    if (x->st == T_DONE && x->joined && x != g_dead) {
      uint32_t c = x->clk[i]; void* ss = x->sigstk; raw_set(x, 0, sizeof *x); t = x; t->tid = i; t->clk[i] = c; t->sigstk = ss;
      madvise((void*)(CELLS_S + (i * STACK_SZ >> 3) * sizeof(Cell)), (STACK_SZ >> 3) * sizeof(Cell), MADV_DONTNEED); } }
  if (!t) {
    if (g_nthr >= MAXT) infra("too many simulated threads");
    t = &g_thr[g_nthr]; t->tid = g_nthr; t->clk[t->tid] = 1; g_nthr++;
  }
  t->fn = fn; t->arg = arg; t->st = T_RUN;
  if (g_cur) join_clk(t->clk, g_cur->clk);
  t->clk[t->tid]++;
  t->prio = (int64_t)g_rng.below(1000000);
  uintptr_t st = STACKS + t->tid * STACK_SZ;
  void* m = mmap((void*)(st + 65536), STACK_SZ - 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (m == MAP_FAILED) infra("cannot map a thread stack");
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, (void*)(st + 65536), STACK_SZ - 65536);
  int e = r_create(&t->real, &at, thread_main, t); pthread_attr_destroy(&at);
  if (e) infra("cannot create a real thread (%d)", e);
  t->has_real = true;
  return t;
}
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!g_active) { return r_create ? r_create(out, at, fn, arg) : EAGAIN; }
  bool on = g_on;
  if (on) sync_ev(E_CREATE);
  if (on && fault(F_THREAD_CREATE)) return EAGAIN;
  g_on = 0;
  Thread* t = new_thread(fn, arg);
  g_cur->clk[g_cur->tid]++;
  *out = t->real;
  if (at) { int ds = 0; if (!pthread_attr_getdetachstate(at, &ds) && ds == PTHREAD_CREATE_DETACHED) t->detached = true; }
  set_on();
  if (on) sync_ev(E_CREATE);
  return 0;
}
static Thread* by_real(pthread_t p) { for (int i = 0; i < g_nthr; i++) if (g_thr[i].has_real && pthread_equal(g_thr[i].real, p)) return &g_thr[i]; return nullptr; }
EXPORT int pthread_join(pthread_t p, void** ret) {
  if (!g_active) return r_join(p, ret);
  if (g_on) sync_ev(E_JOIN);
  g_on = 0;
  Thread* t = by_real(p);
  if (!t || t->joined || t->detached) fail("bad-join", "join of a thread that is not joinable");
  if (t == g_cur) { set_on(); return EDEADLK; }
  while (t->st != T_DONE) block(W_JOIN, t);
  t->joined = true; join_clk(g_cur->clk, t->clk);
  if (ret) *ret = t->retval;
  set_on(); return 0;
}
EXPORT int pthread_detach(pthread_t p) {
  if (!g_active) return r_detach(p);
  Thread* t = by_real(p); if (t) t->detached = true; return 0;
}
EXPORT int sched_yield() { if (!g_on) return 0; ev(E_YIELD); do_yield(); return 0; }

// ------------------------------------------------------------------ mutexes and conditions
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  raw_set(m, 0, sizeof *m); int k = 0; if (a) pthread_mutexattr_gettype(a, &k); m->__data.__kind = k;
  if (g_active) { Obj* o = obj(m); o->owner = -1; o->count = 0; } return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (g_on) { Obj* o = obj(m); if (o->owner >= 0) fail("mutex-misuse", "a mutex is destroyed while locked"); } return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!g_active) return 0;
  if (!g_on) { Obj* o = obj(m); if (o->owner >= 0 && o->owner != g_cur->tid) { int q = g_cur->quiet; int r = m_lock(m, mkind(m)); g_cur->quiet = q; g_on = 0; return r; } return m_lock(m, mkind(m)); }
  check_obj(m, PC); sync_ev(E_LOCK); g_on = 0; int r = m_lock(m, mkind(m)); set_on(); return r;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!g_active) return 0;
  bool on = g_on; if (on) { check_obj(m, PC); sync_ev(E_TRYLOCK); }
  Obj* o = obj(m);
  if (o->owner < 0) { o->owner = g_cur->tid; o->count = 1; acq(o); return 0; }
  if (o->owner == g_cur->tid && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
  if (on) noprogress(m, 1);
  return EBUSY;
}
static int64_t abs_to_mono(clockid_t c, const timespec* ts) {
  int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec; if (c == CLOCK_REALTIME) t -= real_ns() - mono_ns(); return t < 0 ? 0 : t; }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
  if (!g_active) { return 0; } if (g_on) { check_obj(m, PC); sync_ev(E_LOCK); } g_on = 0;
  int r = m_lock(m, mkind(m), abs_to_mono(CLOCK_REALTIME, ts)); set_on(); return r; }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) {
  if (!g_active) { return 0; } if (g_on) { check_obj(m, PC); sync_ev(E_LOCK); } g_on = 0;
  int r = m_lock(m, mkind(m), abs_to_mono(c, ts)); set_on(); return r; }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!g_active) return 0;
  bool on = g_on;
  if (on) { check_obj(m, PC); sync_ev(E_UNLOCK); }
  Obj* o = obj(m);
  if (o->owner != g_cur->tid) { if (mkind(m) != PTHREAD_MUTEX_NORMAL) return EPERM; fail("mutex-misuse", "T%d unlocks a mutex it does not hold (at %s)", g_cur->tid, ({ static char b[40]; pcs(PC, b); })); }
  if (--o->count == 0) m_unlock_raw(o);
  if (on) sync_ev(E_UNLOCK);
  return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { raw_set(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  if (g_on) { for (int i = 0; i < g_nthr; i++) if (g_thr[i].st == T_BLOCK && g_thr[i].wkind == W_COND && g_thr[i].wobj == c) fail("mutex-misuse", "a condition variable is destroyed while T%d waits on it", i); }
  return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline, void* pc) {
  if (!g_active) infra("condition wait outside the simulation");
  if (g_on) { check_obj(c, pc); check_obj(m, pc); sync_ev(E_CWAIT); }
  bool spur = g_on && fault(F_SPURIOUS);
  g_on = 0;
  Obj* o = obj(m);
  if (o->owner != g_cur->tid) fail("mutex-misuse", "T%d waits on a condition without holding the mutex", g_cur->tid);
  int cnt = o->count; m_unlock_raw(o);
  int r = 0;
  if (spur) { Thread* t = pick_forced(false); switch_to(t); g_on = 0; }
  else { block(W_COND, c, deadline); if (g_cur->timedout) r = ETIMEDOUT; }
  m_lock(m, PTHREAD_MUTEX_NORMAL); o->count = cnt;
  set_on();
  if (g_on) sync_ev(E_CWAIT);
  return r;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, -1, PC); }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return cond_wait(c, m, abs_to_mono(CLOCK_REALTIME, ts), PC); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { return cond_wait(c, m, abs_to_mono(k, ts), PC); }
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!g_active) return 0;
  bool on = g_on; if (on) { check_obj(c, PC); sync_ev(E_CSIGNAL); }
  Thread* w[MAXT]; int n = 0;
  for (int i = 0; i < g_nthr; i++) { Thread* t = &g_thr[i]; if (t->st == T_BLOCK && t->wkind == W_COND && t->wobj == c) { int k = n++; while (k > 0 && w[k - 1]->wseq > t->wseq) { w[k] = w[k - 1]; k--; } w[k] = t; } }
  if (n) { uint32_t v = 0; if (n > 1 && on) fault(F_SIGPICK, n, &v); Thread* t = w[v % n]; t->st = T_RUN; t->timed = false; t->timedout = false; }
  if (on) sync_ev(E_CSIGNAL);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!g_active) return 0;
  if (g_on) { check_obj(c, PC); sync_ev(E_CSIGNAL); }
  wake_all(W_COND, c);
  if (g_on) sync_ev(E_CSIGNAL);
  return 0;
}
// read/write locks
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { raw_set(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!g_active) { return 0; } if (g_on) { check_obj(l, PC); sync_ev(E_RW); } g_on = 0; Obj* o = obj(l);
  while (o->owner >= 0) { if (o->owner == g_cur->tid) fail("deadlock", "T%d read-locks a lock it holds for writing", g_cur->tid); block(W_RW, l); }
  o->readers++; acq(o); set_on(); return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!g_active) { return 0; } if (g_on) { check_obj(l, PC); sync_ev(E_RW); } g_on = 0; Obj* o = obj(l);
  while (o->owner >= 0 || o->readers > 0) { if (o->owner == g_cur->tid) fail("deadlock", "T%d write-locks a lock it already holds", g_cur->tid); block(W_RW, l); }
  o->owner = g_cur->tid; acq(o); set_on(); return 0; }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!g_active) { return 0; } if (g_on) sync_ev(E_RW); Obj* o = obj(l); if (o->owner >= 0) return EBUSY; o->readers++; acq(o); return 0; }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!g_active) { return 0; } if (g_on) sync_ev(E_RW); Obj* o = obj(l); if (o->owner >= 0 || o->readers) return EBUSY; o->owner = g_cur->tid; acq(o); return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!g_active) { return 0; } if (g_on) { check_obj(l, PC); sync_ev(E_RW); } Obj* o = obj(l);
  if (o->owner >= 0) { if (o->owner != g_cur->tid) fail("mutex-misuse", "T%d unlocks a read/write lock it does not hold", g_cur->tid); o->owner = -1; }
  else if (o->readers > 0) o->readers--; else fail("mutex-misuse", "T%d unlocks a read/write lock nobody holds", g_cur->tid);
  rel(o); wake_all(W_RW, l); if (g_on) sync_ev(E_RW); return 0; }
// once and static initialisation
EXPORT int pthread_once(pthread_once_t* c, void (*fn)(void)) {
  if (!g_active) { if (*c != 2) { fn(); *c = 2; } return 0; }
  bool on = g_on; if (on) sync_ev(E_ONCE);
  Obj* o = obj(c);
  for (;;) {
    if (*c == 2) { join_clk(g_cur->clk, o->clk); return 0; }
    if (o->owner < 0) { o->owner = g_cur->tid; break; }
    if (o->owner == g_cur->tid) fail("deadlock", "T%d runs a call-once initialisation from inside itself", g_cur->tid);
    g_on = 0; block(W_ONCE, c); if (on) set_on();
  }
  try { fn(); } catch (...) { o->owner = -1; rel(o); wake_all(W_ONCE, c); throw; }
  *c = 2; o->owner = -1; rel(o); wake_all(W_ONCE, c);
  if (on) sync_ev(E_ONCE);
  return 0;
}
EXPORT int __cxa_guard_acquire(int64_t* g) {
  volatile char* b = (volatile char*)g;
  if (!g_active) return !*b;
  bool on = g_on; if (on) sync_ev(E_GUARD);
  Obj* o = obj(g);
  for (;;) {
    if (*b) { join_clk(g_cur->clk, o->clk); return 0; }
    if (o->owner < 0) { o->owner = g_cur->tid; join_clk(g_cur->clk, o->clk); return 1; }
    if (o->owner == g_cur->tid) fail("deadlock", "T%d initialises a static object from inside its own initialisation", g_cur->tid);
    g_on = 0; block(W_GUARD, g); if (on) set_on();
  }
}
EXPORT void __cxa_guard_release(int64_t* g) {
  volatile char* b = (volatile char*)g;
  if (!g_active) { *b = 1; return; }
  if (g_on) sync_ev(E_GUARD);
  Obj* o = obj(g); *b = 1; o->owner = -1; rel(o); wake_all(W_GUARD, g);
  if (g_on) sync_ev(E_GUARD);
}
EXPORT void __cxa_guard_abort(int64_t* g) {
  if (!g_active) return;
  if (g_on) sync_ev(E_GUARD);
  Obj* o = obj(g); o->owner = -1; rel(o); wake_all(W_GUARD, g);
}
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && g_active) {
    int op = (int)a[1] & 127; volatile int* f = (volatile int*)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (g_on) sync_ev(E_FUTEX);
      if (*f != (int)a[2]) { errno = EAGAIN; return -1; }
      int64_t dl = -1; if (a[3]) { const timespec* ts = (const timespec*)a[3]; dl = ts->tv_sec * 1000000000ll + ts->tv_nsec;
        if (op == FUTEX_WAIT) dl += mono_ns(); else if (a[1] & FUTEX_CLOCK_REALTIME) dl -= real_ns() - mono_ns(); if (dl < 0) dl = 0; }
      g_on = 0; block(W_FUTEX, (void*)f, dl); bool to = g_cur->timedout; set_on();
      if (to) { errno = ETIMEDOUT; return -1; } return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      if (g_on) sync_ev(E_FUTEX); long w = 0;
      for (int i = 0; i < g_nthr && w < a[2]; i++) { Thread* t = &g_thr[i]; if (t->st == T_BLOCK && t->wkind == W_FUTEX && t->wobj == (void*)f) { t->st = T_RUN; t->timed = false; t->timedout = false; w++; } }
      return w;
    }
  }
  long r = raw_sys(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}

// ------------------------------------------------------------------ time
static void from_ns(int64_t n, timespec* ts) { int64_t s = n / 1000000000ll, r = n % 1000000000ll; if (r < 0) { r += 1000000000ll; s--; } ts->tv_sec = s; ts->tv_nsec = r; }
EXPORT int clock_gettime(clockid_t c, timespec* ts) {
  if (!g_active) return r_clock_gettime ? r_clock_gettime(c, ts) : (int)raw_sys(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  if (g_on) ev(E_CLOCK);
  from_ns(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? real_ns() : mono_ns(), ts); return 0;
}
EXPORT int gettimeofday(struct timeval* __restrict tv, void* __restrict) {
  timespec ts; if (!g_active) raw_sys(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts, 0, 0, 0, 0); else { if (g_on) ev(E_CLOCK); from_ns(real_ns(), &ts); }
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t* out) {
  timespec ts; if (!g_active) raw_sys(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts, 0, 0, 0, 0); else { if (g_on) ev(E_CLOCK); from_ns(real_ns(), &ts); }
  if (out) *out = ts.tv_sec; return ts.tv_sec;
}
static int64_t do_sleep(int64_t ns, bool* intr) {   // returns what was left
  if (ns < 0) ns = 0;
  uint32_t v = 0; int64_t left = 0;
  if (g_on) sync_ev(E_SLEEP);
  if (g_on && fault(F_EINTR, 4, &v)) { left = ns - ns * v / 4; if (left == 0 && ns > 0) left = 1; *intr = true; }
  g_on = 0; block(W_SLEEP, nullptr, now_mono() + (ns - left)); set_on();
  return left;
}
EXPORT int nanosleep(const timespec* rq, timespec* rm) {
  if (!g_active) return r_nanosleep(rq, rm);
  if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999 || rq->tv_sec < 0) { errno = EINVAL; return -1; }
  bool in = false; int64_t left = do_sleep(rq->tv_sec * 1000000000ll + rq->tv_nsec, &in);
  if (in) { if (rm) from_ns(left, rm); errno = EINTR; return -1; } return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const timespec* rq, timespec* rm) {
  if (!g_active) { return r_nanosleep(rq, rm) ? errno : 0; }
  if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999 || rq->tv_sec < 0) return EINVAL;
  int64_t n = rq->tv_sec * 1000000000ll + rq->tv_nsec;
  if (fl & TIMER_ABSTIME) n -= c == CLOCK_REALTIME ? real_ns() : mono_ns();
  bool in = false; int64_t left = do_sleep(n, &in);
  if (in) { if (rm && !(fl & TIMER_ABSTIME)) from_ns(left, rm); return EINTR; } return 0;
}
EXPORT int usleep(useconds_t us) {
  if (!g_active) { timespec t; from_ns(us * 1000ll, &t); return r_nanosleep(&t, nullptr); }
  bool in = false; do_sleep(us * 1000ll, &in); if (in) { errno = EINTR; return -1; } return 0;
}
EXPORT unsigned sleep(unsigned s) {
  if (!g_active) { timespec t; from_ns(s * 1000000000ll, &t); r_nanosleep(&t, nullptr); return 0; }
  bool in = false; int64_t l = do_sleep(s * 1000000000ll, &in); return in ? (unsigned)((l + 999999999) / 1000000000ll) : 0;
}
static struct tm g_tm __attribute__((aligned(8)));      // the C library's one static buffer
static void tm_fill(struct tm* dst, const struct tm* src, void* pc, bool stat) {
  // field by field, so that a concurrent reader can see a half-written buffer
  int* d = (int*)dst; const int* s = (const int*)src;
  for (int i = 0; i < 9; i++) {
    if (g_on) { if (stat) sync_ev(E_WRITE); else ev(E_WRITE); if (addr_ok((uintptr_t)(d + i), 4, A_W, pc)) race_check((uintptr_t)(d + i), 4, A_W, pc); }
    d[i] = s[i];
  }
  dst->tm_gmtoff = src->tm_gmtoff; dst->tm_zone = src->tm_zone;
}
EXPORT struct tm* localtime_r(const time_t* t, struct tm* out) {
  if (!g_active) return r_localtime_r(t, out);
  int o = g_on; g_on = 0; struct tm x; struct tm* r = r_localtime_r(t, &x); g_on = o; if (!r) return r;
  tm_fill(out, &x, PC, false); return out;
}
EXPORT struct tm* gmtime_r(const time_t* t, struct tm* out) {
  if (!g_active) return r_gmtime_r(t, out);
  int o = g_on; g_on = 0; struct tm x; struct tm* r = r_gmtime_r(t, &x); g_on = o; if (!r) return r;
  tm_fill(out, &x, PC, false); return out;
}
EXPORT struct tm* localtime(const time_t* t) {
  if (!g_active) { r_localtime_r(t, &g_tm); return &g_tm; }
  int o = g_on; g_on = 0; struct tm x; struct tm* r = r_localtime_r(t, &x); g_on = o; if (!r) return r;
  tm_fill(&g_tm, &x, PC, true); return &g_tm;
}
EXPORT struct tm* gmtime(const time_t* t) {
  if (!g_active) { r_gmtime_r(t, &g_tm); return &g_tm; }
  int o = g_on; g_on = 0; struct tm x; struct tm* r = r_gmtime_r(t, &x); g_on = o; if (!r) return r;
  tm_fill(&g_tm, &x, PC, true); return &g_tm;
}

// ------------------------------------------------------------------ the simulated disk: files below /sim/
namespace sim {
struct SimFile { DiskFile d; char name[200]; int fd; FILE* fp; uint64_t lost; bool full; };
static SimFile g_files[16]; static int g_nfiles; static bool g_diskfaults;
DiskFile* disk_find(const char* n) { for (int i = 0; i < g_nfiles; i++) if (!strcmp(g_files[i].name, n)) return &g_files[i].d; return nullptr; }
uint64_t disk_lost(const char* n) { for (int i = 0; i < g_nfiles; i++) if (!strcmp(g_files[i].name, n)) return g_files[i].lost; return 0; }
void disk_faults(bool on) { g_diskfaults = on; }
static SimFile* by_fd(int fd) { for (int i = 0; i < g_nfiles; i++) if (g_files[i].fp && g_files[i].fd == fd) return &g_files[i]; return nullptr; }
static void disk_append(SimFile* f, const void* p, size_t n) {
  if (f->d.len + n > (1u << 20)) infra("simulated file too long");
  raw_copy(f->d.data + f->d.len, p, n); f->d.len += n;
}
static ssize_t disk_write(SimFile* f, const void* p, size_t n) {
  if (g_on) ev(E_IO);
  if (f->full) { f->lost += n; errno = ENOSPC; return -1; }
  uint32_t v = 0;
  if (n && fault(F_DISK_WRITE, 4, &v)) { f->d.write_failed = true; f->lost += n; if (v & 1) f->full = true; errno = v & 2 ? EIO : ENOSPC; return -1; }
  if (n > 1 && fault(F_DISK_SHORT, 1000, &v)) { size_t k = 1 + (size_t)v * (n - 2) / 1000; disk_append(f, p, k); return k; }
  disk_append(f, p, n); return n;
}
static FILE* sim_fopen(const char* name, const char* mode) {
  if (g_on) ev(E_IO);
  SimFile* f = nullptr;
  for (int i = 0; i < g_nfiles; i++) if (!strcmp(g_files[i].name, name)) f = &g_files[i];
  if (!f) { if (g_nfiles == 16) infra("too many simulated files"); f = &g_files[g_nfiles++]; strncpy(f->name, name, 199); f->d.name = f->name; f->d.data = (unsigned char*)rt_alloc(1 << 20); }
  if (fault(F_DISK_OPEN)) { f->d.open_failed = true; errno = EACCES; return nullptr; }
  if (!strchr(mode, 'w') && !strchr(mode, 'a')) { errno = ENOENT; return nullptr; }
  if (strchr(mode, 'w')) f->d.len = 0;
  f->d.opens++;
  int fd = memfd_create("sim", 0); if (fd < 0) infra("memfd_create failed");
  f->fd = fd; f->fp = fdopen(fd, "w"); return f->fp;
}
}
EXPORT FILE* fopen(const char* name, const char* mode) {
  if (g_active && !strncmp(name, "/sim/", 5)) { int o = g_on; (void)o; return sim_fopen(name, mode); }
  return r_fopen(name, mode);
}
EXPORT FILE* fopen64(const char* name, const char* mode) { return fopen(name, mode); }
EXPORT ssize_t write(int fd, const void* p, size_t n) {
  if (g_active) if (SimFile* f = by_fd(fd)) return disk_write(f, p, n);
  long r = raw_sys(SYS_write, fd, (long)p, n, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r;
}
EXPORT ssize_t writev(int fd, const struct iovec* v, int n) {
  if (g_active) if (SimFile* f = by_fd(fd)) { ssize_t t = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; bool wf = f->d.write_failed; uint64_t lost = f->lost; ssize_t r = disk_write(f, v[i].iov_base, v[i].iov_len); if (r < 0) { if (!t) return -1; f->d.write_failed = wf; f->lost = lost; return t; /* only a short write: the caller learns of no error */ } t += r; if ((size_t)r < v[i].iov_len) return t; } return t; }
  long r = raw_sys(SYS_writev, fd, (long)v, n, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r;
}
EXPORT int fclose(FILE* fp) {
  if (g_active) for (int i = 0; i < g_nfiles; i++) { SimFile* f = &g_files[i]; if (f->fp == fp) {
    if (g_on) ev(E_IO);
    bool bad = fault(F_DISK_CLOSE); f->fp = nullptr; int o = g_on; g_on = 0; r_fclose(fp); g_on = o;
    if (bad) { f->d.close_failed = true; errno = EIO; return EOF; } return 0; } }
  return r_fclose(fp);
}

// ------------------------------------------------------------------ failures of the process
EXPORT void __assert_fail(const char* x, const char* file, unsigned line, const char* fn) {
  if (g_active) { const char* b = strrchr(file, '/'); fail("assert", "assertion \"%s\" failed in %s at %s:%u", x, fn, b ? b + 1 : file, line); }
  fprintf(stderr, "assertion %s failed at %s:%u (%s)\n", x, file, line, fn); abort();
}
static void on_signal(int s, siginfo_t* si, void*) {
  if (!g_active || !R) { raw_sys(SYS_exit_group, 2, 0, 0, 0, 0, 0); }
  int was = g_on; g_on = 0;
  if (s == SIGVTALRM) {
    static uint64_t last = ~0ull; static int same;
    same = g_cur && !g_cur->quiet && last == g_ev ? same + 1 : 0; last = g_ev;
    if (same < 3) { g_on = was; return; }
    fail("hang", "T%d runs for seconds of processor time without any memory access or call", g_cur ? g_cur->tid : -1);
  }
  if (s == SIGSEGV && si && g_cur && (uintptr_t)si->si_addr - STACKS < (uintptr_t)MAXT * STACK_SZ && ((uintptr_t)si->si_addr - STACKS) % STACK_SZ < 65536)
    fail("crash", "stack overflow in T%d", g_cur->tid);
  fail("crash", "signal %d (%s) in T%d", s, strsignal(s), g_cur ? g_cur->tid : -1);
}
static void on_terminate() {
  g_on = 0; char what[300] = "no active exception";
  if (g_active && R) {
    std::type_info* ti = abi::__cxa_current_exception_type();
    if (ti) { try { throw; } catch (std::exception& e) { snprintf(what, sizeof what, "%s: %s", ti->name(), e.what()); } catch (...) { snprintf(what, sizeof what, "%s", ti->name()); } }
    fail("terminate", "std::terminate is called in T%d (%s)", g_cur ? g_cur->tid : -1, what);
  }
  abort();
}

namespace sim {
template <typename F> static void sym(F& f, const char* n) { f = (F)dlsym(RTLD_NEXT, n); if (!f) { fprintf(stderr, "simulator: no %s\n", n); _exit(2); } }
void rt_init() {
  early_map();
  x_text0 = (uintptr_t)&__executable_start; x_text1 = (uintptr_t)&etext;
  x_data0 = (uintptr_t)&__data_start & ~4095ull; x_data1 = ((uintptr_t)&_end + 4095) & ~4095ull;
  map_fixed(CELLS_S, (MAXT * STACK_SZ >> 3) * sizeof(Cell));
  map_fixed(CELLS_D, ((x_data1 - x_data0) >> 3) * sizeof(Cell));
  map_fixed(STACKS, MAXT * STACK_SZ); mprotect((void*)STACKS, MAXT * STACK_SZ, PROT_NONE);
  sym(r_create, "pthread_create"); sym(r_join, "pthread_join"); sym(r_detach, "pthread_detach"); sym(r_nanosleep, "nanosleep");
  sym(r_clock_gettime, "clock_gettime"); sym(r_localtime_r, "localtime_r"); sym(r_gmtime_r, "gmtime_r");
  sym(r_fopen, "fopen"); sym(r_fclose, "fclose");
  pthread_key_create(&g_exitkey, thread_gone);
  std::set_terminate(on_terminate);
  void* bt[4]; backtrace(bt, 4);                 // loads libgcc now
  time_t z = 0; struct tm x; r_localtime_r(&z, &x);
}
void rt_fix_heap() { driver_heap_fix(); }
static void* main_tramp(void* a) { g_fn(a); return nullptr; }

void rt_run(const RunCfg& cfg, void (*fn)(void*), void* arg, Result* res) {
  prctl(78 /* PR_FUTEX_HASH */, 1 /* SET_SLOTS */, 0, 0, 0);   // the kernel's private futex hash delays the release of dead processes
  R = res; C = cfg; g_junk = cfg.junk; g_fn = fn;
  g_rng.s = cfg.sched_seed * 0x9E3779B97F4A7C15ull + 0x1234567; g_frng.s = cfg.sched_seed * 0xD1B54A32D192ED03ull + 0x7654321;
  g_rng.next(); g_frng.next();
  if (!cfg.replay) {
    g_strat = cfg.strategy;
    if (g_strat < 0) { unsigned r = g_rng.below(100); g_strat = r < 3 ? S_DEFAULT : r < 41 ? S_WALK : r < 57 ? S_PCT : r < 64 ? S_RR : r < 82 ? S_STALL : S_SYNC; }
    if (cfg.hold) g_strat = S_STALL;
    static const uint32_t rates[] = {300000, 100000, 30000, 10000, 3000, 1000, 300};
    g_pppm = rates[g_rng.below(7)];
    if (g_strat == S_SYNC) { static const uint32_t sr[] = {500000, 250000, 100000, 40000, 10000}; g_syncppm = sr[g_rng.below(5)]; g_pppm = g_rng.below(2) ? 200 : 0; }
    if (g_strat == S_STALL) { static const uint32_t sr[] = {250000, 100000, 30000}; g_syncppm = sr[g_rng.below(3)]; g_stall_tid = (int)g_rng.below(5); g_stall_a = g_rng.below(1ull << (5 + g_rng.below(11))); g_stall_b = g_stall_a + (1ull << (8 + g_rng.below(10)));
      if (g_rng.below(2) || cfg.hold) { g_hold = true; g_holds = (int)g_rng.below(6); g_stall_tid = -1; g_stall_b = ~0ull; }
      if (g_hold && g_rng.below(2)) { g_hold_atsync = true; g_stall_a = ~0ull; g_hold_sync = 1 + (uint32_t)g_rng.below(1ull << (2 + g_rng.below(9))); }
      if (g_hold && g_rng.below(cfg.hold ? 4 : 2)) { g_hold_sync = 0; g_hold_op = 1 + (int)g_rng.below(1ull << (1 + g_rng.below(cfg.hold ? 3 : 5))); g_stall_a = ~0ull; } }
    if (g_strat == S_RR) { g_rrq = 1 + g_rng.below(1ull << (1 + g_rng.below(9))); }
    if (g_strat == S_PCT) { g_nchg = 1 + (int)g_rng.below(8); uint64_t len = 1ull << (6 + g_rng.below(11)); for (int i = 0; i < g_nchg; i++) g_chg[i] = 1 + g_rng.below(len);
      for (int i = 0; i < g_nchg; i++) for (int j = i + 1; j < g_nchg; j++) if (g_chg[j] < g_chg[i]) { uint64_t t = g_chg[i]; g_chg[i] = g_chg[j]; g_chg[j] = t; } }
    for (unsigned k = 0; k < F_COUNT; k++) { FK& f = g_fk[k];
      f.en = (cfg.fault_mask >> k & 1) && g_frng.below(100) < 65; f.oneshot = g_frng.below(100) < 45; f.nth = (uint32_t)g_frng.below(1ull << (1 + g_frng.below(9)));
      static const uint32_t fr[] = {400000, 150000, 50000, 15000, 4000}; f.ppm = fr[g_frng.below(5)]; }
  } else { g_strat = S_DEFAULT; }
  struct sigaction sa; raw_set(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}; for (int s : sg) sigaction(s, &sa, nullptr);
  struct itimerval it; raw_set(&it, 0, sizeof it); it.it_value.tv_sec = 2; it.it_interval.tv_sec = 2; setitimer(ITIMER_VIRTUAL, &it, nullptr);
  g_bump = RUN0; g_allocseq = 0; g_live_blocks = g_live_bytes = 0;
  g_nthr = 0; g_cur = nullptr; g_reuse = false;
  Thread* t = new_thread(main_tramp, arg);
  g_cur = t; g_active = true; g_next = 1; g_hash = 0xcbf29ce484222325ull;
  strat_next();
  fut_wake(&t->fut);
  fut_wait(&g_done);
  // the main simulated thread has ended: every other thread must have been joined by the scenario
  g_on = 0;
  for (int i = 1; i < g_nthr; i++) if (g_thr[i].st != T_DONE) { R->status = 3; snprintf(R->msg, sizeof R->msg, "scenario ended while T%d is alive", i); raw_sys(SYS_exit_group, 2, 0, 0, 0, 0, 0); }
  finish(1, nullptr);
}
} // namespace sim
