// Deterministic simulator run-time: interface for scenarios and the driver.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>

namespace sim {

enum FaultKind : unsigned {
  F_ALLOC, F_WEAKCAS, F_SPURIOUS, F_THREAD_CREATE, F_STREAM_ERR, F_STREAM_THROW, F_CLOCK_JUMP,
  F_EINTR, F_STALL, F_DISK_OPEN, F_DISK_WRITE, F_DISK_SHORT, F_DISK_CLOSE, F_COPY_THROW,
  F_INSERT_THROW, F_CTOR_THROW, F_CHUNK, F_READ_ERR, F_LISTENER_THROW, F_SIGPICK, F_WAKE,
  F_COUNT
};
extern const char* const fault_names[F_COUNT];

enum EvKind : unsigned {
  E_READ = 1, E_WRITE, E_AREAD, E_AWRITE, E_ARMW, E_FENCE, E_LOCK, E_UNLOCK, E_TRYLOCK, E_CWAIT,
  E_CSIGNAL, E_CREATE, E_JOIN, E_EXIT, E_YIELD, E_SLEEP, E_GUARD, E_ONCE, E_CLOCK, E_USER, E_FORCED,
  E_FUTEX, E_RW, E_IO
};

struct Ovr { uint64_t ev; int32_t tid; int32_t pad; };
struct Flt { uint32_t kind, nth, val; };

enum { MAX_OVR = 1 << 16, MAX_FLT = 1 << 13, NPROBE = 96, MAX_BT = 24 };

struct Result {            // lives in shared memory
  volatile int status;     // 0 running, 1 ok, 2 violation, 3 infrastructure error
  char cls[64];
  char msg[6000];
  uint64_t hash, events, switches, preempts, obligations;
  int64_t simns;
  uint32_t nfault[F_COUNT], nopp[F_COUNT];
  uint64_t probes[NPROBE];
  uint32_t novr, nflt, nthreads, nbt;
  void* bt[MAX_BT];
  uint32_t nbt2; void* bt2[MAX_BT];
  Ovr ovr[MAX_OVR];
  Flt flt[MAX_FLT];
};

struct RunCfg {
  bool replay = false;
  uint64_t sched_seed = 1;
  const Ovr* ovr = nullptr; uint32_t novr = 0;
  const Flt* flt = nullptr; uint32_t nflt = 0;
  int junk = 0xAA;               // fill of fresh memory (-1: pattern)
  uint64_t tick_ns = 100;        // simulated time per event
  int64_t real0_ns = 1700000000LL * 1000000000LL; // wall clock at start
  uint64_t budget = 3000000;     // events before the fair phase, and again before "livelock"
  unsigned fault_mask = 0;       // kinds the explorer may inject
  int strategy = -1;             // -1: by seed
  bool hold = false;             // hold one thread inside of an operation until no other can run
  bool trace = false;
};

// --- driver side
void rt_init();                                       // once per process, before forking runs
void rt_fix_heap();
void rt_run(const RunCfg&, void (*fn)(void*), void* arg, Result* res);  // in a forked child

// --- scenario side
typedef void (*WatchHook)(int what, uint64_t value);  // 0 load, 1 store, 2 read-modify-write, 3 the same failing spuriously, 4 yield
struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; };
struct NoFaults { NoFaults(); ~NoFaults(); };         // no injected faults on this thread meanwhile
struct FaultWindow { unsigned old; FaultWindow(unsigned mask); ~FaultWindow(); }; // enables kinds on this thread
void faults_global(unsigned mask);                    // enables kinds on every thread
void point(unsigned kind = E_USER);
void watch(const void* addr, size_t n, WatchHook fn); // calls fn at every atomic access there and every yield
bool active();
int  tid();
uint64_t stamp();                                     // unique, increasing sequence number
uint64_t event_count();
bool fault(FaultKind k, uint32_t nvalues = 1, uint32_t* value = nullptr);
void count_fault(FaultKind k);
uint64_t fault_hits(FaultKind k);                      // faults of a kind injected so far
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void infra(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(unsigned id, uint64_t n = 1);
void obligation(uint64_t n = 1);
void fair(bool on);                                   // fair round robin from now on
void reuse_threads(bool on);                          // threads created from now on may take the place (number, stack) of joined ones
void clock_jump(int64_t ns);                          // wall clock step
void advance(int64_t ns);                             // pass simulated time
int64_t mono_ns();
int64_t real_ns();
uint64_t yields(int tid);                             // sched_yield calls of a thread
uint64_t my_events();                                 // events executed by the calling thread
uint64_t live_blocks();                               // blocks obtained by the code under test, not returned
uint64_t live_bytes();
uint64_t alloc_seq();                                 // marks a moment for leak checks
void check_leaks(uint64_t since, const char* what);   // fails if a block allocated since is still live
uint64_t live_since(uint64_t since);                  // bytes allocated since and still live
void set_localtime_hook(bool on);
int  runnable_others();
bool sleep_until_idle(int64_t max_ns = -1);           // blocks until every other thread is blocked without a timer; false: time is up
void op_point();                                              // an operation of the program starts
struct DiskFile { const char* name; unsigned char* data; size_t len; bool open_failed, write_failed, close_failed; int opens; };
DiskFile* disk_find(const char* name);
void disk_faults(bool on);
uint64_t disk_lost(const char* name);
}
