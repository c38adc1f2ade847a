// Interface between the simulator runtime (runtime.cc) and the harness.
// Nothing in here is visible to the code under test.
#ifndef VERIF_SIM_SIM_H_
#define VERIF_SIM_SIM_H_

#include <cstddef>
#include <cstdint>

namespace sim {

constexpr int kMaxThreads = 64;

// Kinds of decisions. Every decision has a default; a run is fully described
// by its plan plus the decisions that differ from the default.
enum DecKind : int {
  kDecSched = 0,   // which thread runs next (value: thread id)
  kDecStale,       // which store a load returns (0: newest)
  kDecSpurious,    // spurious wake-up (0: none, else waiter index + 1)
  kDecNotify,      // which waiter a notify_one wakes (index)
  kDecTick,        // extra clock advance at a clock read, in ticks
  kDecJump,        // clock jump at a clock read, 0: none
  kDecWeakCas,     // spurious failure of a weak compare-exchange
  kDecAllocFail,   // failing allocation
  kDecThreadFail,  // failing thread creation
  kDecMigrate,     // migration of the current thread to another core type
  kDecOversleep,   // late wake-up from a sleep
  kDecSyscall,     // failing or short system call
  kDecWall,        // step of the wall clock when it is read (0: none)
  kDecUser,        // decisions taken by the harness
  kDecCount
};
extern const char* const kDecNames[kDecCount];

// Configuration of one run, from the plan.
struct Config {
  int64_t strategy = 0;        // 0 random walk, 1 sticky, 2 PCT, 3 round robin, 4 stall
  int64_t sticky_permille = 900;
  int64_t pct_depth = 3;
  int64_t pct_len = 2000;      // expected number of steps
  int64_t stall_len = 300;     // steps a victim is stalled
  int64_t stale_permille = 0;  // probability of returning an older store
  int64_t spurious_permille = 0;
  int64_t weakcas_permille = 0;
  int64_t tick_ns = 1000;      // clock advance per clock read
  int64_t tick_jitter = 0;     // max extra ticks per clock read
  int64_t jump_permille = 0;   // probability of a clock jump at a clock read
  int64_t jump_ns = 0;
  int64_t step_ns = 20;        // clock advance per scheduling step
  int64_t coarse_ns = 4000000; // granularity of the coarse clock
  int64_t oversleep_ns = 0;    // max late wake-up
  int64_t heap_reuse = 0;      // 0: never reuse addresses, 1: LIFO reuse
  int64_t alloc_fail_nth = 0;  // 1-based index of the failing allocation (0: none)
  int64_t alloc_fail_permille = 0;
  int64_t alloc_fail_plain = 0;  // only allocations without special alignment fail
  int64_t mem_limit = 0;       // allocations fail beyond this many live bytes
  int64_t thread_fail_nth = 0;
  int64_t migrate_permille = 0;
  int64_t perf_open_fail_nth = 0;   // 1-based index of the refused event counter
  int64_t perf_rates = 1;
  int64_t perf_read_fail_permille = 0;
  int64_t track_races = 1;
  int64_t max_steps = 1000000;
  int64_t calm_after = 150000; // steps after which scheduling is fair and fault-free
  int64_t fair = 60;           // consecutive steps after which a thread yields
};
extern Config g_cfg;

// ---- run control (called by the process that forks runs) -------------------
struct Decision {
  uint32_t kind_index;  // kind << 27 | index within kind
  uint32_t value;
};
constexpr uint32_t kMaxDecisions = 1u << 19;
constexpr int kMaxProbes = 64;

struct Outcome {
  // 0 running/unknown, 1 finished, 2 violation, 3 accepted end (e.g. process
  // terminated by the library after an injected failure), 4 machinery error
  int32_t status;
  char cls[48];
  char msg[1200];
  uint64_t steps, switches, accesses, atomics, stale_reads;
  uint64_t vtime_ns;
  uint64_t event_hash, sched_hash, state_hash;
  uint32_t threads;
  uint32_t alloc_calls;
  uint32_t passed_over;  // failures of a class the property does not care about
  char passed_cls[48];
  uint64_t fired[kDecCount];       // non-default decisions taken
  uint64_t considered[kDecCount];  // decision points
  uint64_t probes[kMaxProbes];
  char probe_names[kMaxProbes][32];
  uint32_t nprobes;
  uint32_t ndec;
  uint32_t dec_overflow;
  Decision dec[kMaxDecisions];
  uint32_t log_len;
  char log[1 << 18];  // human readable event log (only when verbose)
};
extern Outcome* g_out;  // shared memory

void Init();  // once per process, before any run

// Runs `body` on simulated thread 0 in the current process, never returns.
// seed: seed of the decision source. If replay != nullptr, decisions come from
// there instead.
[[noreturn]] void RunInThisProcess(uint64_t seed, const Decision* replay,
                                   uint32_t nreplay, bool verbose,
                                   void (*body)(void*), void* arg);

// ---- services for the harness ------------------------------------------------
[[noreturn]] void Fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
// Like Fail if the property being checked cares about this class (SetAccept);
// otherwise the run goes on, so that it can still violate that property.
void Soft(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
void SetAccept(const char* const* classes, size_t n);
// Ends the run without violation.
[[noreturn]] void Accept(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void Machinery(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void Probe(const char* name, uint64_t n = 1);
void MixState(uint64_t v);  // contributes to the state signature of the run

int Self();  // simulated thread id
uint64_t NowNs();
void AdvanceNs(uint64_t ns);
uint64_t IdleNs();  // virtual time during which every thread was waiting
void Yield();  // scheduling point
uint32_t Choose(uint32_t n, uint32_t permille_nondefault);  // default 0
uint64_t Steps();
// Whether this system call fails, and in which of n ways (0: it does not).
uint32_t SyscallFault(uint32_t n, uint32_t permille);

// Library code runs inside SutScope (allocation accounting, fault injection);
// callbacks from the library into the harness use HarnessScope.
void EnterSut();
void LeaveSut();
struct SutScope {
  SutScope() { EnterSut(); }
  ~SutScope() { LeaveSut(); }
};
int PushHarness();
void PopHarness(int);
struct HarnessScope {
  int d;
  HarnessScope() : d(PushHarness()) {}
  ~HarnessScope() { PopHarness(d); }
};

// Memory of the simulated user: checked like library memory.
void* UserAlloc(size_t size, size_t align, size_t misalign);
void UserFree(void* p);
void UserRead(const void* p, size_t n);   // plain access by the user
void UserWrite(const void* p, size_t n);

// Registers a watched range: any write to it by library code is a violation
// with class "const-write".
void WatchConst(const void* p, size_t n, bool on);

struct HeapStats {
  int64_t live_blocks, live_bytes;   // library-owned
  int64_t total_allocs;              // allocation calls by the library
  int64_t system_calls;              // same, excluding failed ones
};
HeapStats Heap();
// Range query: true if [p,p+n) lies inside one live library or user block.
bool HeapOwned(const void* p, size_t n, const void** base, size_t* size);
// Threads (bit mask) that last wrote some part of the range.
uint64_t LastWriters(const void* p, size_t n);
// Faults are injected only while armed, into all threads or this one.
void ArmAllocFaults(bool on, bool only_self = false);
bool AllocFaultFired();
void SetTrackRaces(bool on);
void DescribeLeaks(char* buf, size_t n);

struct ThreadInfo {
  bool exists, finished, joined, sut_created;
  bool blocked;        // blocked on mutex/cond/join/sleep
  bool in_cond_wait;
  uint64_t steps;
  // Monitor of idle waits, reset by MonitorReset.
  uint64_t first_clock_ns;   // first clock value read since reset (0: none)
  uint64_t last_clock_ns;
  uint64_t clock_reads;
  uint64_t atomics;          // atomic operations since reset
  uint64_t atomics_after_expiry;  // after a clock value >= first + expiry_ns
  uint64_t expiry_ns;
  uint64_t cond_waits;       // times it blocked on a condition variable
  uint64_t first_block_ns, first_block_clock_ns;
  uint64_t atomics_before_block;
  uint64_t after_expiry_at_block;
  uint64_t timer_wakes;      // timed waits that timed out, and naps
};
int ThreadCount();  // threads created so far in this run (including 0)
const ThreadInfo& Info(int tid);
void MonitorReset(int tid, uint64_t expiry_ns);
int ThreadsCreatedBySut();
int LiveSutThreads();

// Simulated CPU (see cpuinfo_stub.cc).
int CurrentCore();        // core type index the current thread runs on
int CoreOf(int tid);
void SetCore(int tid, int core);
void NoteMigration();
extern int g_num_core_types;
extern void (*g_migration_hook)(int tid, int core);
extern bool g_accept_termination;   // abort/null-segv counts as accepted end
extern bool g_accept_only_armed;    // ... only while faults are armed
extern void (*g_sut_thread_hook)(int tid);  // called when a library thread is created
// Called whenever a thread locks a mutex (after acquisition).
extern void (*g_lock_hook)(int tid, const void* m);

}  // namespace sim

#endif
