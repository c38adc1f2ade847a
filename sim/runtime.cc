// Deterministic simulator runtime: scheduler, virtual time, weak memory, race
// detector, checked heap, fault injection. Implements the entry points that
// gcc's -fsanitize=thread instrumentation calls, and interposes the C library
// functions through which the code under test uses threads, time and memory.
//
// This file is never instrumented.

#include "sim.h"

#include <dlfcn.h>
#include <initializer_list>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define EXPORT extern "C" __attribute__((visibility("default")))

namespace sim {

const char* const kDecNames[kDecCount] = {
    "sched",     "stale",      "spurious-wakeup", "notify-choice", "clock-tick",
    "clock-jump", "weak-cas",  "alloc-fail",      "thread-fail",   "migrate",
    "oversleep", "syscall-fail", "wall-clock-step", "user"};

Config g_cfg;
Outcome* g_out;
int g_num_core_types = 1;
void (*g_migration_hook)(int, int) = nullptr;
bool g_accept_termination = false;
bool g_accept_only_armed = false;
void (*g_sut_thread_hook)(int) = nullptr;
void (*g_lock_hook)(int, const void*) = nullptr;

namespace {

// ---------------------------------------------------------------------------
// Address space layout.
constexpr uintptr_t kHeapBase = 0x100000000000ull;
constexpr uintptr_t kHeapSize = 4ull << 30;
constexpr uintptr_t kStackBase = 0x110000000000ull;
constexpr uintptr_t kStackSlot = 1ull << 20;
constexpr uintptr_t kStackSize = kStackSlot * kMaxThreads;
constexpr uintptr_t kDeadBytes = 64 << 10;
constexpr uintptr_t kHarnBase = 0x120000000000ull;
constexpr uintptr_t kHarnSize = 8ull << 30;
constexpr uintptr_t kHeapState = 0x130000000000ull;   // 1 byte per granule
constexpr uintptr_t kHeapSlots = 0x140000000000ull;   // 32 bytes per granule
constexpr uintptr_t kStackState = 0x150000000000ull;
constexpr uintptr_t kStackSlots = 0x160000000000ull;
constexpr uintptr_t kGlobState = 0x170000000000ull;
constexpr uintptr_t kGlobSlots = 0x180000000000ull;
constexpr uintptr_t kRtBase = 0x190000000000ull;      // runtime's own memory
constexpr uintptr_t kRtSize = 2ull << 30;

extern "C" char __data_start;
extern "C" char _end;
uintptr_t g_glob_lo, g_glob_size;

void MapFixed(uintptr_t base, size_t size) {
  void* p = mmap(reinterpret_cast<void*>(base), size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p != reinterpret_cast<void*>(base)) {
    static const char m[] = "sim: cannot map fixed region\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
  }
}

char* g_rt_bump;
void* RtAlloc(size_t n) {
  n = (n + 63) & ~size_t{63};
  char* p = g_rt_bump;
  g_rt_bump += n;
  if (g_rt_bump > reinterpret_cast<char*>(kRtBase + kRtSize)) _exit(96);
  return p;
}

// ---------------------------------------------------------------------------
struct VC {
  uint32_t c[kMaxThreads];
};

enum TState : int {
  kUnused = 0,
  kRunnable,
  kBlockMutex,
  kBlockCond,
  kBlockJoin,
  kBlockSleep,
  kBlockGuard,
  kFinished
};
const char* const kStateNames[] = {"unused", "runnable", "mutex", "cond",
                                   "join",   "sleep",    "guard", "finished"};

struct SimThread {
  int id;
  int state;
  volatile int turn;
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  VC vc;
  VC acq_fence;
  VC rel_fence;
  bool has_rel_fence;
  int sut_depth;
  int in_rt;
  bool sut_created;
  bool detached, joined;
  const void* wobj;
  bool timed;
  bool timedout;
  uint64_t deadline;
  int join_target;
  uint64_t last_run_step;
  uint64_t acc_since_yield;
  int prio;
  int core;
  uint64_t cpu_ns;  // time that passed in its own clock readings
  ThreadInfo info;
};

SimThread* g_threads;  // kMaxThreads
uint64_t g_idle_ns;    // virtual time during which no thread could run
int g_nthreads;
bool g_active;
bool g_verbose;
bool g_track;
uint64_t g_vnow;
int64_t g_wall_off = 1700000000000000000ll;  // wall clock minus monotonic clock
uint64_t g_steps;
int g_consecutive;
__thread SimThread* cur __attribute__((tls_model("initial-exec")));
__thread bool t_dead __attribute__((tls_model("initial-exec")));
pthread_key_t g_exit_key;
volatile int g_done_futex;

// PRNG: splitmix-seeded xoshiro-like.
struct Rng {
  uint64_t s;
  uint64_t Next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t Below(uint32_t n) { return n ? Next() % n : 0; }
  bool Permille(int64_t p) { return p > 0 && (int64_t)(Next() % 1000) < p; }
};
Rng g_rng;

// ---------------------------------------------------------------------------
// Decisions.
const Decision* g_replay[kDecCount];
uint32_t g_replay_n[kDecCount];
uint32_t g_replay_pos[kDecCount];
bool g_replaying;
uint32_t g_dec_index[kDecCount];

bool Calm() { return g_steps > (uint64_t)g_cfg.calm_after; }

inline void Mix(uint64_t& h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
}

// Returns the decision value; prng_choice is used unless replaying.
uint32_t Decide(DecKind k, uint32_t prng_choice, uint32_t def) {
  uint32_t idx = g_dec_index[k]++;
  g_out->considered[k]++;
  uint32_t v = def;
  if (g_replaying) {
    uint32_t& p = g_replay_pos[k];
    while (p < g_replay_n[k] &&
           (g_replay[k][p].kind_index & 0x7ffffff) < idx)
      p++;
    if (p < g_replay_n[k] && (g_replay[k][p].kind_index & 0x7ffffff) == idx)
      v = g_replay[k][p].value;
  } else {
    v = prng_choice;
  }
  return v;
}
void Record(DecKind k, uint32_t v, uint32_t def) {
  if (v == def) return;
  g_out->fired[k]++;
  if (g_out->ndec < kMaxDecisions) {
    Decision& d = g_out->dec[g_out->ndec++];
    d.kind_index = ((uint32_t)k << 27) | (g_dec_index[k] - 1);
    d.value = v;
  } else {
    g_out->dec_overflow = 1;
  }
}

// ---------------------------------------------------------------------------
void FutexWait(volatile int* f, int val) {
  syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, val, nullptr, nullptr, 0);
}
void FutexWake(volatile int* f) {
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void WaitTurn(SimThread* t) {
  while (!__atomic_load_n(&t->turn, __ATOMIC_ACQUIRE)) FutexWait(&t->turn, 0);
  __atomic_store_n(&t->turn, 0, __ATOMIC_RELAXED);
}
void GiveTurn(SimThread* t) {
  __atomic_store_n(&t->turn, 1, __ATOMIC_RELEASE);
  FutexWake(&t->turn);
}

[[noreturn]] void EndRun() {
  g_out->steps = g_steps;
  g_out->vtime_ns = g_vnow - 1000000000000ull;
  g_out->threads = g_nthreads;
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

int g_err_fd = -1;
void SetOutcome(int status, const char* cls, const char* msg) {
  g_out->status = status;
  snprintf(g_out->cls, sizeof g_out->cls, "%s", cls);
  snprintf(g_out->msg, sizeof g_out->msg, "%s", msg);
}

void RemoveFromCond(SimThread* t);

// Wakes expired timers.
void WakeTimers() {
  for (int i = 0; i < g_nthreads; i++) {
    SimThread& t = g_threads[i];
    if (t.timed && (t.state == kBlockSleep || t.state == kBlockCond) &&
        t.deadline <= g_vnow) {
      if (t.state == kBlockCond) RemoveFromCond(&t);
      t.timedout = true;
      t.timed = false;
      t.state = kRunnable;
    }
  }
}

// PCT state.
uint64_t g_pct_points[16];
int g_pct_next, g_pct_n;
int g_low_prio;
// Stall state.
int g_victim = -1;
uint64_t g_stall_until;

void DescribeThreads(char* buf, size_t n) {
  size_t o = 0;
  for (int i = 0; i < g_nthreads && o + 40 < n; i++) {
    o += snprintf(buf + o, n - o, " t%d:%s", i, kStateNames[g_threads[i].state]);
    if (g_threads[i].wobj && g_threads[i].state >= kBlockMutex &&
        g_threads[i].state <= kBlockCond)
      o += snprintf(buf + o, n - o, "@%lx",
                    (unsigned long)(uintptr_t)g_threads[i].wobj & 0xffffffffff);
  }
}

uint32_t StrategyPick(const int* run, int n, int curid, bool cur_ok) {
  if (Calm()) return ~0u;
  // Starvation bound.
  for (int i = 0; i < n; i++) {
    SimThread& t = g_threads[run[i]];
    if (g_steps - t.last_run_step > 3000 + (uint64_t)g_cfg.stall_len)
      return run[i];
  }
  switch (g_cfg.strategy) {
    case 1: {
      if (cur_ok && g_rng.Permille(g_cfg.sticky_permille)) return curid;
      return run[g_rng.Below(n)];
    }
    case 2: {
      while (g_pct_next < g_pct_n && g_steps >= g_pct_points[g_pct_next]) {
        g_threads[curid].prio = --g_low_prio;
        g_pct_next++;
      }
      if (cur_ok && g_consecutive >= g_cfg.fair)
        g_threads[curid].prio = --g_low_prio;
      int best = run[0];
      for (int i = 1; i < n; i++)
        if (g_threads[run[i]].prio > g_threads[best].prio) best = run[i];
      return best;
    }
    case 3: {
      for (int i = 0; i < n; i++)
        if (run[i] > curid) return run[i];
      return run[0];
    }
    case 4: {
      if (g_steps >= g_stall_until) {
        if (g_rng.Permille(20)) {
          g_victim = run[g_rng.Below(n)];
          g_stall_until = g_steps + 1 + g_rng.Below(g_cfg.stall_len);
        } else {
          g_victim = -1;
        }
      }
      int cand[kMaxThreads], m = 0;
      for (int i = 0; i < n; i++)
        if (run[i] != g_victim) cand[m++] = run[i];
      if (m == 0) return run[0];
      if (cur_ok && curid != g_victim && g_rng.Permille(g_cfg.sticky_permille))
        return curid;
      return cand[g_rng.Below(m)];
    }
    default:
      return run[g_rng.Below(n)];
  }
}

[[noreturn]] void Deadlock() {
  char b[600];
  int o = snprintf(b, sizeof b, "no runnable thread and no pending timer:");
  DescribeThreads(b + o, sizeof b - o);
  SetOutcome(2, "deadlock", b);
  EndRun();
}

SimThread* PickNext(SimThread* me, bool me_ok) {
  int run[kMaxThreads], n = 0;
  for (;;) {
    n = 0;
    for (int i = 0; i < g_nthreads; i++)
      if (g_threads[i].state == kRunnable) run[n++] = i;
    if (n) break;
    // Advance to the earliest timer.
    uint64_t best = ~0ull;
    for (int i = 0; i < g_nthreads; i++)
      if (g_threads[i].timed && g_threads[i].deadline < best &&
          (g_threads[i].state == kBlockSleep ||
           g_threads[i].state == kBlockCond))
        best = g_threads[i].deadline;
    if (best == ~0ull) Deadlock();
    if (best > g_vnow) {
      g_idle_ns += best - g_vnow;
      g_vnow = best;
    }
    WakeTimers();
  }
  if (n == 1) {
    return &g_threads[run[0]];
  }
  // Default choice.
  uint32_t def;
  if (me_ok && g_consecutive < g_cfg.fair) {
    def = me->id;
  } else {
    def = run[0];
    for (int i = 0; i < n; i++)
      if (run[i] > me->id) {
        def = run[i];
        break;
      }
  }
  uint32_t choice = def;
  if (!g_replaying) {
    choice = StrategyPick(run, n, me->id, me_ok);
    if (choice == ~0u) choice = def;
  }
  uint32_t v = Decide(kDecSched, choice, def);
  if (v >= (uint32_t)g_nthreads || g_threads[v].state != kRunnable) v = def;
  Record(kDecSched, v, def);
  return &g_threads[v];
}

void SwitchTo(SimThread* me, SimThread* next) {
  next->last_run_step = g_steps;
  if (next == me) {
    g_consecutive++;
    return;
  }
  g_consecutive = 0;
  g_out->switches++;
  GiveTurn(next);
  if (me->state != kFinished) WaitTurn(me);
}

enum Ev : int {
  kEvALoad = 1,
  kEvAStore,
  kEvARmw,
  kEvLock,
  kEvUnlock,
  kEvCondWait,
  kEvCondSignal,
  kEvCondBroadcast,
  kEvCreate,
  kEvJoin,
  kEvExit,
  kEvClock,
  kEvSleep,
  kEvYield,
  kEvGuard,
  kEvFence,
  kEvBlocked,
  kEvUserYield,
};
const char* const kEvNames[] = {"",       "load",   "store",  "rmw",
                                "lock",   "unlock", "cwait",  "signal",
                                "bcast",  "create", "join",   "exit",
                                "clock",  "sleep",  "yield",  "guard",
                                "fence",  "block",  "uyield"};

void LogV(const char* fmt, va_list ap) {
  if (!g_verbose) return;
  uint32_t left = sizeof g_out->log - g_out->log_len;
  if (left < 2) return;
  int n = vsnprintf(g_out->log + g_out->log_len, left, fmt, ap);
  if (n > 0) g_out->log_len += (uint32_t)n < left ? n : left - 1;
}

// Harness objects live in memory whose addresses depend on what the process did
// before the run: they are told apart by the order of their first use.
uintptr_t StableId(const void* obj) {
  uintptr_t a = (uintptr_t)obj;
  if (a - kHarnBase >= kHarnSize) return a;
  static uintptr_t seen[64];
  static int n;
  for (int i = 0; i < n; i++)
    if (seen[i] == a) return i + 1;
  if (n < 64) seen[n++] = a;
  return n;
}

// Common part of every scheduling point.
void Bookkeep(SimThread* t, Ev ev, const void* obj) {
  g_steps++;
  t->info.steps++;
  g_out->accesses += t->acc_since_yield;
  t->acc_since_yield = 0;
  g_vnow += g_cfg.step_ns;
  Mix(g_out->event_hash,
      ((uint64_t)t->id << 56) ^ ((uint64_t)ev << 48) ^ StableId(obj));
  Mix(g_out->sched_hash, ((uint64_t)t->id << 8) ^ (uint64_t)ev);
  if (unlikely(g_verbose))
    Log("#%llu t%d %s %lx\n", (unsigned long long)g_steps, t->id, kEvNames[ev],
        (unsigned long)(uintptr_t)obj & 0xffffffffffff);
  if (unlikely(g_steps > (uint64_t)g_cfg.max_steps)) {
    char b[600];
    int o = snprintf(b, sizeof b,
                     "step bound exceeded in fair fault-free tail (running t%d "
                     "%s):",
                     t->id, kEvNames[ev]);
    DescribeThreads(b + o, sizeof b - o);
    SetOutcome(2, "livelock", b);
    EndRun();
  }
  WakeTimers();
  // Spurious wake-ups.
  if (g_cfg.spurious_permille > 0) {
    int w[kMaxThreads], n = 0;
    for (int i = 0; i < g_nthreads; i++)
      if (g_threads[i].state == kBlockCond) w[n++] = i;
    if (n) {
      uint32_t c = 0;
      if (!Calm() && g_rng.Permille(g_cfg.spurious_permille))
        c = 1 + w[g_rng.Below(n)];
      uint32_t v = Decide(kDecSpurious, c, 0);
      if (v > 0 && v - 1 < (uint32_t)g_nthreads &&
          g_threads[v - 1].state == kBlockCond) {
        Record(kDecSpurious, v, 0);
        RemoveFromCond(&g_threads[v - 1]);
        g_threads[v - 1].timed = false;
        g_threads[v - 1].state = kRunnable;
      }
    }
  }
  // Migration.
  if (g_cfg.migrate_permille > 0 && g_num_core_types > 1) {
    uint32_t c = 0;
    if (!Calm() && g_rng.Permille(g_cfg.migrate_permille))
      c = 1 + g_rng.Below(g_num_core_types);
    uint32_t v = Decide(kDecMigrate, c, 0);
    if (v > 0 && v <= (uint32_t)g_num_core_types) {
      Record(kDecMigrate, v, 0);
      t->core = v - 1;
      if (g_migration_hook) g_migration_hook(t->id, t->core);
    }
  }
}

void Sched(Ev ev, const void* obj) {
  SimThread* t = cur;
  Bookkeep(t, ev, obj);
  SwitchTo(t, PickNext(t, true));
}

void Block(SimThread* t, int state, const void* obj) {
  t->state = state;
  t->wobj = obj;
  Bookkeep(t, kEvBlocked, obj);
  SwitchTo(t, PickNext(t, t->state == kRunnable));
  t->wobj = nullptr;
}

// ---------------------------------------------------------------------------
// Shadow memory.
// State byte per 8-byte granule: bits 0-3 number of addressable bytes,
// bit 4: sync objects live here, bit 5: const-watched, bit 6: freed.
constexpr uint8_t kSync = 0x10, kConst = 0x20, kFreed = 0x40;

struct Region {
  uintptr_t base, size, state, slots;
};

// Returns 0 for the heap and 8 for stacks/globals (their state bytes are stored
// xor 8, so that untouched shadow means "addressable"), -1 for other memory.
inline int Resolve(uintptr_t a, uint8_t** st, uint64_t** sl) {
  uintptr_t off = a - kHeapBase;
  if (likely(off < kHeapSize)) {
    *st = reinterpret_cast<uint8_t*>(kHeapState + (off >> 3));
    *sl = reinterpret_cast<uint64_t*>(kHeapSlots + (off >> 3) * 32);
    return 0;
  }
  off = a - kStackBase;
  if (off < kStackSize) {
    *st = reinterpret_cast<uint8_t*>(kStackState + (off >> 3));
    *sl = reinterpret_cast<uint64_t*>(kStackSlots + (off >> 3) * 32);
    return 8;
  }
  off = a - g_glob_lo;
  if (off < g_glob_size) {
    *st = reinterpret_cast<uint8_t*>(kGlobState + (off >> 3));
    *sl = reinterpret_cast<uint64_t*>(kGlobSlots + (off >> 3) * 32);
    return 8;
  }
  return -1;
}

// Slot encoding: clk:32 | tid:6 | start:3 | len-1:3 | write:1 | atomic:1 | valid:1
inline uint64_t EncSlot(uint32_t clk, int tid, int start, int len, bool write,
                        bool atomic) {
  return ((uint64_t)clk << 32) | ((uint64_t)tid << 16) | (start << 8) |
         ((len - 1) << 4) | (write ? 4 : 0) | (atomic ? 2 : 0) | 1;
}

struct Block_ {
  uintptr_t base;     // start of reserved area
  uintptr_t cap;      // reserved bytes
  uintptr_t p;        // payload
  size_t size;
  int kind;           // 0 free, 1 library, 2 user
  bool freed;
  uint32_t seq;
  int tid;
};
Block_* g_blocks;
int g_nblocks;
constexpr int kMaxBlocks = 1 << 20;
uintptr_t g_heap_bump;

int FindBlock(uintptr_t a) {
  int lo = 0, hi = g_nblocks - 1, best = -1;
  while (lo <= hi) {
    int mid = (lo + hi) / 2;
    if (g_blocks[mid].base <= a) {
      best = mid;
      lo = mid + 1;
    } else {
      hi = mid - 1;
    }
  }
  if (best >= 0 && a < g_blocks[best].base + g_blocks[best].cap) return best;
  return -1;
}

const char* DescribeAddr(uintptr_t a, char* b, size_t n) {
  if (a - kHeapBase < kHeapSize) {
    int i = FindBlock(a);
    if (i >= 0)
      snprintf(b, n, "heap block #%u (%s, %zu bytes%s, allocated by t%d) offset %ld",
               g_blocks[i].seq, g_blocks[i].kind == 2 ? "user" : "library",
               g_blocks[i].size, g_blocks[i].freed ? ", freed" : "",
               g_blocks[i].tid, (long)(a - g_blocks[i].p));
    else
      snprintf(b, n, "unallocated heap");
  } else if (a - kStackBase < kStackSize) {
    snprintf(b, n, "stack or thread-local data of %st%d",
             g_threads[(a - kStackBase) / kStackSlot].state == kFinished
                 ? "finished " : "",
             (int)((a - kStackBase) / kStackSlot));
  } else if (a - g_glob_lo < g_glob_size) {
    snprintf(b, n, "global %lx", (unsigned long)a);
  } else {
    snprintf(b, n, "address %lx", (unsigned long)a);
  }
  return b;
}

[[noreturn]] void HeapError(uintptr_t a, size_t size, bool write, uintptr_t pc) {
  char d[200], m[500];
  int i = FindBlock(a);
  bool uaf = (i >= 0 && g_blocks[i].freed) || a - kStackBase < kStackSize;
  snprintf(m, sizeof m, "%s of %zu bytes by t%d at pc %lx: %s",
           write ? "write" : "read", size, cur ? cur->id : -1,
           (unsigned long)pc, DescribeAddr(a, d, sizeof d));
  SetOutcome(2, uaf ? "heap-use-after-free" : "heap-out-of-bounds", m);
  EndRun();
}

const char* const* g_accept;  // null: every class
size_t g_naccept;
bool PassOver(const char* cls) {
  if (!g_accept) return false;
  for (size_t i = 0; i < g_naccept; i++)
    if (!strcmp(g_accept[i], cls)) return false;
  if (!g_out->passed_over++) snprintf(g_out->passed_cls, sizeof g_out->passed_cls, "%s", cls);
  return true;
}

void RaceError(uintptr_t a, size_t size, bool write, bool atomic,
               uintptr_t pc, uint64_t slot) {
  if (PassOver("data-race")) return;
  char d[200], m[600];
  snprintf(m, sizeof m,
           "%s%s of %zu bytes by t%d at pc %lx is unordered with %s%s by t%d "
           "(clock %u): %s",
           atomic ? "atomic " : "", write ? "write" : "read", size, cur->id,
           (unsigned long)pc, (slot & 2) ? "atomic " : "",
           (slot & 4) ? "write" : "read", (int)((slot >> 16) & 63),
           (uint32_t)(slot >> 32), DescribeAddr(a, d, sizeof d));
  SetOutcome(2, "data-race", m);
  EndRun();
}

void DropSync(uintptr_t a, size_t size, bool freeing);

struct ConstRange {
  uintptr_t a;
  size_t n;
};
ConstRange g_const[32];
int g_nconst;

inline void CheckGranule(SimThread* t, uintptr_t a, int off, int len, bool write,
                         bool atomic, uintptr_t pc, int inv, uint8_t* st,
                         uint64_t* sl) {
  uint8_t s = *st ^ inv;
  if (unlikely(off + len > (s & 15))) HeapError(a + off, len, write, pc);
  if (unlikely((s & (kSync | kConst)) && write)) {
    if ((s & kSync) && !atomic) {
      DropSync(a + off, len, false);
    }
    if (s & kConst) {
      for (int i = 0; i < g_nconst; i++)
        if (a + off < g_const[i].a + g_const[i].n && a + off + len > g_const[i].a) {
          char d[200], m[400];
          snprintf(m, sizeof m, "library thread t%d at pc %lx writes operand: %s",
                   t->id, (unsigned long)pc, DescribeAddr(a + off, d, sizeof d));
          SetOutcome(2, "const-write", m);
          EndRun();
        }
    }
  }
  if (!g_track) return;
  uint64_t enc = EncSlot(t->vc.c[t->id], t->id, off, len, write, atomic);
  if (sl[0] == enc || sl[1] == enc || sl[2] == enc || sl[3] == enc) return;
  int put = -1;
  for (int i = 0; i < 4; i++) {
    uint64_t o = sl[i];
    if (o == 0) {
      if (put < 0) put = i;
      continue;
    }
    int ooff = (o >> 8) & 7, olen = ((o >> 4) & 7) + 1;
    if (off + len <= ooff || ooff + olen <= off) continue;
    int otid = (o >> 16) & 63;
    bool owrite = o & 4, oatomic = o & 2;
    bool covers = off <= ooff && off + len >= ooff + olen;
    bool stronger = (write || !owrite) && (!atomic || oatomic);
    if (otid == t->id) {
      if (covers && stronger) {
        if (put < 0 || sl[put] == 0) put = i; else sl[i] = 0;
      }
      continue;
    }
    bool hb = (uint32_t)(o >> 32) <= t->vc.c[otid];
    if (hb) {
      if (covers && stronger && write) {
        if (put < 0 || sl[put] == 0) put = i; else sl[i] = 0;
      }
      continue;
    }
    if (!(write || owrite)) continue;
    if (atomic && oatomic) continue;
    RaceError(a + off, len, write, atomic, pc, o);
  }
  if (put < 0) {
    // Prefer evicting reads that happen before us, otherwise rotate.
    put = (enc >> 32) & 3;
    for (int i = 0; i < 4; i++)
      if (!(sl[i] & 4) &&
          (uint32_t)(sl[i] >> 32) <= t->vc.c[(sl[i] >> 16) & 63]) {
        put = i;
        break;
      }
  }
  sl[put] = enc;
}

void AccessSlow(uintptr_t a, size_t size, bool write, bool atomic, uintptr_t pc) {
  SimThread* t = cur;
  uintptr_t end = a + size;
  while (a < end) {
    uintptr_t g = a & ~uintptr_t{7};
    int off = a - g;
    int len = (end - g < 8 ? end - g : 8) - off;
    uint8_t* st;
    uint64_t* sl;
    int inv = Resolve(g, &st, &sl);
    if (inv < 0) return;
    CheckGranule(t, g, off, len, write, atomic, pc, inv, st, sl);
    a = g + 8;
  }
}

uint64_t g_plain_budget = 3000000000ull;
[[noreturn]] __attribute__((noinline)) void PlainHang() {
  char m[100];
  snprintf(m, sizeof m, "t%d made too many accesses without any scheduling point",
           cur->id);
  SetOutcome(2, "livelock", m);
  EndRun();
}

inline __attribute__((always_inline)) void Access(const volatile void* p,
                                                  size_t size, bool write,
                                                  uintptr_t pc) {
  SimThread* t = cur;
  if (unlikely(!t)) return;
  if (unlikely(++t->acc_since_yield > g_plain_budget)) PlainHang();
  uintptr_t a = (uintptr_t)p;
  uintptr_t g = a & ~uintptr_t{7};
  if (likely(((a + size - 1) & ~uintptr_t{7}) == g)) {
    uint8_t* st;
    uint64_t* sl;
    int inv = Resolve(g, &st, &sl);
    if (inv < 0) return;
    CheckGranule(t, g, a - g, size, write, false, pc, inv, st, sl);
  } else {
    AccessSlow(a, size, write, false, pc);
  }
}

// ---------------------------------------------------------------------------
// Sync object tables.
template <typename T, int kLog2>
struct Table {
  T** slot;
  int count;
  void Init() { slot = (T**)RtAlloc(sizeof(T*) << kLog2); count = 0; }
  static uint32_t H(uintptr_t a) {
    return (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> (64 - kLog2));
  }
  T* Find(uintptr_t a) {
    for (uint32_t i = H(a);; i = (i + 1) & ((1u << kLog2) - 1)) {
      if (!slot[i]) return nullptr;
      if (slot[i]->addr == a) return slot[i];
    }
  }
  T* Get(uintptr_t a, bool* fresh) {
    for (uint32_t i = H(a);; i = (i + 1) & ((1u << kLog2) - 1)) {
      if (!slot[i]) {
        if (++count > (1 << kLog2) - 16) {
          SetOutcome(4, "machinery", "sync table full");
          EndRun();
        }
        slot[i] = (T*)RtAlloc(sizeof(T));
        slot[i]->addr = a;
        *fresh = true;
        return slot[i];
      }
      if (slot[i]->addr == a) {
        *fresh = !slot[i]->live;
        return slot[i];
      }
    }
  }
};

struct Store {
  uint64_t val;
  uint32_t seq;
  int tid;  // -1: initial value
  uint32_t clk;
  bool has_sync;
  VC sync;
};
struct ReadRec {
  int tid;
  uint32_t clk;
  uint32_t seq;
};
constexpr int kHist = 8;
constexpr int kReads = 24;
struct AtomicLoc {
  uintptr_t addr;
  bool live;
  int size;
  uint32_t next_seq;   // seq of the next store
  uint32_t floor;      // no load may return a store older than this
  int n;               // stores in ring
  Store ring[kHist];   // ring[(seq) % kHist]
  ReadRec reads[kReads];
  int nreads;
  uint8_t stale_count[kMaxThreads];
};
// Also readers-writer locks (with readers) and semaphores (depth: the count).
struct SimMutex {
  uintptr_t addr;
  bool live;
  int owner;
  int depth;
  int readers;
  VC vc;
  VC rvc;  // of readers' releases
};
struct SimCond {
  uintptr_t addr;
  bool live;
  int waiters[kMaxThreads];
  int n;
};
struct SimGuard {
  uintptr_t addr;
  bool live;
  int state;  // 0 not done, 1 in progress, 2 done
  VC vc;
};
Table<AtomicLoc, 16> g_atomics;
Table<SimMutex, 13> g_mutexes;
Table<SimCond, 13> g_conds;
Table<SimGuard, 12> g_guards;

void MarkSync(uintptr_t a, size_t n) {
  for (uintptr_t g = a & ~uintptr_t{7}; g < a + n; g += 8) {
    uint8_t* st;
    uint64_t* sl;
    if (Resolve(g, &st, &sl) >= 0) *st |= kSync;
  }
}

void DropSync(uintptr_t a, size_t size, bool freeing) {
  for (uintptr_t g = a & ~uintptr_t{7}; g < a + size; g += 8) {
    uint8_t* st;
    uint64_t* sl;
    if (Resolve(g, &st, &sl) < 0) continue;
    if (!(*st & kSync)) continue;
    bool keep = false;
    for (int o = 0; o < 8; o++) {
      AtomicLoc* l = g_atomics.Find(g + o);
      if (!l || !l->live) continue;
      if (freeing || (g + o < a + size && g + o + l->size > a))
        l->live = false;
      else
        keep = true;
    }
    if (SimMutex* m = g_mutexes.Find(g)) {
      if (freeing) {
        if (m->live && m->owner >= 0) {
          SetOutcome(2, "heap-use-after-free", "memory of a locked mutex is freed");
          EndRun();
        }
        m->live = false;
      } else {
        keep = keep || m->live;
      }
    }
    if (SimCond* c = g_conds.Find(g)) {
      if (freeing) {
        if (c->live && c->n > 0) {
          SetOutcome(2, "heap-use-after-free",
                     "memory of a condition variable with waiters is freed");
          EndRun();
        }
        c->live = false;
      } else {
        keep = keep || c->live;
      }
    }
    if (!keep) *st &= ~kSync;
  }
}

inline void Join(VC& a, const VC& b) {
  for (int i = 0; i < g_nthreads; i++)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
inline void CopyVC(VC& a, const VC& b) {
  memcpy(a.c, b.c, sizeof(uint32_t) * kMaxThreads);
}

template <typename T>
uint64_t RawLoad(const volatile T* a) {
  return (uint64_t)__atomic_load_n(const_cast<const T*>(a), __ATOMIC_SEQ_CST);
}

template <typename T>
AtomicLoc* Loc(const volatile T* a) {
  bool fresh = false;
  AtomicLoc* l = g_atomics.Get((uintptr_t)a, &fresh);
  uint64_t mem = RawLoad(a);
  if (!fresh && l->live &&
      (l->size != (int)sizeof(T) ||
       l->ring[(l->next_seq - 1) % kHist].val != mem))
    fresh = true;
  if (fresh) {
    l->live = true;
    l->size = sizeof(T);
    l->next_seq = 1;
    l->floor = 0;
    l->n = 1;
    Store& s = l->ring[0];
    s.val = mem;
    s.seq = 0;
    s.tid = -1;
    s.clk = 0;
    s.has_sync = false;
    l->nreads = 0;
    memset(l->stale_count, 0, sizeof l->stale_count);
    MarkSync((uintptr_t)a, sizeof(T));
  }
  return l;
}

inline bool IsAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool IsRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void NoteRead(SimThread* t, AtomicLoc* l, uint32_t seq) {
  for (int i = 0; i < l->nreads; i++)
    if (l->reads[i].tid == t->id && l->reads[i].seq >= seq) return;
  if (l->nreads == kReads) {
    if (l->reads[0].seq > l->floor) l->floor = l->reads[0].seq;
    memmove(&l->reads[0], &l->reads[1], sizeof(ReadRec) * (kReads - 1));
    l->nreads--;
  }
  l->reads[l->nreads++] = {t->id, t->vc.c[t->id], seq};
}

// Returns how many stores back (0 = newest) the oldest permissible store is.
int MaxBack(SimThread* t, AtomicLoc* l) {
  uint32_t newest = l->next_seq - 1;
  uint32_t lb = l->floor;
  for (int i = 0; i < l->nreads; i++) {
    const ReadRec& r = l->reads[i];
    if (r.clk <= t->vc.c[r.tid] && r.seq > lb) lb = r.seq;
  }
  int back = 0;
  while (back + 1 < l->n) {
    const Store& s = l->ring[(newest - back) % kHist];
    if (s.tid < 0 || s.clk <= t->vc.c[s.tid]) break;  // happens before us
    if (s.seq <= lb) break;
    back++;
  }
  return back;
}

void AtomicMonitor(SimThread* t) {
  ThreadInfo& f = t->info;
  f.atomics++;
  if (f.first_clock_ns && f.last_clock_ns >= f.first_clock_ns + f.expiry_ns)
    f.atomics_after_expiry++;
  g_out->atomics++;
}

template <typename T>
T ALoad(const volatile T* a, int mo, uintptr_t pc) {
  SimThread* t = cur;
  if (!g_active || !t) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
  mo &= 0xff;
  Sched(kEvALoad, (const void*)a);
  AtomicMonitor(t);
  AccessSlow((uintptr_t)a, sizeof(T), false, true, pc);
  AtomicLoc* l = Loc(a);
  uint32_t newest = l->next_seq - 1;
  int back = 0;
  if (mo != 5 && g_cfg.stale_permille > 0) {
    int mb = MaxBack(t, l);
    if (mb > 0) {
      uint32_t c = 0;
      if (!Calm() && l->stale_count[t->id] < 12 &&
          g_rng.Permille(g_cfg.stale_permille))
        c = 1 + g_rng.Below(mb);
      uint32_t v = Decide(kDecStale, c, 0);
      if (v > (uint32_t)mb) v = mb;
      Record(kDecStale, v, 0);
      back = v;
    }
  }
  if (back) {
    l->stale_count[t->id]++;
    g_out->stale_reads++;
  } else {
    l->stale_count[t->id] = 0;
  }
  const Store& s = l->ring[(newest - back) % kHist];
  NoteRead(t, l, newest - back);
  if (s.has_sync) {
    if (IsAcq(mo))
      Join(t->vc, s.sync);
    else
      Join(t->acq_fence, s.sync);
  }
  Mix(g_out->event_hash, s.val);
  return (T)s.val;
}

template <typename T>
void PushStore(SimThread* t, AtomicLoc* l, uint64_t val, int mo, bool rmw) {
  uint32_t seq = l->next_seq++;
  if (l->n < kHist) l->n++;
  Store& s = l->ring[seq % kHist];
  const Store& prev = l->ring[(seq - 1) % kHist];
  bool prev_sync = rmw && prev.has_sync;
  VC prev_vc;
  if (prev_sync) CopyVC(prev_vc, prev.sync);
  s.val = val;
  s.seq = seq;
  s.tid = t->id;
  s.clk = t->vc.c[t->id];
  s.has_sync = false;
  if (IsRel(mo)) {
    CopyVC(s.sync, t->vc);
    s.has_sync = true;
  } else if (t->has_rel_fence) {
    CopyVC(s.sync, t->rel_fence);
    s.has_sync = true;
  }
  if (prev_sync) {
    if (s.has_sync)
      Join(s.sync, prev_vc);
    else
      CopyVC(s.sync, prev_vc);
    s.has_sync = true;
  }
  // New epoch: later events of this thread are not covered by this store.
  t->vc.c[t->id]++;
}

template <typename T>
void AStore(volatile T* a, T v, int mo, uintptr_t pc) {
  SimThread* t = cur;
  if (!g_active || !t) {
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
    return;
  }
  mo &= 0xff;
  Sched(kEvAStore, (const void*)a);
  AtomicMonitor(t);
  AccessSlow((uintptr_t)a, sizeof(T), true, true, pc);
  AtomicLoc* l = Loc(a);
  PushStore<T>(t, l, (uint64_t)v, mo, false);
  __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
  Mix(g_out->event_hash, (uint64_t)v);
}

template <typename T, typename F>
T ARmw(volatile T* a, int mo, uintptr_t pc, F f) {
  SimThread* t = cur;
  if (!g_active || !t) {
    T o = __atomic_load_n(a, __ATOMIC_SEQ_CST);
    while (!__atomic_compare_exchange_n(a, &o, f(o), false, __ATOMIC_SEQ_CST,
                                        __ATOMIC_SEQ_CST)) {
    }
    return o;
  }
  mo &= 0xff;
  Sched(kEvARmw, (const void*)a);
  AtomicMonitor(t);
  AccessSlow((uintptr_t)a, sizeof(T), true, true, pc);
  AtomicLoc* l = Loc(a);
  const Store& s = l->ring[(l->next_seq - 1) % kHist];
  T old = (T)s.val;
  NoteRead(t, l, l->next_seq - 1);
  if (s.has_sync) {
    if (IsAcq(mo))
      Join(t->vc, s.sync);
    else
      Join(t->acq_fence, s.sync);
  }
  T nv = f(old);
  PushStore<T>(t, l, (uint64_t)nv, mo, true);
  __atomic_store_n(a, nv, __ATOMIC_SEQ_CST);
  Mix(g_out->event_hash, (uint64_t)nv);
  return old;
}

template <typename T>
bool ACas(volatile T* a, T* c, T v, int mo, int fmo, bool weak, uintptr_t pc) {
  SimThread* t = cur;
  if (!g_active || !t)
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,
                                       __ATOMIC_SEQ_CST);
  mo &= 0xff;
  fmo &= 0xff;
  Sched(kEvARmw, (const void*)a);
  AtomicMonitor(t);
  AccessSlow((uintptr_t)a, sizeof(T), true, true, pc);
  AtomicLoc* l = Loc(a);
  const Store& s = l->ring[(l->next_seq - 1) % kHist];
  T old = (T)s.val;
  NoteRead(t, l, l->next_seq - 1);
  bool ok = old == *c;
  if (ok && weak && g_cfg.weakcas_permille > 0) {
    uint32_t d = Decide(kDecWeakCas,
                        !Calm() && g_rng.Permille(g_cfg.weakcas_permille), 0);
    Record(kDecWeakCas, d ? 1 : 0, 0);
    if (d) ok = false;
  }
  int m = ok ? mo : fmo;
  if (s.has_sync) {
    if (IsAcq(m))
      Join(t->vc, s.sync);
    else
      Join(t->acq_fence, s.sync);
  }
  if (ok) {
    PushStore<T>(t, l, (uint64_t)v, mo, true);
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
    Mix(g_out->event_hash, (uint64_t)v ^ 0x55);
  } else {
    *c = old;
    Mix(g_out->event_hash, (uint64_t)old ^ 0xaa);
  }
  return ok;
}

VC g_sc_fence;
void Fence(int mo) {
  SimThread* t = cur;
  if (!g_active || !t) {
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    return;
  }
  mo &= 0xff;
  Sched(kEvFence, nullptr);
  if (IsAcq(mo)) Join(t->vc, t->acq_fence);
  if (mo == 5) {
    Join(t->vc, g_sc_fence);
    Join(g_sc_fence, t->vc);
  }
  if (IsRel(mo)) {
    CopyVC(t->rel_fence, t->vc);
    t->has_rel_fence = true;
    t->vc.c[t->id]++;
  }
}

// ---------------------------------------------------------------------------
// Real functions.
int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*real_join)(pthread_t, void**);
int (*real_detach)(pthread_t);
int (*real_mlock)(pthread_mutex_t*);
int (*real_mtrylock)(pthread_mutex_t*);
int (*real_munlock)(pthread_mutex_t*);
int (*real_cwait)(pthread_cond_t*, pthread_mutex_t*);
int (*real_ctimed)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int (*real_csignal)(pthread_cond_t*);
int (*real_cbcast)(pthread_cond_t*);
int (*real_clock)(clockid_t, timespec*);
int (*real_nanosleep)(const timespec*, timespec*);

template <typename T>
void Sym(T& f, const char* n) {
  f = reinterpret_cast<T>(dlsym(RTLD_NEXT, n));
}
bool g_syms;
void ResolveSyms() {
  if (g_syms) return;
  g_syms = true;
  Sym(real_create, "pthread_create");
  Sym(real_join, "pthread_join");
  Sym(real_detach, "pthread_detach");
  Sym(real_mlock, "pthread_mutex_lock");
  Sym(real_mtrylock, "pthread_mutex_trylock");
  Sym(real_munlock, "pthread_mutex_unlock");
  Sym(real_cwait, "pthread_cond_wait");
  Sym(real_ctimed, "pthread_cond_timedwait");
  Sym(real_csignal, "pthread_cond_signal");
  Sym(real_cbcast, "pthread_cond_broadcast");
  Sym(real_clock, "clock_gettime");
  Sym(real_nanosleep, "nanosleep");
}

// ---------------------------------------------------------------------------
// Heaps.
struct HarnHdr {
  uint64_t size;
  uint64_t cls;
};
char* g_harn_bump;
void* g_harn_free[128];
volatile int g_limbo_lock;

int HarnClass(size_t n, size_t* cap) {
  if (n <= 1024) {
    int c = (n + 15) / 16;
    if (c == 0) c = 1;
    *cap = c * 16;
    return c;
  }
  int c = 65;
  size_t s = 2048;
  while (s < n) {
    s *= 2;
    c++;
  }
  *cap = s;
  return c;
}

void EnsureHarn() {
  if (!g_harn_bump) {
    MapFixed(kHarnBase, kHarnSize);
    g_harn_bump = reinterpret_cast<char*>(kHarnBase);
  }
}

void* HarnAlloc(size_t n, size_t align) {
  while (__atomic_exchange_n(&g_limbo_lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
  EnsureHarn();
  void* r;
  if (align <= 16) {
    size_t cap;
    int c = HarnClass(n, &cap);
    if (g_harn_free[c]) {
      r = g_harn_free[c];
      g_harn_free[c] = *(void**)r;
      ((HarnHdr*)r - 1)->size = n;
    } else {
      HarnHdr* h = (HarnHdr*)g_harn_bump;
      g_harn_bump += cap + sizeof(HarnHdr);
      h->size = n;
      h->cls = c;
      r = h + 1;
    }
  } else {
    uintptr_t p = (uintptr_t)g_harn_bump + sizeof(HarnHdr);
    p = (p + align - 1) & ~(align - 1);
    HarnHdr* h = (HarnHdr*)p - 1;
    h->size = n;
    h->cls = 127;
    g_harn_bump = (char*)((p + n + 15) & ~uintptr_t{15});
    r = (void*)p;
  }
  if (g_harn_bump > (char*)(kHarnBase + kHarnSize)) _exit(95);
  __atomic_store_n(&g_limbo_lock, 0, __ATOMIC_RELEASE);
  return r;
}
void HarnFree(void* p) {
  while (__atomic_exchange_n(&g_limbo_lock, 1, __ATOMIC_ACQUIRE)) sched_yield();
  HarnHdr* h = (HarnHdr*)p - 1;
  if (h->cls < 127) {
    *(void**)p = g_harn_free[h->cls];
    g_harn_free[h->cls] = p;
  }
  __atomic_store_n(&g_limbo_lock, 0, __ATOMIC_RELEASE);
}

HeapStats g_heap;
uint32_t g_block_seq;
bool g_faults_armed;
int g_faults_only = -1;  // the only thread that meets faults, or -1
bool g_alloc_fault_fired;
uint32_t g_armed_allocs;
uint32_t g_armed_threads;
int g_free_list[64];  // by capacity class in units of 64 up to 4096; -1 none
int* g_block_next;

bool InjectAllocFailure(size_t n, size_t align) {
  if (!g_faults_armed || (g_faults_only >= 0 && g_faults_only != cur->id)) return false;
  if (g_cfg.alloc_fail_plain && align > 16) return false;
  g_armed_allocs++;
  uint32_t c = 0;
  if ((g_cfg.alloc_fail_nth > 0 &&
       g_armed_allocs == (uint32_t)g_cfg.alloc_fail_nth) ||
      (g_cfg.mem_limit > 0 && g_heap.live_bytes + (int64_t)n > g_cfg.mem_limit) ||
      g_rng.Permille(g_cfg.alloc_fail_permille))
    c = 1;
  if (g_cfg.alloc_fail_nth == 0 && g_cfg.alloc_fail_permille == 0 && g_cfg.mem_limit == 0)
    return false;
  uint32_t v = Decide(kDecAllocFail, c, 0);
  Record(kDecAllocFail, v ? 1 : 0, 0);
  if (v) g_alloc_fault_fired = true;
  return v != 0;
}

void SetAddressable(uintptr_t p, size_t n) {
  uint8_t* st = reinterpret_cast<uint8_t*>(kHeapState + ((p - kHeapBase) >> 3));
  size_t full = n >> 3;
  memset(st, 8, full);
  if (n & 7) st[full] = n & 7;
}

void* CheckedAlloc(size_t n, size_t align, size_t misalign, int kind) {
  if (align < 16) align = 16;
  uintptr_t need = 64 + align + misalign + ((n + 63) & ~size_t{63}) + 64;
  int bi = -1;
  int cls = -1;
  need = (need + 63) & ~uintptr_t{63};
  if (g_cfg.heap_reuse && need / 64 < 64) {
    cls = need / 64;
    int* prev = &g_free_list[cls];
    if (*prev >= 0) {
      bi = *prev;
      *prev = g_block_next[bi];
    }
  } else if (g_cfg.heap_reuse) {
    // Large blocks: first fit with exactly the same capacity.
    for (int i = g_nblocks - 1; i >= 0 && i > g_nblocks - 64; i--)
      if (g_blocks[i].freed && g_blocks[i].cap == need) {
        bi = i;
        break;
      }
  }
  bool reused = bi >= 0;
  if (!reused) {
    if (g_nblocks == kMaxBlocks || g_heap_bump + need > kHeapBase + kHeapSize) {
      SetOutcome(4, "machinery", "simulated heap exhausted");
      EndRun();
    }
    bi = g_nblocks++;
    g_blocks[bi].base = g_heap_bump;
    g_blocks[bi].cap = need;
    g_heap_bump += need;
  }
  Block_& b = g_blocks[bi];
  b.p = ((b.base + 64 + align - 1) & ~(uintptr_t)(align - 1)) + misalign;
  b.size = n;
  b.kind = kind;
  b.freed = false;
  b.seq = ++g_block_seq;
  b.tid = cur ? cur->id : -1;
  if (reused) {
    uintptr_t g0 = (b.base - kHeapBase) >> 3, g1 = (b.base + b.cap - kHeapBase) >> 3;
    memset(reinterpret_cast<void*>(kHeapState + g0), 0, g1 - g0);
    if (g_track || g_cfg.track_races)
      memset(reinterpret_cast<void*>(kHeapSlots + g0 * 32), 0, (g1 - g0) * 32);
  }
  // A misaligned payload shares its first granule with the red zone: handle
  // granules that are only partially addressable at the front by treating the
  // front bytes as addressable.
  uintptr_t ps = b.p & ~uintptr_t{7};
  SetAddressable(ps, n + (b.p - ps));
  size_t fill = n;
  if (fill > (1 << 20)) fill = 1 << 16;
  memset((void*)b.p, kind == 2 ? 0xA5 : 0xCB, fill);
  return (void*)b.p;
}

void CheckedFree(void* p) {
  int i = FindBlock((uintptr_t)p);
  if (i < 0 || g_blocks[i].p != (uintptr_t)p) {
    SetOutcome(2, "heap-bad-free", "free of a pointer that is no heap block");
    EndRun();
  }
  Block_& b = g_blocks[i];
  if (b.freed) {
    char m[200], d[150];
    snprintf(m, sizeof m, "double free: %s", DescribeAddr((uintptr_t)p, d, sizeof d));
    SetOutcome(2, "heap-double-free", m);
    EndRun();
  }
  if (cur && g_active && b.size && b.size <= (8u << 20)) {
    // Freeing is a write to the whole block.
    AccessSlow(b.p, b.size, true, false, 0x1);
  }
  DropSync(b.p, b.size, true);
  b.freed = true;
  uintptr_t g0 = ((b.p & ~uintptr_t{7}) - kHeapBase) >> 3;
  uintptr_t g1 = (b.p + b.size + 7 - kHeapBase) >> 3;
  memset(reinterpret_cast<void*>(kHeapState + g0), 0, g1 - g0);
  memset((void*)b.p, 0xDD, b.size > (1 << 20) ? (1 << 16) : b.size);
  if (b.kind == 1) {
    g_heap.live_blocks--;
    g_heap.live_bytes -= b.size;
  }
  if (g_cfg.heap_reuse && b.cap / 64 < 64) {
    g_block_next[i] = g_free_list[b.cap / 64];
    g_free_list[b.cap / 64] = i;
  }
}

inline bool InSut() { return g_active && cur && cur->sut_depth > 0 && !cur->in_rt; }

void* AllocAny(size_t n, size_t align) {
  if (InSut()) {
    g_heap.total_allocs++;
    g_out->alloc_calls++;
    if (n > (size_t{1} << 33)) {
      // No system grants this.
      g_alloc_fault_fired = true;
      return nullptr;
    }
    if (InjectAllocFailure(n, align)) return nullptr;
    g_heap.system_calls++;
    void* p = CheckedAlloc(n, align, 0, 1);
    g_heap.live_blocks++;
    g_heap.live_bytes += n;
    return p;
  }
  return HarnAlloc(n, align);
}
void FreeAny(void* p) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  if (a - kHeapBase < kHeapSize) {
    if (t_dead) return;
    CheckedFree(p);
  } else if (a - kHarnBase < kHarnSize) {
    HarnFree(p);
  }
}
size_t UsableSize(void* p) {
  uintptr_t a = (uintptr_t)p;
  if (a - kHeapBase < kHeapSize) {
    int i = FindBlock(a);
    return i >= 0 ? g_blocks[i].size : 0;
  }
  if (a - kHarnBase < kHarnSize) return ((HarnHdr*)p - 1)->size;
  return 0;
}

// ---------------------------------------------------------------------------
SimMutex* Mx(const void* m) {
  bool fresh = false;
  SimMutex* s = g_mutexes.Get((uintptr_t)m & ~uintptr_t{7}, &fresh);
  if (fresh) {
    s->live = true;
    s->owner = -1;
    s->depth = 0;
    s->readers = 0;
    memset(&s->vc, 0, sizeof s->vc);
    memset(&s->rvc, 0, sizeof s->rvc);
    MarkSync((uintptr_t)m & ~uintptr_t{7}, 8);
  }
  return s;
}
SimCond* Cv(const void* c) {
  bool fresh = false;
  SimCond* s = g_conds.Get((uintptr_t)c & ~uintptr_t{7}, &fresh);
  if (fresh) {
    s->live = true;
    s->n = 0;
    MarkSync((uintptr_t)c & ~uintptr_t{7}, 8);
  }
  return s;
}

void CheckAddressable(const void* p, size_t n, uintptr_t pc) {
  uintptr_t a = (uintptr_t)p;
  for (uintptr_t g = a & ~uintptr_t{7}; g < a + n; g += 8) {
    uint8_t* st;
    uint64_t* sl;
    int inv = Resolve(g, &st, &sl);
    if (inv < 0) return;
    if (((*st ^ inv) & 15) == 0) HeapError(g, 8, false, pc);
  }
}

void RemoveFromCond(SimThread* t) {
  SimCond* c = Cv(t->wobj);
  for (int i = 0; i < c->n; i++)
    if (c->waiters[i] == t->id) {
      for (int j = i + 1; j < c->n; j++) c->waiters[j - 1] = c->waiters[j];
      c->n--;
      return;
    }
}

bool IsRecursive(pthread_mutex_t* m) {
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
}

void LockImpl(SimThread* t, pthread_mutex_t* m) {
  SimMutex* s = Mx(m);
  if (s->owner == t->id && IsRecursive(m)) {
    s->depth++;
    return;
  }
  while (s->owner >= 0) {
    Block(t, kBlockMutex, m);
    // The mutex memory may have been freed meanwhile.
    CheckAddressable(m, sizeof *m, 0x2);
    s = Mx(m);
  }
  s->owner = t->id;
  s->depth = 1;
  Join(t->vc, s->vc);
  if (g_lock_hook) g_lock_hook(t->id, m);
}
void WakeMutex(SimMutex* s) {
  for (int i = 0; i < g_nthreads; i++)
    if (g_threads[i].state == kBlockMutex &&
        ((uintptr_t)g_threads[i].wobj & ~uintptr_t{7}) == s->addr)
      g_threads[i].state = kRunnable;
}
void UnlockImpl(SimThread* t, pthread_mutex_t* m) {
  SimMutex* s = Mx(m);
  if (s->owner != t->id) {
    SetOutcome(2, "sync-misuse", "unlock of a mutex not held by the thread");
    EndRun();
  }
  if (--s->depth > 0) return;
  CopyVC(s->vc, t->vc);
  t->vc.c[t->id]++;
  s->owner = -1;
  WakeMutex(s);
}

int CondWaitImpl(pthread_cond_t* c, pthread_mutex_t* m, bool timed,
                 uint64_t deadline) {
  SimThread* t = cur;
  CheckAddressable(c, sizeof *c, 0x3);
  CheckAddressable(m, sizeof *m, 0x3);
  Sched(kEvCondWait, c);
  SimCond* s = Cv(c);
  s->waiters[s->n++] = t->id;
  UnlockImpl(t, m);
  t->timed = timed;
  t->timedout = false;
  t->deadline = deadline;
  ThreadInfo& f = t->info;
  if (f.cond_waits++ == 0) {
    f.first_block_ns = g_vnow;
    f.first_block_clock_ns = f.last_clock_ns;
    f.atomics_before_block = f.atomics;
    f.after_expiry_at_block = f.atomics_after_expiry;
  }
  f.in_cond_wait = true;
  Block(t, kBlockCond, c);
  f.in_cond_wait = false;
  bool to = t->timedout;
  f.timer_wakes += to;
  CheckAddressable(m, sizeof *m, 0x4);
  LockImpl(t, m);
  return to ? ETIMEDOUT : 0;
}

void* Trampoline(void* p) {
  SimThread* t = (SimThread*)p;
  WaitTurn(t);
  cur = t;
  pthread_setspecific(g_exit_key, t);
  void* r = t->fn(t->arg);
  return r;
}

// Runs after all C++ thread_local destructors of the thread.
void ThreadExitDtor(void* p) {
  SimThread* t = (SimThread*)p;
  // Let key destructors registered by others run first (none expected).
  Bookkeep(t, kEvExit, nullptr);
  t->state = kFinished;
  t->info.finished = true;
  for (int i = 0; i < g_nthreads; i++)
    if (g_threads[i].state == kBlockJoin && g_threads[i].join_target == t->id)
      g_threads[i].state = kRunnable;
  cur = nullptr;
  t_dead = true;
  // The thread's locals and thread_locals are gone: the upper part of its stack
  // mapping becomes unaddressable for the code under test.
  uintptr_t top = t->id * kStackSlot + kStackSlot - 4096;
  memset(reinterpret_cast<void*>(kStackState + ((top - kDeadBytes) >> 3)), 8,
         kDeadBytes >> 3);
  SimThread* next = PickNext(t, false);
  next->last_run_step = g_steps;
  g_consecutive = 0;
  g_out->switches++;
  GiveTurn(next);
}

SimThread* NewThread() {
  if (g_nthreads == kMaxThreads) {
    SetOutcome(4, "machinery", "too many simulated threads");
    EndRun();
  }
  SimThread* t = &g_threads[g_nthreads];
  memset(t, 0, sizeof *t);
  t->id = g_nthreads;
  t->info.exists = true;
  return t;
}

int StartReal(SimThread* t) {
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstack(&attr,
                        reinterpret_cast<void*>(kStackBase + t->id * kStackSlot +
                                                4096),
                        kStackSlot - 8192);
  int r = real_create(&t->real, &attr, Trampoline, t);
  pthread_attr_destroy(&attr);
  return r;
}

SimThread* ByReal(pthread_t p) {
  for (int i = g_nthreads - 1; i >= 0; i--)
    if (pthread_equal(g_threads[i].real, p)) return &g_threads[i];
  return nullptr;
}

void CrashHandler(int sig, siginfo_t* si, void*) {
  static volatile int once;
  if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) _exit(94);
  char m[700];
  char err[400];
  err[0] = 0;
  if (g_err_fd >= 0) {
    off_t end = lseek(g_err_fd, 0, SEEK_END);
    off_t st = end > 300 ? end - 300 : 0;
    ssize_t n = pread(g_err_fd, err, 300, st);
    err[n > 0 ? n : 0] = 0;
    for (char* c = err; *c; c++)
      if (*c == '\n' || *c == '"') *c = ' ';
  }
  if (sig == SIGALRM || sig == SIGPROF) {
    snprintf(m, sizeof m, "CPU-time bound exceeded in t%d", cur ? cur->id : -1);
    SetOutcome(2, "hang-wall", m);
    EndRun();
  }
  uintptr_t addr = (uintptr_t)si->si_addr;
  bool term = sig == SIGABRT || (sig == SIGSEGV && addr < 0x10000);
  char at[40] = "";
  if (sig == SIGFPE || sig == SIGILL)
    snprintf(at, sizeof at, " at pc %lx", (unsigned long)addr);
  snprintf(m, sizeof m, "signal %d (%s)%s in t%d: %s", sig, strsignal(sig),
           sig == SIGSEGV ? (addr < 0x10000 ? " near null" : " at wild address")
                          : at,
           cur ? cur->id : -1, err);
  if (g_accept_termination && term && (g_faults_armed || !g_accept_only_armed) &&
      (g_out->fired[kDecAllocFail] || g_out->fired[kDecThreadFail] ||
       g_out->fired[kDecSyscall])) {
    SetOutcome(3, sig == SIGABRT ? "terminated-abort" : "terminated-null", m);
  } else {
    SetOutcome(2, sig == SIGABRT ? "abort" : "crash", m);
  }
  EndRun();
}

void SigSetup() {
  static char alt[65536];
  stack_t ss = {};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = CrashHandler;
  sa.sa_flags = SA_SIGINFO;
  sigfillset(&sa.sa_mask);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM, SIGPROF})
    sigaction(s, &sa, nullptr);
}

struct BodyArg {
  void (*body)(void*);
  void* arg;
};
BodyArg g_body;
void* BodyMain(void*) {
  g_body.body(g_body.arg);
  if (g_out->status == 0) g_out->status = 1;
  EndRun();
}

}  // namespace

// ---------------------------------------------------------------------------
// Harness services.
void Init() {
  ResolveSyms();
  EnsureHarn();
  MapFixed(kHeapBase, kHeapSize);
  MapFixed(kStackBase, kStackSize);
  MapFixed(kHeapState, kHeapSize / 8);
  MapFixed(kHeapSlots, kHeapSize / 8 * 32);
  MapFixed(kStackState, kStackSize / 8);
  MapFixed(kStackSlots, kStackSize / 8 * 32);
  g_glob_lo = (uintptr_t)&__data_start & ~uintptr_t{4095};
  g_glob_size = ((uintptr_t)&_end - g_glob_lo + 4095) & ~uintptr_t{4095};
  MapFixed(kGlobState, (g_glob_size / 8 + 4095) & ~uintptr_t{4095});
  MapFixed(kGlobSlots, g_glob_size / 8 * 32);
  MapFixed(kRtBase, kRtSize);
  g_rt_bump = (char*)kRtBase;
  g_threads = (SimThread*)RtAlloc(sizeof(SimThread) * kMaxThreads);
  g_blocks = (Block_*)RtAlloc(sizeof(Block_) * kMaxBlocks);
  g_block_next = (int*)RtAlloc(sizeof(int) * kMaxBlocks);
  for (int& x : g_free_list) x = -1;
  g_atomics.Init();
  g_mutexes.Init();
  g_conds.Init();
  g_guards.Init();
  g_heap_bump = kHeapBase + 4096;
  pthread_key_create(&g_exit_key, ThreadExitDtor);
  g_out = (Outcome*)mmap(nullptr, sizeof(Outcome), PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

void RunInThisProcess(uint64_t seed, const Decision* replay, uint32_t nreplay,
                      bool verbose, void (*body)(void*), void* arg) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  // Newer kernels give a process with threads a private futex table, and
  // enlarging that table keeps the memory of the process alive for some time
  // after it has ended. With thousands of short processes a second that adds
  // up to all of the memory, so use the global table (PR_FUTEX_HASH,
  // PR_FUTEX_HASH_SET_SLOTS, 0); kernels that do not know the call refuse it.
  prctl(78, 1, 0, 0, 0);
  g_err_fd = memfd_create("err", 0);
  if (g_err_fd >= 0) {
    dup2(g_err_fd, 2);
  }
  SigSetup();
  itimerval tv = {};
  tv.it_value.tv_sec = 60;
  setitimer(ITIMER_PROF, &tv, nullptr);
  tv.it_value.tv_sec = 300;
  setitimer(ITIMER_REAL, &tv, nullptr);
  g_rng.s = seed;
  g_replaying = replay != nullptr;
  if (replay) {
    // Split by kind, keeping order (indices ascend within a kind).
    for (int k = 0; k < kDecCount; k++) {
      Decision* d = (Decision*)RtAlloc(sizeof(Decision) * (nreplay + 1));
      uint32_t n = 0;
      for (uint32_t i = 0; i < nreplay; i++)
        if ((int)(replay[i].kind_index >> 27) == k) d[n++] = replay[i];
      g_replay[k] = d;
      g_replay_n[k] = n;
    }
  }
  g_verbose = verbose;
  g_vnow = 1000000000000ull;
  g_idle_ns = 0;
  g_pct_n = g_cfg.pct_depth < 16 ? g_cfg.pct_depth : 16;
  for (int i = 0; i < g_pct_n; i++)
    g_pct_points[i] = 1 + g_rng.Next() % (g_cfg.pct_len > 0 ? g_cfg.pct_len : 1);
  for (int i = 0; i < g_pct_n; i++)
    for (int j = i + 1; j < g_pct_n; j++)
      if (g_pct_points[j] < g_pct_points[i]) {
        uint64_t x = g_pct_points[i];
        g_pct_points[i] = g_pct_points[j];
        g_pct_points[j] = x;
      }
  g_track = g_cfg.track_races;
  g_body = {body, arg};
  SimThread* t = NewThread();
  g_nthreads = 1;
  t->state = kRunnable;
  t->fn = BodyMain;
  t->vc.c[0] = 1;
  t->prio = 1000 + g_rng.Below(1000);
  g_active = true;
  if (StartReal(t)) _exit(93);
  GiveTurn(t);
  for (;;) pause();
}

void Log(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  LogV(fmt, ap);
  va_end(ap);
}
static void FailV(int status, const char* cls, const char* fmt, va_list ap) {
  char m[1100];
  vsnprintf(m, sizeof m, fmt, ap);
  SetOutcome(status, cls, m);
  EndRun();
}
void Fail(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  FailV(2, cls, fmt, ap);
  __builtin_unreachable();
}
void Soft(const char* cls, const char* fmt, ...) {
  if (PassOver(cls)) return;
  va_list ap;
  va_start(ap, fmt);
  FailV(2, cls, fmt, ap);
}
void SetAccept(const char* const* classes, size_t n) {
  g_accept = classes;
  g_naccept = n;
}
void Accept(const char* cls, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  FailV(3, cls, fmt, ap);
  __builtin_unreachable();
}
void Machinery(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  FailV(4, "machinery", fmt, ap);
  __builtin_unreachable();
}
void Probe(const char* name, uint64_t n) {
  for (uint32_t i = 0; i < g_out->nprobes; i++)
    if (!strcmp(g_out->probe_names[i], name)) {
      g_out->probes[i] += n;
      return;
    }
  if (g_out->nprobes == kMaxProbes) return;
  uint32_t i = g_out->nprobes++;
  snprintf(g_out->probe_names[i], 32, "%s", name);
  g_out->probes[i] = n;
}
void MixState(uint64_t v) { Mix(g_out->state_hash, v); }
int Self() { return cur ? cur->id : -1; }
uint64_t NowNs() { return g_vnow; }
void AdvanceNs(uint64_t ns) { g_vnow += ns; }
uint64_t IdleNs() { return g_idle_ns; }
void Yield() { Sched(kEvUserYield, nullptr); }
uint64_t Steps() { return g_steps; }
uint32_t Choose(uint32_t n, uint32_t permille) {
  uint32_t c = 0;
  if (n > 1 && g_rng.Permille(permille)) c = 1 + g_rng.Below(n - 1);
  uint32_t v = Decide(kDecUser, c, 0);
  if (v >= n) v = n - 1;
  Record(kDecUser, v, 0);
  return v;
}
uint32_t SyscallFault(uint32_t n, uint32_t permille) {
  uint32_t c = permille && g_rng.Permille(permille) ? 1 + g_rng.Below(n) : 0;
  uint32_t v = Decide(kDecSyscall, c, 0);
  if (v > n) v = n;
  Record(kDecSyscall, v, 0);
  return v;
}
void EnterSut() { cur->sut_depth++; }
void LeaveSut() { cur->sut_depth--; }
int PushHarness() {
  int d = cur->sut_depth;
  cur->sut_depth = 0;
  return d;
}
void PopHarness(int d) { cur->sut_depth = d; }

void* UserAlloc(size_t size, size_t align, size_t misalign) {
  return CheckedAlloc(size, align, misalign, 2);
}
void UserFree(void* p) { CheckedFree(p); }
void UserRead(const void* p, size_t n) {
  AccessSlow((uintptr_t)p, n, false, false, 0x5);
}
void UserWrite(const void* p, size_t n) {
  AccessSlow((uintptr_t)p, n, true, false, 0x6);
}
void WatchConst(const void* p, size_t n, bool on) {
  uintptr_t a = (uintptr_t)p;
  if (on) {
    if (g_nconst == 32) return;
    g_const[g_nconst++] = {a, n};
  } else {
    for (int i = 0; i < g_nconst; i++)
      if (g_const[i].a == a && g_const[i].n == n) {
        g_const[i] = g_const[--g_nconst];
        break;
      }
  }
  for (uintptr_t g = a & ~uintptr_t{7}; g < a + n; g += 8) {
    uint8_t* st;
    uint64_t* sl;
    if (Resolve(g, &st, &sl) < 0) return;
    if (on) {
      *st |= kConst;
    } else {
      bool keep = false;
      for (int i = 0; i < g_nconst; i++)
        if (g < g_const[i].a + g_const[i].n && g + 8 > g_const[i].a) keep = true;
      if (!keep) *st &= ~kConst;
    }
  }
}
HeapStats Heap() { return g_heap; }
bool HeapOwned(const void* p, size_t n, const void** base, size_t* size) {
  uintptr_t a = (uintptr_t)p;
  if (a - kHeapBase >= kHeapSize) return false;
  int i = FindBlock(a);
  if (i < 0 || g_blocks[i].freed) return false;
  if (a < g_blocks[i].p || a + n > g_blocks[i].p + g_blocks[i].size) return false;
  if (base) *base = (void*)g_blocks[i].p;
  if (size) *size = g_blocks[i].size;
  return true;
}
uint64_t LastWriters(const void* p, size_t n) {
  uint64_t r = 0;
  uintptr_t a = (uintptr_t)p;
  for (uintptr_t g = a & ~uintptr_t{7}; g < a + n; g += 8) {
    uint8_t* st;
    uint64_t* sl;
    if (Resolve(g, &st, &sl) < 0) break;
    for (int i = 0; i < 4; i++)
      if (sl[i] & 4) r |= 1ull << ((sl[i] >> 16) & 63);
  }
  return r;
}
void ArmAllocFaults(bool on, bool only_self) {
  g_faults_armed = on;
  g_faults_only = on && only_self ? cur->id : -1;
}
bool AllocFaultFired() { return g_alloc_fault_fired; }
void SetTrackRaces(bool on) { g_track = on; }
void DescribeLeaks(char* b, size_t n) {
  size_t o = 0;
  b[0] = 0;
  int shown = 0;
  for (int i = 0; i < g_nblocks && shown < 6; i++)
    if (g_blocks[i].kind == 1 && !g_blocks[i].freed) {
      o += snprintf(b + o, n - o, " block #%u %zu bytes by t%d;", g_blocks[i].seq,
                    g_blocks[i].size, g_blocks[i].tid);
      shown++;
      if (o + 60 > n) break;
    }
}
int ThreadCount() { return g_nthreads; }
const ThreadInfo& Info(int tid) {
  SimThread& t = g_threads[tid];
  t.info.blocked = t.state != kRunnable;
  t.info.sut_created = t.sut_created;
  t.info.finished = t.state == kFinished;
  t.info.joined = t.joined;
  return t.info;
}
void MonitorReset(int tid, uint64_t expiry_ns) {
  ThreadInfo& f = g_threads[tid].info;
  f.first_clock_ns = f.last_clock_ns = f.clock_reads = f.atomics = 0;
  f.atomics_after_expiry = 0;
  f.expiry_ns = expiry_ns;
  f.cond_waits = 0;
  f.first_block_ns = f.first_block_clock_ns = f.atomics_before_block = 0;
  f.after_expiry_at_block = 0;
  f.timer_wakes = 0;
}
int ThreadsCreatedBySut() {
  int n = 0;
  for (int i = 0; i < g_nthreads; i++) n += g_threads[i].sut_created;
  return n;
}
int LiveSutThreads() {
  int n = 0;
  for (int i = 0; i < g_nthreads; i++)
    n += g_threads[i].sut_created && g_threads[i].state != kFinished;
  return n;
}
int CurrentCore() { return cur ? cur->core : 0; }
int CoreOf(int tid) { return g_threads[tid].core; }
void SetCore(int tid, int core) { g_threads[tid].core = core; }

}  // namespace sim

using namespace sim;

// ---------------------------------------------------------------------------
// Compiler instrumentation entry points.
#define PC ((uintptr_t)__builtin_return_address(0))
#define HOOK_RW(N)                                                       \
  EXPORT void __tsan_read##N(void* a) { Access(a, N, false, PC); }        \
  EXPORT void __tsan_write##N(void* a) { Access(a, N, true, PC); }        \
  EXPORT void __tsan_unaligned_read##N(void* a) { Access(a, N, false, PC); } \
  EXPORT void __tsan_unaligned_write##N(void* a) { Access(a, N, true, PC); } \
  EXPORT void __tsan_volatile_read##N(void* a) { Access(a, N, false, PC); } \
  EXPORT void __tsan_volatile_write##N(void* a) { Access(a, N, true, PC); }
HOOK_RW(1)
HOOK_RW(2)
HOOK_RW(4)
HOOK_RW(8)
HOOK_RW(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_read_range(void* a, unsigned long n) {
  if (cur && n) Access(a, n, false, PC);
}
EXPORT void __tsan_write_range(void* a, unsigned long n) {
  if (cur && n) Access(a, n, true, PC);
}
EXPORT void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) Access(p, 8, true, PC);
}
EXPORT void __tsan_vptr_read(void** p) { Access(p, 8, false, PC); }

EXPORT void sim_masked_access(const void* p, unsigned long mask, int elem,
                              int write) {
  if (!cur) return;
  for (int i = 0; mask; i++, mask >>= 1)
    if (mask & 1) Access((const char*)p + i * elem, elem, write, PC);
}

#define HOOK_ATOMIC(B, T)                                                      \
  EXPORT T __tsan_atomic##B##_load(const volatile T* a, int mo) {              \
    return ALoad<T>(a, mo, PC);                                                \
  }                                                                            \
  EXPORT void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {           \
    AStore<T>(a, v, mo, PC);                                                   \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {           \
    return ARmw<T>(a, mo, PC, [v](T) { return v; });                           \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) {          \
    return ARmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); });                \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) {          \
    return ARmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); });                \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) {          \
    return ARmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); });                \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) {           \
    return ARmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); });                \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) {          \
    return ARmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); });                \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) {         \
    return ARmw<T>(a, mo, PC, [v](T o) { return (T)~(o & v); });               \
  }                                                                            \
  EXPORT int __tsan_atomic##B##_compare_exchange_strong(                       \
      volatile T* a, T* c, T v, int mo, int fmo) {                             \
    return ACas<T>(a, c, v, mo, fmo, false, PC);                               \
  }                                                                            \
  EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, \
                                                      int mo, int fmo) {       \
    return ACas<T>(a, c, v, mo, fmo, true, PC);                                \
  }                                                                            \
  EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v,     \
                                                   int mo, int fmo) {          \
    ACas<T>(a, &c, v, mo, fmo, false, PC);                                     \
    return c;                                                                  \
  }
HOOK_ATOMIC(8, uint8_t)
HOOK_ATOMIC(16, uint16_t)
HOOK_ATOMIC(32, uint32_t)
HOOK_ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo) { Fence(mo); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// Wrapped (linker --wrap) memory functions of instrumented objects.
EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (cur && g_active && cur->sut_depth > 0 && n) {
    Access(s, n, false, PC);
    Access(d, n, true, PC);
  }
  return memcpy(d, s, n);
}
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (cur && g_active && cur->sut_depth > 0 && n) {
    Access(s, n, false, PC);
    Access(d, n, true, PC);
  }
  return memmove(d, s, n);
}
EXPORT void* __wrap_memset(void* d, int c, size_t n) {
  if (cur && g_active && cur->sut_depth > 0 && n) Access(d, n, true, PC);
  return memset(d, c, n);
}
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (cur && g_active && cur->sut_depth > 0 && n) {
    Access(a, n, false, PC);
    Access(b, n, false, PC);
  }
  return memcmp(a, b, n);
}

// ---------------------------------------------------------------------------
// Memory.
EXPORT void* malloc(size_t n) {
  void* p = AllocAny(n, 16);
  if (!p) errno = ENOMEM;
  return p;
}
EXPORT void free(void* p) { FreeAny(p); }
EXPORT void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = AllocAny(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
EXPORT void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) {
    free(p);
    return nullptr;
  }
  void* q = malloc(n);
  if (!q) return nullptr;
  size_t o = UsableSize(p);
  memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}
EXPORT int posix_memalign(void** out, size_t align, size_t n) {
  if (align < sizeof(void*) || (align & (align - 1))) return EINVAL;
  if ((ptrdiff_t)n < 0) return ENOMEM;
  void* p = AllocAny(n, align);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
EXPORT void* aligned_alloc(size_t align, size_t n) {
  void* p = AllocAny(n, align);
  if (!p) errno = ENOMEM;
  return p;
}
EXPORT void* memalign(size_t align, size_t n) { return aligned_alloc(align, n); }
EXPORT void* valloc(size_t n) { return aligned_alloc(4096, n); }
EXPORT size_t malloc_usable_size(void* p) { return p ? UsableSize(p) : 0; }

// ---------------------------------------------------------------------------
// Threads.
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr,
                          void* (*fn)(void*), void* arg) {
  ResolveSyms();
  SimThread* me = cur;
  if (!g_active || !me) return real_create(out, attr, fn, arg);
  Sched(kEvCreate, nullptr);
  if (me->sut_depth > 0 && g_faults_armed && g_cfg.thread_fail_nth > 0 &&
      (g_faults_only < 0 || g_faults_only == me->id)) {
    g_armed_threads++;
    uint32_t c = g_armed_threads == (uint32_t)g_cfg.thread_fail_nth;
    uint32_t v = Decide(kDecThreadFail, c, 0);
    Record(kDecThreadFail, v ? 1 : 0, 0);
    if (v) {
      g_alloc_fault_fired = true;
      return EAGAIN;
    }
  }
  SimThread* t = NewThread();
  t->fn = fn;
  t->arg = arg;
  t->sut_created = me->sut_depth > 0;
  t->sut_depth = t->sut_created ? 1 : 0;
  CopyVC(t->vc, me->vc);
  t->vc.c[t->id] = 1;
  me->vc.c[me->id]++;
  t->prio = 1000 + g_rng.Below(1000);
  t->core = me->core;
  t->last_run_step = g_steps;
  if (attr) {
    int ds = 0;
    pthread_attr_getdetachstate(attr, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  me->in_rt++;
  int r = StartReal(t);
  me->in_rt--;
  if (r) {
    SetOutcome(4, "machinery", "real pthread_create failed");
    EndRun();
  }
  g_nthreads++;
  t->state = kRunnable;
  *out = t->real;
  if (t->sut_created && g_sut_thread_hook) g_sut_thread_hook(t->id);
  return 0;
}
EXPORT int pthread_join(pthread_t p, void** ret) {
  ResolveSyms();
  SimThread* me = cur;
  if (!g_active || !me) return real_join(p, ret);
  SimThread* t = ByReal(p);
  if (!t) return ESRCH;
  Sched(kEvJoin, nullptr);
  if (t == me) return EDEADLK;
  if (t->joined || t->detached) {
    SetOutcome(2, "sync-misuse", "join of a thread already joined or detached");
    EndRun();
  }
  while (t->state != kFinished) {
    me->join_target = t->id;
    Block(me, kBlockJoin, nullptr);
  }
  t->joined = true;
  Join(me->vc, t->vc);
  me->in_rt++;
  int r = real_join(p, ret);
  me->in_rt--;
  t->real = 0;
  return r;
}
EXPORT int pthread_detach(pthread_t p) {
  ResolveSyms();
  SimThread* me = cur;
  if (!g_active || !me) return real_detach(p);
  SimThread* t = ByReal(p);
  if (t) t->detached = true;
  return 0;  // never reaped for real; the run's process ends anyway
}
EXPORT int sched_yield() {
  if (g_active && cur) {
    Sched(kEvYield, nullptr);
    g_consecutive += g_cfg.fair / 4;
    return 0;
  }
  return syscall(SYS_sched_yield);
}

EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  SimThread* t = cur;
  if (!g_active || !t) {
    ResolveSyms();
    return real_mlock ? real_mlock(m) : 0;
  }
  CheckAddressable(m, sizeof *m, PC);
  Sched(kEvLock, m);
  CheckAddressable(m, sizeof *m, PC);
  LockImpl(t, m);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  SimThread* t = cur;
  if (!g_active || !t) {
    ResolveSyms();
    return real_mtrylock ? real_mtrylock(m) : 0;
  }
  CheckAddressable(m, sizeof *m, PC);
  Sched(kEvLock, m);
  SimMutex* s = Mx(m);
  if (s->owner >= 0 && !(s->owner == t->id && IsRecursive(m))) return EBUSY;
  LockImpl(t, m);
  return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  SimThread* t = cur;
  if (!g_active || !t) {
    ResolveSyms();
    return real_munlock ? real_munlock(m) : 0;
  }
  CheckAddressable(m, sizeof *m, PC);
  UnlockImpl(t, m);
  Sched(kEvUnlock, m);
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (g_active && cur) {
    if (SimMutex* s = g_mutexes.Find((uintptr_t)m & ~uintptr_t{7})) {
      if (s->live && s->owner >= 0) {
        SetOutcome(2, "sync-misuse", "locked mutex destroyed");
        EndRun();
      }
      s->live = false;
    }
  }
  return 0;
}
// Timed locking never times out.
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) {
  return pthread_mutex_lock(m);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) {
  return pthread_mutex_lock(m);
}
static int RwLock(pthread_rwlock_t* l, bool write, bool wait) {
  SimThread* t = cur;
  if (!g_active || !t) return 0;
  CheckAddressable(l, sizeof *l, 0x5);
  Sched(kEvLock, l);
  CheckAddressable(l, sizeof *l, 0x5);
  SimMutex* s = Mx(l);
  while (s->owner >= 0 || (write && s->readers > 0)) {
    if (!wait) return EBUSY;
    Block(t, kBlockMutex, l);
    CheckAddressable(l, sizeof *l, 0x5);
    s = Mx(l);
  }
  Join(t->vc, s->vc);
  if (write) {
    Join(t->vc, s->rvc);
    s->owner = t->id;
  } else {
    s->readers++;
  }
  return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return RwLock(l, false, true); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return RwLock(l, true, true); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return RwLock(l, false, false); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return RwLock(l, true, false); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  SimThread* t = cur;
  if (!g_active || !t) return 0;
  CheckAddressable(l, sizeof *l, 0x5);
  SimMutex* s = Mx(l);
  if (s->owner == t->id) {
    CopyVC(s->vc, t->vc);
    s->owner = -1;
  } else if (s->readers > 0) {
    Join(s->rvc, t->vc);
    s->readers--;
  } else {
    SetOutcome(2, "sync-misuse", "unlock of a readers-writer lock that is not held");
    EndRun();
  }
  t->vc.c[t->id]++;
  WakeMutex(s);
  Sched(kEvUnlock, l);
  return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t* l) {
  if (g_active && cur)
    if (SimMutex* s = g_mutexes.Find((uintptr_t)l & ~uintptr_t{7})) s->live = false;
  return 0;
}
EXPORT int sem_init(sem_t* p, int, unsigned n) {
  if (!g_active || !cur) return 0;
  if (SimMutex* s = g_mutexes.Find((uintptr_t)p & ~uintptr_t{7})) s->live = false;
  Mx(p)->depth = n;
  return 0;
}
EXPORT int sem_destroy(sem_t* p) {
  if (g_active && cur)
    if (SimMutex* s = g_mutexes.Find((uintptr_t)p & ~uintptr_t{7})) s->live = false;
  return 0;
}
static int SemWait(sem_t* p, bool wait) {
  SimThread* t = cur;
  if (!g_active || !t) return 0;
  CheckAddressable(p, sizeof *p, 0x5);
  Sched(kEvLock, p);
  SimMutex* s = Mx(p);
  while (s->depth <= 0) {
    if (!wait) {
      errno = EAGAIN;
      return -1;
    }
    Block(t, kBlockMutex, p);
    CheckAddressable(p, sizeof *p, 0x5);
    s = Mx(p);
  }
  s->depth--;
  Join(t->vc, s->vc);
  return 0;
}
EXPORT int sem_wait(sem_t* p) { return SemWait(p, true); }
EXPORT int sem_trywait(sem_t* p) { return SemWait(p, false); }
EXPORT int sem_post(sem_t* p) {
  SimThread* t = cur;
  if (!g_active || !t) return 0;
  CheckAddressable(p, sizeof *p, 0x5);
  SimMutex* s = Mx(p);
  Join(s->vc, t->vc);
  t->vc.c[t->id]++;
  s->depth++;
  WakeMutex(s);
  Sched(kEvUnlock, p);
  return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof *c);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c) {
  if (g_active && cur) {
    if (SimCond* s = g_conds.Find((uintptr_t)c & ~uintptr_t{7})) {
      if (s->live && s->n > 0) {
        SetOutcome(2, "sync-misuse", "condition variable with waiters destroyed");
        EndRun();
      }
      s->live = false;
    }
  }
  return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!g_active || !cur) {
    ResolveSyms();
    return real_cwait(c, m);
  }
  return CondWaitImpl(c, m, false, 0);
}
static uint64_t ToNs(const timespec* ts) {
  return (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
}
static uint64_t FromWall(uint64_t ns) {
  int64_t v = (int64_t)ns - g_wall_off;
  return v > 0 ? v : 0;
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                                  const timespec* ts) {
  if (!g_active || !cur) {
    ResolveSyms();
    return real_ctimed(c, m, ts);
  }
  return CondWaitImpl(c, m, true, FromWall(ToNs(ts)));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m,
                                  clockid_t id, const timespec* ts) {
  if (id == CLOCK_REALTIME || !g_active || !cur) return pthread_cond_timedwait(c, m, ts);
  return CondWaitImpl(c, m, true, ToNs(ts));
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!g_active || !cur) {
    ResolveSyms();
    return real_csignal(c);
  }
  CheckAddressable(c, sizeof *c, PC);
  Sched(kEvCondSignal, c);
  CheckAddressable(c, sizeof *c, PC);
  SimCond* s = Cv(c);
  if (s->n > 0) {
    uint32_t i = 0;
    if (s->n > 1) {
      i = Decide(kDecNotify, Calm() ? 0 : g_rng.Below(s->n), 0);
      if (i >= (uint32_t)s->n) i = 0;
      Record(kDecNotify, i, 0);
    }
    SimThread& w = g_threads[s->waiters[i]];
    for (int j = i + 1; j < s->n; j++) s->waiters[j - 1] = s->waiters[j];
    s->n--;
    w.timed = false;
    w.state = kRunnable;
  }
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!g_active || !cur) {
    ResolveSyms();
    return real_cbcast(c);
  }
  CheckAddressable(c, sizeof *c, PC);
  Sched(kEvCondBroadcast, c);
  CheckAddressable(c, sizeof *c, PC);
  SimCond* s = Cv(c);
  for (int i = 0; i < s->n; i++) {
    SimThread& w = g_threads[s->waiters[i]];
    w.timed = false;
    w.state = kRunnable;
  }
  s->n = 0;
  return 0;
}

static SimGuard* Gd(const void* g) {
  bool fresh = false;
  SimGuard* s = g_guards.Get((uintptr_t)g, &fresh);
  if (fresh) {
    s->live = true;
    s->state = 0;
    memset(&s->vc, 0, sizeof s->vc);
  }
  return s;
}
static void WakeGuard(const void* g) {
  for (int i = 0; i < g_nthreads; i++)
    if (g_threads[i].state == kBlockGuard && g_threads[i].wobj == g)
      g_threads[i].state = kRunnable;
}
EXPORT int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  SimThread* t = cur;
  if (!g_active || !t) {
    if (*(int*)o == 2) return 0;
    *(int*)o = 2;
    fn();
    return 0;
  }
  Sched(kEvGuard, o);
  SimGuard* s = Gd(o);
  if (*(int*)o == 2 && s->state == 0) s->state = 2;
  for (;;) {
    if (s->state == 2) {
      Join(t->vc, s->vc);
      return 0;
    }
    if (s->state == 0) break;
    Block(t, kBlockGuard, o);
  }
  s->state = 1;
  fn();
  s->state = 2;
  *(int*)o = 2;
  CopyVC(s->vc, t->vc);
  t->vc.c[t->id]++;
  WakeGuard(o);
  return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t* g) {
  SimThread* t = cur;
  if (!g_active || !t) return *(uint8_t*)g == 0;
  Sched(kEvGuard, g);
  SimGuard* s = Gd(g);
  if (*(uint8_t*)g && s->state == 0) s->state = 2;
  for (;;) {
    if (s->state == 2) {
      Join(t->vc, s->vc);
      return 0;
    }
    if (s->state == 0) break;
    Block(t, kBlockGuard, g);
  }
  s->state = 1;
  return 1;
}
EXPORT void __cxa_guard_release(uint64_t* g) {
  SimThread* t = cur;
  if (!g_active || !t) {
    *(uint8_t*)g = 1;
    return;
  }
  SimGuard* s = Gd(g);
  CopyVC(s->vc, t->vc);
  AStore<uint8_t>((volatile uint8_t*)g, 1, 3, PC);
  s->state = 2;
  WakeGuard(g);
}
EXPORT void __cxa_guard_abort(uint64_t* g) {
  if (!g_active || !cur) return;
  SimGuard* s = Gd(g);
  s->state = 0;
  WakeGuard(g);
}

// ---------------------------------------------------------------------------
// Time.
EXPORT int clock_gettime(clockid_t id, timespec* ts) {
  SimThread* t = cur;
  if (!g_active || !t) {
    return syscall(SYS_clock_gettime, id, ts);
  }
  Sched(kEvClock, nullptr);
  uint64_t adv = g_cfg.tick_ns;
  if (g_cfg.tick_jitter > 0) {
    uint32_t v = Decide(kDecTick, Calm() ? 0 : g_rng.Below(g_cfg.tick_jitter + 1), 0);
    Record(kDecTick, v, 0);
    adv += v * (uint64_t)g_cfg.tick_ns;
  }
  if (g_cfg.jump_permille > 0) {
    uint32_t v = Decide(kDecJump, !Calm() && g_rng.Permille(g_cfg.jump_permille), 0);
    Record(kDecJump, v ? 1 : 0, 0);
    if (v) adv += g_cfg.jump_ns;
  }
  g_vnow += adv;
  t->cpu_ns += adv;
  uint64_t now = g_vnow;
  if (id == CLOCK_MONOTONIC_COARSE || id == CLOCK_REALTIME_COARSE)
    now = now / g_cfg.coarse_ns * g_cfg.coarse_ns;
  ThreadInfo& f = t->info;
  f.clock_reads++;
  if (!f.first_clock_ns) f.first_clock_ns = now;
  f.last_clock_ns = now;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
    // Somebody may set the wall clock.
    uint32_t v = 0;
    if (g_cfg.tick_jitter > 0 || g_cfg.jump_permille > 0) {
      v = Decide(kDecWall, !Calm() && g_rng.Permille(30) ? 1 + g_rng.Below(4) : 0, 0);
      Record(kDecWall, v, 0);
    }
    static const int64_t kStep[5] = {0, -3600000000000ll, 3600000000000ll, -60000000, 60000000};
    g_wall_off += kStep[v <= 4 ? v : 0];
    now += g_wall_off;
  } else if (id == CLOCK_THREAD_CPUTIME_ID) {
    now = t->cpu_ns;
  } else if (id == CLOCK_PROCESS_CPUTIME_ID) {
    now = 0;
    for (int i = 0; i < g_nthreads; i++) now += g_threads[i].cpu_ns;
  }
  ts->tv_sec = now / 1000000000ull;
  ts->tv_nsec = now % 1000000000ull;
  return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
static void SleepFor(uint64_t ns) {
  SimThread* t = cur;
  t->info.timer_wakes++;
  Sched(kEvSleep, nullptr);
  if (g_cfg.oversleep_ns > 0) {
    uint32_t v = Decide(kDecOversleep, Calm() ? 0 : g_rng.Below(4), 0);
    Record(kDecOversleep, v, 0);
    ns += (uint64_t)v * g_cfg.oversleep_ns / 3;
  }
  t->timed = true;
  t->timedout = false;
  t->deadline = g_vnow + ns;
  Block(t, kBlockSleep, nullptr);
  t->timed = false;
}
EXPORT int nanosleep(const timespec* ts, timespec*) {
  if (!g_active || !cur) return syscall(SYS_nanosleep, ts, nullptr);
  SleepFor(ToNs(ts));
  return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const timespec* ts,
                           timespec* rem) {
  if (!g_active || !cur) return syscall(SYS_clock_nanosleep, id, flags, ts, rem);
  uint64_t ns = ToNs(ts);
  if (flags & TIMER_ABSTIME && id == CLOCK_REALTIME) ns = FromWall(ns);
  if (flags & TIMER_ABSTIME) ns = ns > g_vnow ? ns - g_vnow : 0;
  SleepFor(ns);
  return 0;
}
EXPORT int usleep(useconds_t us) {
  timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
