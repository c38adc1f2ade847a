// Histories of Context use by one or several clients.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <xmmintrin.h>

#include <set>

#include "cpu.h"
#include "mulop.h"
#include "plan.h"
#include "sim.h"

namespace {

enum Kind : int {
  kMul = 0,
  kSetThreads,
  kSetStrategy,
  kSetPaths,
  kSetTuning,
  kSetSpin,
  kClear,
  kClearFill,  // clear the caches, then change a persistent buffer
  kAdvance,
  kRecreate,
  kExec,    // direct use of the Context's thread pool
  kFpEnv,   // change the caller's floating-point environment
  kMulFault,
  kMulRepeat  // the same multiplication over and over
};

struct CtxModel {
  void* ctx = nullptr;
  int max_threads = 1;
  int force = 0;
  int paths = 0;
  int tuning = 0;
  int peak = 1;            // largest maximum in force at any multiplication
  int exec_peak = 1;       // same, including direct use of the pool
  int created_by = 0;      // threads the library created for it
  bool first = true;
  bool threw = false;
  int detected = -1;       // first path set seen with detection
};

struct State {
  const Plan* plan;
  std::vector<CtxModel> ctxs;
  MulEnv env;
  pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  bool shared;
  bool exact;
  bool strict_threads;
  int clients;
  int env_paths = 0;  // paths chosen by the environment
};
State* g_st;

int AllowedByIsa() {
  const int f = sim::g_cpu.isa & sim::RealIsa();
  int p = 0xf;
  if (f & 2) p |= 0x10;
  if ((f & 12) == 12) p |= 0x20;
  if ((f & (16 | 32 | 64 | 128 | 256)) == (16 | 32 | 64 | 128 | 256)) p |= 0x40;
  return p;
}
int Highest(int m) {
  int r = 1;
  for (int b = 1; b <= 0x40; b <<= 1)
    if (m & b) r = b;
  return r;
}

// The client's floating-point environment is in force around library calls
// only; the harness computes in the default one.
unsigned g_csr[sim::kMaxThreads];
unsigned UserCsr() {
  unsigned v = g_csr[sim::Self()];
  return v ? v : 0x1f80;
}
void FpBefore(void*) { _mm_setcsr(UserCsr()); }
void FpAfter(void*) {
  unsigned b = UserCsr(), a = _mm_getcsr();
  _mm_setcsr(0x1f80);
  // Status flags (low six bits) are results, the rest is control state.
  if ((a ^ b) & ~0x3fu)
    sim::Soft("fpenv", "floating-point control state 0x%x became 0x%x", b & ~0x3fu,
              a & ~0x3fu);
}

struct ExecCtl {
  int n;
  int runs[16];
  int tid[16];
};
void ExecTask(void* arg, int i) {
  sim::HarnessScope h;
  ExecCtl* c = (ExecCtl*)arg;
  c->runs[i]++;
  c->tid[i] = sim::Self();
  sim::Yield();
}

void NewCtx(State* st, CtxModel* m) {
  (void)st;
  *m = CtxModel();
  sim::SutScope s;
  m->ctx = sut::CtxNew();
}

void CheckSettings(CtxModel* m) {
  sim::SutScope s;
  if (sut::CtxMaxThreads(m->ctx) != m->max_threads ||
      sut::CtxStrategy(m->ctx) != m->force || sut::CtxTuning(m->ctx) != m->tuning)
    sim::Soft("settings", "a setting reads back differently than it was set");
}

void CheckCache(const Plan& plan, CtxModel* m) {
  int64_t bytes, count, budget = plan.Get("cache_budget", 1 << 28);
  {
    sim::SutScope s;
    bytes = sut::CtxCacheBytes(m->ctx);
    count = sut::CtxCacheCount(m->ctx);
  }
  // A multiplication has at most two entries in use.
  if (bytes > budget && count > 2)
    sim::Soft("cache-accounting", "the cache holds %ld entries with %ld bytes, its budget is %ld",
              (long)count, (long)bytes, (long)budget);
  if ((bytes <= 0) != (count == 0))
    sim::Soft("cache-accounting", "the cache reports %ld bytes for %ld entries", (long)bytes,
              (long)count);
}

// Only paths the machine can run.
int Runnable(int p) {
  if (!p) return 0;
  int f = sim::RealIsa();
  if (!(f & 2)) p &= ~0x10;
  if ((f & 12) != 12) p &= ~0x20;
  if ((f & 496) != 496) p &= ~0x40;
  return p ? p : 1;
}

void DoOp(State* st, CtxModel* m, const Op& op) {
  const Plan& plan = *st->plan;
  const int64_t* a = op.a;
  switch (op.kind) {
    case kMul:
    case kMulFault: {
      MulOpts o;
      o.before = FpBefore;
      o.after = FpAfter;
      o.faults = op.kind == kMulFault;
      o.exact_check = st->exact;
      if (plan.Get("nocheck")) o.check = false;
      int created0 = sim::ThreadsCreatedBySut();
      MulResult res = DoMul(&st->env, m->ctx, a, o);
      if (res.threw) {
        if (!o.faults) sim::Fail("exception", "Mul threw without injected failure");
        sim::Probe("mul_threw");
        if (!plan.Get("after_throw"))
          sim::Accept("exception", "Mul reported the failure by an exception");
        m->threw = true;
        CheckSettings(m);
        for (int i = (int)(a[kMSeed] % 5); i > 0; i--) sim::Yield();
        break;
      }
      if (o.faults && sim::AllocFaultFired()) sim::Probe("survived_fault");
      if (m->max_threads > m->peak) m->peak = m->max_threads;
      if (m->max_threads > m->exec_peak) m->exec_peak = m->max_threads;
      // Last used path.
      int compiled = (a[kMFlags] & kMFAllPaths) ? 0x7f : 0x71;
      if ((res.path & (res.path - 1)) || !(res.path & compiled))
        sim::Soft("path", "last used path 0x%x was not compiled in (0x%x)", res.path,
                  compiled);
      if (m->paths) {
        int want = Highest(compiled & (m->paths | 1));
        if (res.path != want)
          sim::Soft("path", "last used path 0x%x, but paths 0x%x were set", res.path,
                    m->paths);
      } else if (st->env_paths) {
        if (res.path != Highest(compiled & st->env_paths))
          sim::Soft("path", "last used path 0x%x, but the environment asks for 0x%x", res.path,
                    st->env_paths);
        sim::Probe("env_paths");
      } else {
        if (res.path & ~AllowedByIsa())
          sim::Soft("path", "path 0x%x used, detection reported only 0x%x", res.path,
                    AllowedByIsa());
        const sim::CpuConfig& cc = sim::g_cpu;
        int arch = res.path & 0x70;
        if (cc.init_fail_always && !cc.flip_after_init && arch)
          sim::Soft("path", "path 0x%x used although detection failed", res.path);
        if (!cc.init_fail_always && !cc.init_fail_first && !cc.flip_after_init &&
            plan.Get("good_cpu") && res.path != Highest(compiled & AllowedByIsa()))
          sim::Soft("path", "path 0x%x used although 0x%x was detected", res.path,
                    AllowedByIsa());
        // Stable for the life of the Context.
        if (m->detected >= 0 && m->detected != arch)
          sim::Soft("path-unstable", "detected path 0x%x became 0x%x", m->detected,
                    arch);
        m->detected = arch;
      }
      if (a[kMSeed] & 1) {
        int got;
        {
          sim::SutScope s;
          got = sut::CtxGetPaths(m->ctx);
        }
        // Paths for tests only are not shown.
        int set = (m->paths ? m->paths | 1 : st->env_paths) & 0x71;
        if (set ? got != set : (got & 0x70 & ~AllowedByIsa()) != 0)
          sim::Soft("settings", "paths 0x%x are said to be enabled, it should be 0x%x", got,
                    set ? set : AllowedByIsa());
        if (compiled == 0x71 && res.path != Highest(got))
          sim::Soft("settings", "path 0x%x was used, but paths 0x%x are said to be enabled",
                    res.path, got);
      }
      if (res.advisory != res.ref_advisory && o.check)
        sim::Soft("advisory",
                  "performance advisory is %d, the same multiplication on a fresh "
                  "Context gives %d",
                  res.advisory, res.ref_advisory);
      CheckSettings(m);
      if (plan.Get("bufs")) CheckCache(plan, m);
      m->created_by += sim::ThreadsCreatedBySut() - created0;
      if (st->strict_threads) {
        int created = sim::ThreadsCreatedBySut() - created0;
        if (m->created_by > m->exec_peak - 1)
          sim::Soft("thread-budget",
                    "%d threads started although at most %d were allowed so far",
                    m->created_by, m->exec_peak);
        int users = __builtin_popcountll(res.writers);
        if (users > m->max_threads)
          sim::Soft("thread-budget", "%d threads wrote the destination, maximum %d",
                    users, m->max_threads);
        int64_t macs = a[kMRows] * a[kMDepth] * a[kMCols];
        // Documented: one thread per 32768 multiply-adds; twice that is let pass.
        int64_t many = std::max<int64_t>(1, macs / 16384);
        if (!m->force && (created > many - 1 || users > many))
          sim::Soft("thread-budget",
                    "a multiplication of %ld multiply-adds started %d threads and "
                    "used %d without being forced",
                    (long)macs, created, users);
        if (users > 1) sim::Probe("mul_multithreaded");
        if (created) sim::Probe("pool_grew");
      } else if (__builtin_popcountll(res.writers) > 1) {
        sim::Probe("mul_multithreaded");
      }
      break;
    }
    case kMulRepeat: {
      // The memory held must become steady.  Each waiting thread may hold
      // some for the time of its wait, so as many increases may be harmless.
      Op one = op;
      one.kind = kMul;
      int64_t last = 0;
      int up = 0;
      for (int i = 0; i < m->max_threads + 4; i++) {
        DoOp(st, m, one);
        int64_t now = sim::Heap().live_bytes;
        if (i >= 2) {
          if (now <= last) break;
          up++;
        }
        last = now;
      }
      if (up == m->max_threads + 2)
        sim::Soft("growth", "memory held grew with each of %d repetitions of a multiplication", up);
      sim::Probe("mul_repeated");
      break;
    }
    case kSetThreads: {
      sim::SutScope s;
      sut::CtxSetMaxThreads(m->ctx, a[0]);
      m->max_threads = a[0];
      break;
    }
    case kSetStrategy: {
      sim::SutScope s;
      sut::CtxSetStrategy(m->ctx, a[0]);
      m->force = a[0];
      break;
    }
    case kSetPaths: {
      int p = Runnable((int)a[0]);
      sim::SutScope s;
      sut::CtxSetPaths(m->ctx, p);
      m->paths = p;
      m->detected = -1;
      break;
    }
    case kSetTuning: {
      sim::SutScope s;
      sut::CtxSetTuning(m->ctx, a[0]);
      m->tuning = a[0];
      break;
    }
    case kSetSpin: {
      sim::SutScope s;
      sut::CtxSetSpin(m->ctx, (float)a[0] / 1000.f);
      break;
    }
    case kClear: {
      sim::SutScope s;
      sut::CtxClearCache(m->ctx);
      if (plan.Get("bufs") && (sut::CtxCacheBytes(m->ctx) || sut::CtxCacheCount(m->ctx)))
        sim::Soft("cache-accounting", "the cache is not empty after it was cleared");
      break;
    }
    case kClearFill: {
      {
        sim::SutScope s;
        for (CtxModel& x : st->ctxs)
          if (x.ctx) sut::CtxClearCache(x.ctx);
      }
      int b = (int)a[0];
      if (b > 0 && b < (int)st->env.bufs.size() && st->env.bufs[b].p)
        FillBuffer(&st->env.bufs[b], (int)plan.Get("bufcombo"), a[1],
                   (int)plan.Get("bufvalues"));
      break;
    }
    case kAdvance:
      sim::AdvanceNs(a[0]);
      sim::Yield();
      break;
    case kRecreate: {
      {
        sim::SutScope s;
        sut::CtxDelete(m->ctx);
      }
      NewCtx(st, m);
      break;
    }
    case kExec: {
      int n = (int)a[0];
      int created0 = sim::ThreadsCreatedBySut();
      size_t tb = sut::TaskBytes(0);
      char* mem = (char*)sim::UserAlloc(tb * n, 16, 0);
      ExecCtl ctl = {};
      ctl.n = n;
      _mm_setcsr(UserCsr());
      {
        sim::SutScope s;
        sut::PoolExecute(sut::CtxPool(m->ctx), n, 0, mem, ExecTask, &ctl);
      }
      FpAfter(nullptr);
      for (int i = 0; i < n; i++)
        if (ctl.runs[i] != 1) sim::Fail("task-count", "task %d ran %d times", i, ctl.runs[i]);
      sim::UserFree(mem);
      if (n > m->exec_peak) m->exec_peak = n;
      m->created_by += sim::ThreadsCreatedBySut() - created0;
      sim::Probe("pool_exec");
      break;
    }
    case kFpEnv: {
      unsigned v = 0x1f80;
      v |= (unsigned)(a[0] & 3) << 13;        // rounding
      if (a[0] & 4) v |= 0x8000;              // flush to zero
      if (a[0] & 8) v |= 0x0040;              // denormals are zero
      if (a[0] & 16) v &= ~0x0200u;           // unmask division by zero
      g_csr[sim::Self()] = v;
      break;
    }
  }
}

void Client(int thread, void* arg) {
  State* st = (State*)arg;
  for (const Op& op : st->plan->ops) {
    if (op.thread != thread) continue;
    if (st->shared) {
      pthread_mutex_lock(&st->mu);
      DoOp(st, &st->ctxs[0], op);
      pthread_mutex_unlock(&st->mu);
    } else {
      CtxModel* m = &st->ctxs[thread];
      if (!m->ctx) NewCtx(st, m);
      DoOp(st, m, op);
    }
  }
  if (!st->shared && st->ctxs[thread].ctx) {
    sim::SutScope s;
    sut::CtxDelete(st->ctxs[thread].ctx);
    st->ctxs[thread].ctx = nullptr;
  }
}

void Run(const Plan& plan) {
  State* st = new State;
  g_st = st;
  st->plan = &plan;
  st->clients = (int)plan.Get("clients", 0);
  st->shared = plan.Get("shared");
  st->exact = plan.Get("exact");
  st->strict_threads = st->clients == 0;
  st->ctxs.resize(st->clients + 1);
  if (plan.Get("accept_termination")) sim::g_accept_termination = true;
  if (plan.Get("after_throw")) sim::g_accept_only_armed = true;
  if (int p = (int)plan.Get("env_paths")) {
    char buf[16];
    st->env_paths = Runnable(p) | 1;
    snprintf(buf, sizeof buf, plan.Get("env_prefix") ? "0x%x" : "%x", st->env_paths);
    setenv("RUY_PATHS", buf, 1);
  }
  int nb = (int)plan.Get("bufs");
  for (int i = 1; i <= nb; i++) {
    NewBuffer(&st->env, i, plan.Get("bufbytes"));
    FillBuffer(&st->env.bufs[i], (int)plan.Get("bufcombo"), 1000 + i,
               (int)plan.Get("bufvalues"));
  }
  sim::HeapStats h0 = sim::Heap();
  if (st->clients == 0) {
    NewCtx(st, &st->ctxs[0]);
    if (sim::ThreadsCreatedBySut()) sim::Soft("thread-budget", "thread started by the constructor");
    for (const Op& op : plan.ops) DoOp(st, &st->ctxs[0], op);
    sim::SutScope s;
    sut::CtxDelete(st->ctxs[0].ctx);
  } else {
    if (st->shared) NewCtx(st, &st->ctxs[0]);
    RunClients(st->clients, Client, st);
    if (st->shared) {
      sim::SutScope s;
      sut::CtxDelete(st->ctxs[0].ctx);
    }
  }
  if (sim::LiveSutThreads())
    sim::Soft("thread-leak", "%d library threads alive after destruction",
              sim::LiveSutThreads());
  sim::HeapStats h1 = sim::Heap();
  // Profiled builds keep a list of labelled threads and the main thread's entry.
  bool list = sut::HaveProfiler() && (h1.live_blocks - h0.live_blocks) / 3 == 0;
  if (!list && (h1.live_blocks != h0.live_blocks || h1.live_bytes != h0.live_bytes)) {
    char buf[600];
    sim::DescribeLeaks(buf, sizeof buf);
    sim::Soft("leak", "%ld blocks (%ld bytes) not returned: %s",
              (long)(h1.live_blocks - h0.live_blocks),
              (long)(h1.live_bytes - h0.live_bytes), buf);
  }
}

// ---- generators ---------------------------------------------------------------

int DrawPaths(Rng& r) {
  // Half of the time the portable path: its 1x1 kernel gives many blocks.
  if (r.Chance(45)) return 1;
  return (int)r.Pick({0, 0, 0x10, 0x20, 0x40, 0x71, 0x2, 0x4, 0x8, 0x11, 0x30});
}

Op Simple(int thread, int kind, int64_t a0 = 0, int64_t a1 = 0) {
  Op o;
  o.thread = thread;
  o.kind = kind;
  o.a[0] = a0;
  o.a[1] = a1;
  return o;
}

void GenCtx(Rng& r, const std::string& prop, Plan* p) {
  const bool caching = prop == "C08" || prop == "C09" || r.Chance(25);
  SwarmOpts so;
  DrawSim(r, p, so);
  DrawCpu(r, p, prop == "C16");
  p->cfg["good_cpu"] = prop != "C16";
  p->cfg["exact"] = 1;
  int clients = 0;
  bool shared = false;
  if (prop == "C12" || (prop == "C02" && r.Chance(15)) || (prop == "C05" && r.Chance(10)) ||
      (prop == "C16" && r.Chance(25))) {
    clients = (int)r.In(2, 3);
    shared = r.Chance(40);
  }
  p->cfg["clients"] = clients;
  p->cfg["shared"] = shared;
  if (prop == "C11" || prop == "C24") p->cfg["accept_termination"] = 1;
  if (prop == "C24") p->cfg["after_throw"] = 1;

  MulGen g;
  g.caching = false;
  g.max_dim = 24;
  g.max_macs = clients ? 3000 : 9000;
  if (prop == "C14") {
    g.combos = (1 << sut::kF32) | (1 << sut::kF64);
    g.values = r.Chance(60) ? kDenormal : kSmallInts;
  } else if (r.Chance(20)) {
    g.values = kRandom;
  }
  // Rounding modes are per thread, so only exact values give equal results.
  const bool rounding = r.Chance(30);
  if (rounding) g.values = kSmallInts;
  // Small runs explore more interleavings per second; big ones more code.
  if (r.Chance(40)) {
    g.max_dim = 9;
    g.max_macs = 400;
  }
  g.max_long = 160;
  // A few runs are big enough for several threads without being forced.
  const bool big = !caching && !clients && prop != "C11" && prop != "C24" && r.Chance(2);
  if (big) {
    g.max_dim = 90;
    g.max_macs = 200000;
    g.max_long = 600;
  }
  // Some have many threads, some long histories of small multiplications.
  const bool wide = !clients && !big && r.Chance(3);
  const bool history = !big && !wide && r.Chance(2);
  if (wide) {
    g.max_dim = caching ? 24 : 60;
    g.max_macs = 20000;
    g.max_long = 400;
  }
  if (history) {
    g.max_dim = 6;
    g.max_macs = 200;
    g.max_long = 40;
  }
  int bufcombo = sut::kF32;
  if (caching) {
    do {
      bufcombo = (int)r.Below(sut::kComboCount);
    } while (prop == "C14" && bufcombo != sut::kF32 && bufcombo != sut::kF64);
    p->cfg["bufs"] = r.In(1, 3);
    p->cfg["bufcombo"] = bufcombo;
    p->cfg["bufvalues"] = g.values;
    p->cfg["bufbytes"] = 24 * 28 * 8;
    if (r.Chance(60)) p->cfg["cache_budget"] = r.Pick({1, 300, 1500, 6000, 25000});
  }
  int nops = (int)r.In(1, 10);
  if (prop == "C13" || prop == "C08") nops = (int)r.In(4, 20);
  if (big || wide) nops = (int)r.In(1, 3);
  if (history) nops = (int)r.In(25, clients ? 50 : 100);
  int nthreads_list = clients ? clients : 1;
  for (int t = 0; t < nthreads_list; t++) {
    int th = clients ? t + 1 : 0;
    int paths = DrawPaths(r);
    if ((prop == "C01" || prop == "C02" || prop == "C03" || prop == "C05") && r.Chance(35))
      paths = 1;
    if (prop == "C16") paths = 0;
    p->ops.push_back(Simple(th, kSetThreads, wide ? r.In(7, 20)
                                                      : r.Chance(85) ? r.In(2, clients ? 3 : 6) : 1));
    p->ops.push_back(Simple(th, kSetStrategy, r.Chance(big ? 50 : 85)));
    if (paths) p->ops.push_back(Simple(th, kSetPaths, paths));
    if (r.Chance(50)) p->ops.push_back(Simple(th, kSetTuning, r.In(0, 2)));
    if (r.Chance(60)) p->ops.push_back(Simple(th, kSetSpin, r.Pick({0, 0, 50, 500, 2000})));
    int recreations = 0;
    int64_t common[kOpArgs];
    bool have_common = false;
    for (int i = 0; i < nops; i++) {
      int k = (int)r.Below(100);
      int mulpct = prop == "C13" || prop == "C17" ? 50 : 70;
      if (k < mulpct || i == nops - 1) {
        Op o;
        o.thread = th;
        o.kind = prop == "C11" || (prop == "C24" && r.Chance(60)) ? kMulFault : kMul;
        MulGen gg = g;
        bool cached = caching && r.Chance(80);
        if (cached) {
          gg.combos = (1 << bufcombo);
          gg.max_long = 0;
        }
        GenMul(r, gg, o.a);
        if (have_common && r.Chance(35)) {
          // Same shape again, possibly with one thing changed.
          memcpy(o.a, common, sizeof common);
          o.a[kMSeed] = (int64_t)(r.Next() >> 20);
          if (r.Chance(40)) o.a[kMOrders] = r.Below(8);
          if (r.Chance(30)) o.a[kMCols] = r.In(1, 9);
          if (r.Chance(20)) std::swap(o.a[kMBufL], o.a[kMBufR]);
        } else if (cached) {
          int nb = (int)p->cfg["bufs"];
          if (r.Chance(75)) {
            o.a[kMBufL] = r.In(1, nb);
            o.a[kMOffL] = r.Chance(80) ? 0 : r.Below(7);
          }
          if (r.Chance(75)) {
            o.a[kMBufR] = r.In(1, nb);
            o.a[kMOffR] = r.Chance(80) ? 0 : r.Below(7);
          }
          o.a[kMPolicy] = r.Pick({3, 3, 3, 2, 1, 0}) | (r.Pick({3, 3, 3, 2, 1, 0}) << 4);
        }
        if (cached && r.Chance(20)) {
          // Operands far apart in the buffer, with the same data at their start.
          int side = (int)r.Below(2);
          int64_t pad = r.Pick({16, 32, 64, 128}) + (o.a[kMPads] >> (8 * side) & 15);
          o.a[kMPads] &= ~(int64_t)(255 << (8 * side));
          o.a[kMPads] |= pad << (8 * side);
        }
        for (int side = 0; caching && side < 2; side++) {
          int64_t rows = o.a[side ? kMDepth : kMRows], cols = o.a[side ? kMCols : kMDepth];
          if (o.a[kMOrders] >> side & 1) std::swap(rows, cols);
          int64_t pad = o.a[kMPads] >> (8 * side) & 255;
          if (pad >= 16 && (rows + pad) * cols * 8 > p->cfg["bufbytes"])
            o.a[kMPads] &= ~(int64_t)(255 << (8 * side));
        }
        memcpy(common, o.a, sizeof common);
        have_common = true;
        if (prop == "C05" && !clients && !big && (!o.a[kMPolicy] || (o.a[kMBufL] && o.a[kMBufR])) &&
            r.Chance(8))
          o.kind = kMulRepeat;
        p->ops.push_back(o);
      } else {
        switch (r.Below(11)) {
          case 0:
          case 1:
            p->ops.push_back(Simple(th, kSetThreads, r.In(1, clients ? 3 : wide ? 16 : 7)));
            break;
          case 2:
            p->ops.push_back(Simple(th, kSetStrategy, r.Chance(60)));
            break;
          case 3:
            if (prop != "C16") p->ops.push_back(Simple(th, kSetPaths, DrawPaths(r)));
            break;
          case 4:
            p->ops.push_back(Simple(th, kSetTuning, r.In(0, 2)));
            break;
          case 5:
            p->ops.push_back(Simple(th, kSetSpin, r.Pick({0, 30, 700, 2000})));
            break;
          case 6:
            p->ops.push_back(Simple(th, kClear));
            break;
          case 7:
            if (caching && !clients)
              p->ops.push_back(Simple(th, kClearFill, r.In(1, p->cfg["bufs"]), (int64_t)(r.Next() >> 20)));
            break;
          case 8:
            p->ops.push_back(Simple(th, kAdvance, r.Pick({1000, 3000000, 300000000})));
            break;
          case 9:
            if (!shared && r.Chance(50) && prop != "C13" && recreations < 4) {
              recreations++;
              p->ops.push_back(Simple(th, kRecreate));
              p->ops.push_back(Simple(th, kSetThreads, r.In(2, 4)));
              p->ops.push_back(Simple(th, kSetStrategy, 1));
            } else if (prop != "C17") {
              p->ops.push_back(Simple(th, kExec, r.In(1, 4)));
            }
            break;
          case 10:
            if (prop == "C14" || r.Chance(30)) {
              int f = (int)r.Below(32);
              if (!rounding) f &= ~3;
              // Rounding down makes exact zero sums negative.
              if ((f & 3) == 1) f ^= 3;
              p->ops.push_back(Simple(th, kFpEnv, f));
            }
            break;
        }
      }
    }
  }
  if ((prop == "C13" || prop == "C12") && r.Chance(8)) {
    p->cfg["env_paths"] = r.Pick({0x1, 0x3, 0x7, 0xb, 0x11, 0x21, 0x31, 0x41, 0x71});
    p->cfg["env_prefix"] = r.Below(2);
  }
  if (prop == "C24") {
    // Failures the library reports by exceptions.
    p->cfg["s.alloc_fail_plain"] = 1;
    switch (r.Below(3)) {
      case 0:
        p->cfg["s.alloc_fail_nth"] = r.In(1, r.Pick({6, 20, 40}));
        break;
      case 1:
        p->cfg["s.alloc_fail_permille"] = r.Pick({20, 60, 150});
        break;
      default:
        p->cfg["s.thread_fail_nth"] = r.In(1, 4);
    }
  }
  if (prop == "C11") {
    switch (r.Below(4)) {
      case 0:
      case 1:
        p->cfg["s.alloc_fail_nth"] = r.In(1, r.Pick({6, 40, 150}));
        break;
      case 2:
        p->cfg["s.alloc_fail_permille"] = r.Pick({10, 60, 300});
        break;
      default:
        p->cfg["s.thread_fail_nth"] = r.In(1, 4);
    }
  }
}

Registrar reg({"ctx", "any", GenCtx, Run});

}  // namespace
