// Thread pool histories, with the monitor of idle waits.
#include <pthread.h>
#include <string.h>
#include <time.h>

#include <algorithm>
#include <stdexcept>

#include "plan.h"
#include "sim.h"
#include "sut.h"

namespace {

enum Kind : int { kExec = 0, kSetSpin, kSleep, kRecreate, kExecFault };

struct Pool {
  void* pool = nullptr;
  int client = 0;
  int64_t spin_ns = 2000000;  // documented default
  int exec_no = 0;            // number of the execution in progress
  bool executing = false;
  int n = 0;
  int runs[32], tid[32];
  bool done[32];
  int64_t* data = nullptr;    // shared plain data of the execution
  int64_t work[4];
  bool throw0 = false;        // the task on the calling thread throws
  int caller = 0;
  int peak = 1;
  int created = 0;
  uint64_t caller_reset_ns = 0;
  bool caller_monitored = false;
};
struct Worker {
  int64_t spin_ns = -1;       // setting in force when it was created
  bool monitored = false;
  uint64_t reset_ns = 0;
};
Worker g_worker[sim::kMaxThreads];
Pool* g_creating[sim::kMaxThreads];  // by creating thread
bool g_idle;
bool g_strict;
bool g_after_throw;
constexpr int kSlots = 32;

void SleepNs(int64_t ns) {
  timespec t = {(time_t)(ns / 1000000000), (long)(ns % 1000000000)};
  nanosleep(&t, nullptr);
}

void OnThread(int tid) {
  Pool* p = g_creating[sim::Self()];
  if (p && tid < sim::kMaxThreads) g_worker[tid].spin_ns = p->spin_ns;
}

// Judges the wait a thread is in, or was in, since its monitor was reset.
void JudgeWait(int tid, const sim::ThreadInfo& f, int64_t spin, uint64_t reset_ns,
               bool over, const char* who) {
  if (spin < 0) return;
  if (f.timer_wakes > 3)
    sim::Soft("timer-polls", "%s t%d was woken %lu times by timers while it waited", who, tid,
              (unsigned long)f.timer_wakes);
  // Polling after the spin duration was seen to have elapsed.
  if (f.cond_waits == 0) {
    if (spin > 0 && f.atomics_after_expiry > 8)
      sim::Soft("spin-too-long", "%s t%d made %lu polls after its spin duration of %ld ns",
                who, tid, (unsigned long)f.atomics_after_expiry, (long)spin);
    if (spin == 0 && !over && f.atomics > 16)
      sim::Soft("spin-too-long", "%s t%d polls although the spin duration is zero", who, tid);
    if (!over && f.atomics > 3000 && sim::NowNs() - reset_ns > (uint64_t)spin + 500000000)
      sim::Soft("spin-too-long", "%s t%d still polls %ld ns after it started waiting", who,
                tid, (long)(sim::NowNs() - reset_ns));
  } else {
    if (f.after_expiry_at_block > 8)
      sim::Soft("spin-too-long", "%s t%d made %lu polls after its spin duration of %ld ns",
                who, tid, (unsigned long)f.after_expiry_at_block, (long)spin);
    if (spin == 0 && f.atomics_before_block > 16)
      sim::Soft("spin-too-long", "%s t%d polled %lu times although the spin duration is zero",
                who, tid, (unsigned long)f.atomics_before_block);
    if (f.first_block_ns - reset_ns < (uint64_t)spin)
      sim::Soft("blocked-early", "%s t%d blocked after %ld ns, spin duration %ld ns", who, tid,
                (long)(f.first_block_ns - reset_ns), (long)spin);
    if (f.atomics - f.atomics_before_block > 64 + 8 * f.cond_waits)
      sim::Soft("polls-after-block", "%s t%d made %lu polls after it blocked", who, tid,
                (unsigned long)(f.atomics - f.atomics_before_block));
    sim::Probe("wait_blocked");
  }
}

void Task(void* arg, int i) {
  sim::HarnessScope h;
  Pool* p = (Pool*)arg;
  const int self = sim::Self();
  if (g_idle && self != p->caller && g_worker[self].monitored) {
    // The wait for this task is over.
    Worker& w = g_worker[self];
    JudgeWait(self, sim::Info(self), w.spin_ns, w.reset_ns, true, "worker");
    if (w.spin_ns > 0 && sim::Info(self).cond_waits == 0) sim::Probe("task_found_spinning");
    w.monitored = false;
  }
  if (!p->executing) sim::Fail("task-stray", "task %d runs outside an execution", i);
  if (i < 0 || i >= p->n) sim::Fail("task-stray", "task %d of %d", i, p->n);
  p->runs[i]++;
  if (p->runs[i] > 1) sim::Fail("task-count", "task %d ran more than once", i);
  p->tid[i] = self;
  int exec = p->exec_no;
  // Reads what the caller prepared and what the previous execution left.
  int64_t v = sut::PlainRead(&p->data[kSlots + i]);
  if (v != exec * 1000 + i)
    sim::Soft("stale-data", "task %d of execution %d read %ld", i, exec, (long)v);
  int work = (int)p->work[i & 3];
  for (int k = 0; k < (work & 15); k++) sim::Yield();
  if (work >> 4) SleepNs((int64_t)(work >> 4) * 1000);
  sut::PlainWrite(&p->data[i], exec * 1000 + 500 + i);
  if (p->exec_no != exec || !p->executing)
    sim::Fail("task-stray", "execution %d returned before task %d ended", exec, i);
  p->done[i] = true;
  if (i == 0 && p->throw0) throw std::runtime_error("task");
  if (g_idle) {
    if (self == p->caller) {
      sim::MonitorReset(self, p->spin_ns);
      p->caller_monitored = true;
      p->caller_reset_ns = sim::NowNs();
    } else {
      Worker& w = g_worker[self];
      sim::MonitorReset(self, w.spin_ns > 0 ? w.spin_ns : 0);
      w.monitored = true;
      w.reset_ns = sim::NowNs();
    }
  }
}

void DoExec(Pool* p, const Op& op, bool faults) {
  int n = (int)op.a[0], variant = (int)op.a[1];
  if (n > kSlots - 2) n = kSlots - 2;
  size_t tb = sut::TaskBytes(variant);
  char* mem = (char*)sim::UserAlloc(tb * n, 16, 0);
  p->exec_no++;
  p->n = n;
  memset(p->runs, 0, sizeof p->runs);
  memset(p->done, 0, sizeof p->done);
  for (int i = 0; i < 4; i++) p->work[i] = op.a[2 + i];
  p->throw0 = op.a[6];
  for (int i = 0; i < n; i++) {
    p->data[kSlots + i] = p->exec_no * 1000 + i;
    sim::UserWrite(&p->data[kSlots + i], 8);
  }
  p->executing = true;
  p->caller = sim::Self();
  p->caller_monitored = false;
  g_creating[sim::Self()] = p;
  int c0 = sim::ThreadsCreatedBySut();
  bool threw = false;
  {
    sim::SutScope s;
    if (faults) sim::ArmAllocFaults(true);
    try {
      sut::PoolExecute(p->pool, n, variant, mem, Task, p);
    } catch (...) {
      if (!faults && !p->throw0) sim::Fail("exception", "execution threw");
      if (!g_after_throw) sim::Accept("exception", "execution reported the failure");
      threw = true;
    }
    if (faults) sim::ArmAllocFaults(false);
  }
  g_creating[sim::Self()] = nullptr;
  p->executing = false;
  p->created += sim::ThreadsCreatedBySut() - c0;
  if (p->throw0 && !threw) sim::Soft("exception", "the exception of a task was lost");
  if (threw) {
    // Started tasks have ended and will not run any more.
    sim::Probe("exec_threw");
    for (int i = 0; i < n; i++)
      if (p->runs[i] && !p->done[i])
        sim::Fail("task-unfinished", "execution threw before task %d ended", i);
    if (n > p->peak) p->peak = n;
    p->caller_monitored = false;
    sim::UserWrite(mem, tb * n);
    memset(mem, 0x6b, tb * n);
    sim::UserFree(mem);
    return;
  }
  if (g_idle && p->caller_monitored) {
    const sim::ThreadInfo& f = sim::Info(p->caller);
    JudgeWait(p->caller, f, p->spin_ns, p->caller_reset_ns, true, "caller");
    if (f.cond_waits == 0 && f.clock_reads > 0) sim::Probe("caller_spun_only");
    p->caller_monitored = false;
  }
  for (int i = 0; i < n; i++) {
    if (p->runs[i] != 1) sim::Fail("task-count", "task %d ran %d times", i, p->runs[i]);
    if (!p->done[i]) sim::Fail("task-unfinished", "execution returned before task %d ended", i);
    int64_t v = sut::PlainRead(&p->data[i]);
    if (v != p->exec_no * 1000 + 500 + i)
      sim::Soft("stale-data", "caller read %ld from task %d", (long)v, i);
  }
  if (p->tid[0] != p->caller) sim::Soft("task-thread", "first task not on the calling thread");
  for (int i = 1; i < n; i++) {
    if (p->tid[i] == p->caller || !sim::Info(p->tid[i]).sut_created)
      sim::Soft("task-thread", "task %d not on a pool thread", i);
    for (int j = 1; j < i; j++)
      if (p->tid[i] == p->tid[j]) sim::Soft("task-thread", "tasks %d and %d on one thread", j, i);
  }
  if (n > p->peak) p->peak = n;
  if (g_strict && p->created > p->peak - 1)
    sim::Soft("thread-budget", "%d threads for at most %d tasks", p->created, p->peak);
  sim::UserWrite(mem, tb * n);
  memset(mem, 0x6b, tb * n);
  sim::UserFree(mem);
  sim::Probe("exec");
  if (n > 1) sim::Probe("exec_parallel");
}

void DoOp(Pool* p, const Op& op) {
  switch (op.kind) {
    case kExec:
      DoExec(p, op, false);
      break;
    case kExecFault:
      DoExec(p, op, true);
      break;
    case kSetSpin: {
      float ms = (float)op.a[0] / 1000.f;
      sim::SutScope s;
      sut::PoolSetSpin(p->pool, ms);
      p->spin_ns = op.a[0] * 1000;
      float got = sut::PoolSpin(p->pool);
      if (got < ms - 0.001f || got > ms + 0.001f)
        sim::Soft("settings", "spin duration reads %f, set %f", got, ms);
      break;
    }
    case kSleep:
      SleepNs(op.a[0]);
      if (g_idle)
        for (int i = 0; i < sim::ThreadCount(); i++)
          if (g_worker[i].monitored && !sim::Info(i).finished)
            JudgeWait(i, sim::Info(i), g_worker[i].spin_ns, g_worker[i].reset_ns, false, "worker");
      break;
    case kRecreate: {
      for (int i = 0; i < sim::kMaxThreads; i++) g_worker[i].monitored = false;
      sim::SutScope s;
      sut::PoolDelete(p->pool);
      p->pool = sut::PoolNew();
      p->spin_ns = 2000000;
      p->peak = 1;
      p->created = 0;
      break;
    }
  }
}

struct State {
  const Plan* plan;
};

void Client(int thread, void* arg) {
  State* st = (State*)arg;
  Pool p;
  p.client = thread;
  {
    sim::SutScope s;
    p.pool = sut::PoolNew();
  }
  p.data = (int64_t*)sim::UserAlloc(2 * kSlots * 8, 16, 0);
  memset(p.data, 0, 2 * kSlots * 8);
  sim::UserWrite(p.data, 2 * kSlots * 8);
  for (const Op& op : st->plan->ops)
    if (op.thread == thread) DoOp(&p, op);
  {
    sim::SutScope s;
    sut::PoolDelete(p.pool);
  }
  sim::UserFree(p.data);
}

void Run(const Plan& plan) {
  State st = {&plan};
  g_idle = plan.Get("idle");
  int clients = (int)plan.Get("clients");
  g_strict = clients == 0;
  sim::g_sut_thread_hook = OnThread;
  if (plan.Get("accept_termination")) sim::g_accept_termination = true;
  g_after_throw = plan.Get("after_throw");
  if (g_after_throw) sim::g_accept_only_armed = true;
  sim::HeapStats h0 = sim::Heap();
  if (clients == 0)
    Client(0, &st);
  else
    RunClients(clients, Client, &st);
  if (sim::LiveSutThreads())
    sim::Soft("thread-leak", "%d library threads alive after destruction", sim::LiveSutThreads());
  sim::HeapStats h1 = sim::Heap();
  // Profiled builds keep a list of labelled threads and the main thread's entry.
  bool list = sut::HaveProfiler() && (h1.live_blocks - h0.live_blocks) / 3 == 0;
  if (!list && h1.live_blocks != h0.live_blocks) {
    char buf[600];
    sim::DescribeLeaks(buf, sizeof buf);
    sim::Soft("leak", "%ld blocks not returned: %s", (long)(h1.live_blocks - h0.live_blocks), buf);
  }
}

void Gen(Rng& r, const std::string& prop, Plan* p) {
  SwarmOpts so;
  so.pct_len = 400;
  bool idle = prop == "C07";
  if (idle) so.spurious = false;
  DrawSim(r, p, so);
  if (idle) {
    // Fine ticks make the spin phase long enough to be judged.
    p->cfg["s.tick_ns"] = r.Pick({2000, 20000, 100000});
    p->cfg["idle"] = 1;
  }
  int clients = !idle && prop != "C24" && r.Chance(15) ? 2 : 0;
  p->cfg["clients"] = clients;
  int lanes = clients ? clients : 1;
  for (int t = 0; t < lanes; t++) {
    int th = clients ? t + 1 : 0;
    int nops = (int)r.In(1, prop == "C03" ? 5 : 9);
    int64_t most = 1, total = 0;
    for (int i = 0; i < nops; i++) {
      Op o;
      o.thread = th;
      int k = (int)r.Below(100);
      if (i == 0 && r.Chance(60)) k = 75;
      if (k < 65 || i == nops - 1) {
        o.kind = kExec;
        o.a[0] = r.Chance(85) ? r.In(2, 6) : r.In(1, 12);
        if (r.Chance(1)) o.a[0] = r.In(13, kSlots - 2);
        if (clients) o.a[0] = r.In(1, 4);
        // Stay within the number of simulated threads.
        if (o.a[0] > most) {
          if (total + o.a[0] - most > 50) o.a[0] = 2;
          if (o.a[0] > most) {
            total += o.a[0] - most;
            most = o.a[0];
          }
        }
        o.a[1] = r.Below(2);
        for (int j = 0; j < 4; j++) {
          o.a[2 + j] = r.Below(6);
          if (r.Chance(idle ? 40 : 8))
            o.a[2 + j] |= r.Pick({10, 700, 5000, 30000}) << 4;  // sleeps, microseconds
        }
      } else if (k < 80) {
        o.kind = kSetSpin;
        o.a[0] = r.Pick({0, 0, 1, 100, 500, 2000, 7000});
        if (r.Chance(5)) o.a[0] = 40000;
      } else if (k < 94) {
        o.kind = kSleep;
        o.a[0] = r.Pick({1000, 1000000, 3000000, 60000000, 800000000});
        if (idle && r.Chance(3)) o.a[0] = 100000000000;
      } else {
        o.kind = kRecreate;
        most = 1;
      }
      if ((prop == "C11" || (prop == "C24" && r.Chance(60))) && o.kind == kExec)
        o.kind = kExecFault;
      if (prop == "C24" && (o.kind == kExec || o.kind == kExecFault)) o.a[6] = r.Chance(20);
      p->ops.push_back(o);
    }
  }
  if (prop == "C24") p->cfg["after_throw"] = 1;
  if (prop == "C11" || prop == "C24") {
    p->cfg["accept_termination"] = 1;
    if (r.Chance(50))
      p->cfg["s.thread_fail_nth"] = r.In(1, 5);
    else
      p->cfg["s.alloc_fail_nth"] = r.In(1, 30);
  }
}

Registrar reg({"pool", "any", Gen, Run});

}  // namespace
