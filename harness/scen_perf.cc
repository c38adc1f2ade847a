// Recording of hardware events, on simulated kernel counters.
#include <pthread.h>
#include <string.h>

#include "perf.h"
#include "plan.h"
#include "sim.h"
#include "sut.h"

namespace {

enum Kind : int {
  kNew = 0,  // a0: recorder
  kDelete,
  kStart,
  kStop,
  kWork,       // a0: amount
  kChildWork,  // a0: amount, on a new thread
  kKernelWork,
  kRead,       // a0: recorder
};
constexpr int kRecorders = 2;

// The event numbers of the ARM architecture reference manual.
const struct {
  const char* name;
  int config, other;
} kKinds[sut::kPmuKinds] = {
    {"L1 refills", 0x03, 0},        {"L2 refills", 0x17, 0},
    {"L3 refills", 0x2A, 0x33},     {"mispredictions", 0x10, 0},
    {"frontend stalls", 0x23, 0},   {"backend stalls", 0x24, 0},
    {"L1 TLB refills", 0x05, 0},    {"L2 TLB refills", 0x2D, 0},
    {"L1 writebacks", 0x15, 0},     {"L2 writebacks", 0x18, 0},
};

struct Recorder {
  void* p = nullptr;
  bool recording = false, recorded = false;
  int64_t work = 0;
};
struct State {
  const Plan* plan;
};
struct ChildArg {
  int parent;
  int64_t n;
};

void* ChildMain(void* p) {
  ChildArg* a = (ChildArg*)p;
  sim::PerfChildBegin(a->parent);
  sim::Yield();
  sim::PerfWork(a->n, false);
  sim::PerfWork(a->n / 2, true);
  sim::Yield();
  sim::PerfChildEnd();
  return nullptr;
}

void Check(const Recorder& r) {
  for (int k = 0; k < sut::kPmuKinds; k++) {
    float got;
    {
      sim::SutScope s;
      got = sut::PmuCount(r.p, k);
    }
    int64_t rate = sim::PerfRate(kKinds[k].config);
    if (kKinds[k].other && sim::PerfRate(kKinds[k].other) > rate)
      rate = sim::PerfRate(kKinds[k].other);
    float want = (float)(rate * r.work);
    if (got != want)
      sim::Soft("perf-count", "%s: reported %.0f, the kernel counted %.0f while recording",
                kKinds[k].name, got, want);
  }
  sim::Probe("perf_recording_checked");
}

void Client(int thread, void* arg) {
  State* st = (State*)arg;
  Recorder rec[kRecorders];
  for (const Op& op : st->plan->ops) {
    if (op.thread != thread) continue;
    Recorder& r = rec[op.a[0] & 1];
    switch (op.kind) {
      case kNew:
        if (!r.p) {
          sim::SutScope s;
          r.p = sut::PmuNew();
        }
        break;
      case kDelete:
        if (r.p && !r.recording) {
          sim::SutScope s;
          sut::PmuDelete(r.p);
          r = Recorder();
        }
        break;
      case kStart:
        if (r.p && !r.recording) {
          sim::SutScope s;
          sut::PmuStart(r.p);
          r.recording = true;
          r.work = 0;
        }
        break;
      case kStop:
        if (r.p && r.recording) {
          sim::SutScope s;
          sut::PmuStop(r.p);
          r.recording = false;
          r.recorded = true;
        }
        break;
      case kWork:
      case kChildWork: {
        int64_t n = op.a[1];
        if (op.kind == kWork) {
          sim::PerfWork(n, false);
        } else {
          ChildArg a = {sim::Self(), n};
          pthread_t t;
          if (pthread_create(&t, nullptr, ChildMain, &a)) sim::Machinery("child thread");
          pthread_join(t, nullptr);
          sim::Probe("perf_child");
        }
        for (Recorder& x : rec)
          if (x.recording) x.work += n;
        break;
      }
      case kKernelWork:
        sim::PerfWork(op.a[1], true);
        break;
      case kRead:
        if (r.p && r.recorded && !r.recording) Check(r);
        break;
    }
    sim::Yield();
  }
  for (Recorder& r : rec) {
    if (!r.p) continue;
    sim::SutScope s;
    if (r.recording) sut::PmuStop(r.p);
    sut::PmuDelete(r.p);
  }
}

void Run(const Plan& plan) {
  State st = {&plan};
  if (plan.Get("accept_termination")) sim::g_accept_termination = true;
  sim::HeapStats h0 = sim::Heap();
  int clients = (int)plan.Get("clients");
  if (clients)
    RunClients(clients, Client, &st);
  else
    Client(0, &st);
  if (int n = sim::PerfOpenCount()) sim::Soft("perf-leak", "%d event counters were not closed", n);
  if (sim::Heap().live_blocks != h0.live_blocks)
    sim::Soft("perf-leak", "memory of a recorder was not returned");
}

void Gen(Rng& r, const std::string&, Plan* p) {
  SwarmOpts so;
  so.pct_len = 200;
  DrawSim(r, p, so);
  int clients = r.Chance(50) ? (int)r.In(1, 3) : 0;
  p->cfg["clients"] = clients;
  p->cfg["s.perf_rates"] = r.In(1, 1000000);
  for (int t = clients ? 1 : 0; t <= clients; t++) {
    int n = (int)r.In(3, 24);
    for (int i = 0; i < n; i++) {
      Op o;
      o.thread = t;
      o.a[0] = r.Chance(30);
      static const int kMix[] = {kNew,  kNew,  kStart, kStart, kStart, kStop,      kStop,
                                 kStop, kRead, kRead,  kWork,  kWork,  kChildWork, kChildWork, kKernelWork, kDelete};
      o.kind = i == 0 ? (int)kNew : kMix[r.Below(sizeof kMix / sizeof *kMix)];
      o.a[1] = r.Chance(50) ? r.Below(20) : r.Below(60000);
      if (r.Chance(10)) o.a[1] = (int64_t)r.Below(1 << 16) << 20;  // long work
      p->ops.push_back(o);
    }
  }
  if (r.Chance(40)) {
    p->cfg["accept_termination"] = 1;
    p->cfg["faults"] = 1;
    if (r.Chance(40))
      p->cfg["s.perf_open_fail_nth"] = r.In(1, 30);
    else
      p->cfg["s.perf_read_fail_permille"] = r.Pick({5, 30, 150});
  }
}

Registrar reg({"perf", "any", Gen, Run});

}  // namespace
