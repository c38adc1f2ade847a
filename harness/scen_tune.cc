// Tuning resolution while threads migrate between cores of different types.
#include <string.h>
#include <time.h>

#include <vector>

#include "cpu.h"
#include "mulop.h"
#include "plan.h"
#include "sim.h"
#include "sut.h"

namespace {

enum Kind : int {
  kResolve = 0,
  kSet,      // a0: tuning
  kAdvance,  // a0: ns
  kMove,     // a0: core
  kMul,      // mode 1
  kThreads,  // mode 1: a0
  kMain,     // mode 1: the calling thread's tuning
  kRecreate,
};
constexpr uint64_t kExpiry = 250000000ull;

struct Move {
  uint64_t t;
  int core;
};
struct State {
  const Plan* plan;
  void* cpu = nullptr;
  std::vector<Move> hist[sim::kMaxThreads];
  std::vector<uint64_t> queries[sim::kMaxThreads];
  std::vector<uint64_t> query_begin[sim::kMaxThreads];  // begin of the call that queried
  uint64_t begin[sim::kMaxThreads] = {};  // begin of the thread's current call
  uint64_t mul_begin = 0;
  bool in_mul = false;
};
State* g_st;

void OnMove(int tid, int core) { g_st->hist[tid].push_back({sim::NowNs(), core}); }

void OnQuery(int tid) {
  sim::Probe("uarch_query");
  g_st->queries[tid].push_back(sim::NowNs());
  g_st->query_begin[tid].push_back(g_st->in_mul ? g_st->mul_begin : g_st->begin[tid]);
}

int TuningOf(int core) {
  if (sim::g_cpu.uarch_null || sim::g_cpu.init_fail_always) return 1;
  switch (sim::g_cpu.core_uarch[core & 3]) {
    case 0:
      return 1;
    case 2:
      return 3;
    default:
      return 2;
  }
}

// Tunings that are correct for a core the thread was on in [from, now].
int Correct(int tid, uint64_t from) {
  int mask = 0;
  const std::vector<Move>& h = g_st->hist[tid];
  // Core at time `from`, then every later one.
  int core = h.empty() ? sim::CoreOf(tid) : h[0].core;
  if (h.empty()) return 1 << TuningOf(core);
  for (size_t i = 0; i < h.size(); i++) {
    uint64_t end = i + 1 < h.size() ? h[i + 1].t : ~0ull;
    if (end >= from) mask |= 1 << TuningOf(h[i].core);
  }
  return mask;
}

uint64_t Slack() { return kExpiry + sim::g_cfg.coarse_ns; }
uint64_t Sub(uint64_t a, uint64_t b) { return a > b ? a - b : 0; }

struct Resolver {
  void* r = nullptr;
  int set = 0;
  bool have = false;
  uint64_t last_begin = 0;
};

void CheckResolved(int got, int set, int tid, uint64_t begin, size_t q0) {
  State* st = g_st;
  size_t q1 = st->queries[tid].size();
  if (got == 0) sim::Soft("tuning", "resolution returned the automatic value");
  if (set) {
    if (got != set) sim::Soft("tuning", "explicit tuning %d resolved to %d", set, got);
    if (q1 != q0) sim::Soft("tuning-rate", "detection queried although the tuning is explicit");
    return;
  }
  int ok = Correct(tid, Sub(begin, Slack()));
  if (!(ok >> got & 1))
    sim::Soft("tuning-stale",
              "resolved to %d; cores used in the last quarter second allow the set 0x%x", got, ok);
  if (q1 > q0) sim::Probe("tune_detected");
  else sim::Probe("tune_cached");
}

void DoResolve(State* st, Resolver* r, int tid) {
  uint64_t begin = st->begin[tid] = sim::NowNs();
  size_t q0 = st->queries[tid].size();
  int got;
  {
    sim::SutScope s;
    got = sut::ResolverResolve(r->r, st->cpu);
  }
  CheckResolved(got, r->set, tid, begin, q0);
  if (!r->set && st->queries[tid].size() > q0) {
    uint64_t tq = st->queries[tid].back();
    if (r->have && tq < r->last_begin + kExpiry - sim::g_cfg.coarse_ns)
      sim::Soft("tuning-rate", "detection queried again after %ld ns",
                (long)(tq - r->last_begin));
    r->have = true;
    r->last_begin = begin;
  }
}

void Client(int thread, void* arg) {
  State* st = (State*)arg;
  int tid = sim::Self();
  st->hist[tid].push_back({sim::NowNs(), sim::CurrentCore()});
  Resolver r;
  {
    sim::SutScope s;
    r.r = sut::ResolverNew();
  }
  for (const Op& op : st->plan->ops) {
    if (op.thread != thread) continue;
    switch (op.kind) {
      case kResolve:
        DoResolve(st, &r, tid);
        break;
      case kSet: {
        sim::SutScope s;
        sut::ResolverSet(r.r, (int)op.a[0]);
        r.set = (int)op.a[0];
        break;
      }
      case kAdvance: {
        timespec t = {(time_t)(op.a[0] / 1000000000), (long)(op.a[0] % 1000000000)};
        nanosleep(&t, nullptr);
        break;
      }
      case kMove:
        sim::SetCore(tid, (int)op.a[0] % sim::g_num_core_types);
        OnMove(tid, (int)op.a[0] % sim::g_num_core_types);
        break;
      case kRecreate: {
        sim::SutScope s;
        sut::ResolverDelete(r.r);
        r = Resolver();
        r.r = sut::ResolverNew();
        break;
      }
    }
    sim::Yield();
  }
  sim::SutScope s;
  sut::ResolverDelete(r.r);
}

size_t g_q0[sim::kMaxThreads];
void Before(void*) {
  g_st->in_mul = true;
  g_st->mul_begin = sim::NowNs();
  for (int i = 0; i < sim::kMaxThreads; i++) g_q0[i] = g_st->queries[i].size();
}
size_t g_q1[sim::kMaxThreads];
void After(void*) {
  g_st->in_mul = false;
  for (int i = 0; i < sim::kMaxThreads; i++) g_q1[i] = g_st->queries[i].size();
}

void RunContext(State* st, const Plan& plan) {
  MulEnv env;
  void* ctx;
  int tid = sim::Self();
  st->hist[tid].push_back({sim::NowNs(), sim::CurrentCore()});
  {
    sim::SutScope s;
    ctx = sut::CtxNew();
  }
  int set = 0;
  // Begin of the last call in which a thread queried for this Context.
  uint64_t last[sim::kMaxThreads];
  memset(last, 0xff, sizeof last);
  for (const Op& op : plan.ops) {
    switch (op.kind) {
      case kSet: {
        sim::SutScope s;
        sut::CtxSetTuning(ctx, (int)op.a[0]);
        set = (int)op.a[0];
        if (sut::CtxTuning(ctx) != set)
          sim::Soft("settings", "the tuning reads back differently than it was set");
        break;
      }
      case kAdvance:
        sim::AdvanceNs(op.a[0]);
        sim::Yield();
        break;
      case kMove:
        sim::SetCore(tid, (int)op.a[0] % sim::g_num_core_types);
        OnMove(tid, (int)op.a[0] % sim::g_num_core_types);
        break;
      case kThreads: {
        sim::SutScope s;
        sut::CtxSetMaxThreads(ctx, (int)op.a[0]);
        sut::CtxSetStrategy(ctx, 1);
        break;
      }
      case kRecreate: {
        {
          sim::SutScope s;
          int n = sut::CtxMaxThreads(ctx);
          sut::CtxDelete(ctx);
          ctx = sut::CtxNew();
          sut::CtxSetMaxThreads(ctx, n);
          sut::CtxSetStrategy(ctx, 1);
        }
        set = 0;
        memset(last, 0xff, sizeof last);
        break;
      }
      case kMain: {
        uint64_t begin = st->begin[tid] = sim::NowNs();
        size_t q0 = st->queries[tid].size();
        int got;
        {
          sim::SutScope s;
          got = sut::CtxMainTuning(ctx);
        }
        CheckResolved(got, set, tid, begin, q0);
        if (st->queries[tid].size() > q0) {
          if (last[tid] != ~0ull &&
              st->queries[tid].back() < last[tid] + kExpiry - sim::g_cfg.coarse_ns)
            sim::Soft("tuning-rate", "detection queried again within the interval");
          last[tid] = begin;
        }
        break;
      }
      case kMul: {
        MulOpts o;
        o.before = Before;
        o.after = After;
        MulResult res = DoMul(&env, ctx, op.a, o);
        uint64_t begin = st->mul_begin;
        int users = 0;
        for (int t = 0; t < sim::kMaxThreads; t++) {
          bool queried = g_q1[t] > g_q0[t];
          if (set && queried)
            sim::Soft("tuning-rate", "thread t%d queried detection although the tuning is explicit", t);
          if (queried) {
            uint64_t tq = st->queries[t][g_q0[t]];
            if (last[t] != ~0ull && tq < last[t] + kExpiry - sim::g_cfg.coarse_ns)
              sim::Soft("tuning-rate", "thread t%d queried detection again within the interval", t);
            last[t] = begin;
            sim::Probe("mul_detected");
          }
          if (!(res.writers >> t & 1)) continue;
          users++;
          if (set || sim::g_cpu.init_fail_always) continue;
          // The thread's tuning comes from a query of its own, not too old.
          if (g_q1[t] == 0)
            sim::Soft("tuning", "thread t%d computed without ever resolving its tuning", t);
          uint64_t tq = st->queries[t][g_q1[t] - 1];
          if (tq < Sub(begin, Slack()))
            sim::Soft("tuning-stale", "thread t%d uses a tuning detected %ld ns before the call", t,
                      (long)(begin - tq));
        }
        if (users > 1) sim::Probe("mul_multithreaded");
        if (set)
          for (int i = 0; i < users; i++) {
            sim::SutScope s;
            int got = sut::CtxSlotTuning(ctx, i);
            if (got != set)
              sim::Soft("tuning", "explicit tuning %d, but a thread of the call had %d", set, got);
          }
        break;
      }
    }
  }
  sim::SutScope s;
  sut::CtxDelete(ctx);
}

void Run(const Plan& plan) {
  State* st = new State;
  g_st = st;
  st->plan = &plan;
  sim::g_migration_hook = OnMove;
  sim::g_uarch_query_hook = OnQuery;
  if (plan.Get("mode") == 1) {
    RunContext(st, plan);
    return;
  }
  {
    sim::SutScope s;
    st->cpu = sut::CpuNew();
    sut::CpuPaths(st->cpu);  // initialized before threads share it, as in Mul
  }
  RunClients((int)plan.Get("clients"), Client, st);
  sim::SutScope s;
  sut::CpuDelete(st->cpu);
}

void Gen(Rng& r, const std::string&, Plan* p) {
  SwarmOpts so;
  DrawSim(r, p, so);
  DrawCpu(r, p, false);
  p->cfg["s.coarse_ns"] = r.Pick({1000000, 4000000, 10000000});
  int types = (int)r.In(1, 4);
  p->cfg["c.core_types"] = types;
  for (int i = 0; i < types; i++)
    p->cfg["c.uarch" + std::to_string(i)] = r.Below(5);
  if (r.Chance(5)) p->cfg["c.uarch_null"] = 1;
  if (r.Chance(5)) p->cfg["c.fail_always"] = 1;
  if (r.Chance(60)) {
    p->cfg["s.migrate_permille"] = r.Pick({20, 150, 500});
    p->cfg["faults"] = 1;
  }
  int mode = r.Chance(40);
  p->cfg["mode"] = mode;
  int clients = mode ? 0 : (int)r.In(1, 3);
  p->cfg["clients"] = clients;
  MulGen g;
  g.max_dim = 9;
  g.max_macs = 400;
  for (int t = 0; t < (mode ? 1 : clients); t++) {
    int n = (int)r.In(2, 24);
    if (mode) {
      Op o;
      o.kind = kThreads;
      o.a[0] = r.In(1, 4);
      p->ops.push_back(o);
    }
    for (int i = 0; i < n; i++) {
      Op o;
      o.thread = mode ? 0 : t + 1;
      switch (r.Below(8)) {
        case 0:
          o.kind = kSet;
          o.a[0] = r.Chance(45) ? 0 : r.In(1, 3);
          break;
        case 1:
        case 2:
          o.kind = kAdvance;
          o.a[0] = r.Chance(50) ? r.Pick({249999999, 250000000, 251000000, 1000000, 240000000,
                                          260000000, 100000000, 1000000000})
                                : r.Below(400000000);
          break;
        case 3:
          o.kind = kMove;
          o.a[0] = r.Below(types);
          break;
        case 4:
          if (r.Chance(20)) {
            o.kind = kRecreate;
            break;
          }
          if (mode && r.Chance(40)) {
            o.kind = kThreads;
            o.a[0] = r.In(1, 4);
            break;
          }
          // fall through
        default:
          if (!mode) {
            o.kind = kResolve;
          } else if (r.Chance(40)) {
            o.kind = kMain;
          } else {
            o.kind = kMul;
            GenMul(r, g, o.a);
          }
      }
      p->ops.push_back(o);
    }
  }
}

Registrar reg({"tune", "any", Gen, Run});

}  // namespace
