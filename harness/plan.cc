#include "plan.h"

#include <pthread.h>
#include <string.h>

#include <algorithm>

#include "cpu.h"
#include "sim.h"

static std::vector<Scenario>& Registry() {
  static std::vector<Scenario>* r = new std::vector<Scenario>;
  return *r;
}
void Register(const Scenario& s) { Registry().push_back(s); }
const Scenario* FindScenario(const std::string& name) {
  for (const Scenario& s : Registry())
    if (name == s.name) return &s;
  return nullptr;
}

void DrawSim(Rng& r, Plan* p, const SwarmOpts& o) {
  auto& c = p->cfg;
  c["s.strategy"] = r.Pick({0, 0, 1, 1, 2, 2, 3, 4});
  c["s.sticky_permille"] = r.Pick({400, 700, 900, 970});
  c["s.pct_depth"] = r.In(1, 6);
  c["s.pct_len"] = r.Pick({o.pct_len / 5, o.pct_len, o.pct_len * 4});
  c["s.stall_len"] = r.Pick({40, 300, 2000});
  c["s.heap_reuse"] = r.Below(2);
  c["s.tick_ns"] = r.Pick({1000, 50000, 500000});
  c["s.step_ns"] = r.Pick({5, 100, 2000});
  c["faults"] = 0;
  if (!r.Chance(70)) return;
  c["faults"] = 1;
  if (o.stale && r.Chance(60)) c["s.stale_permille"] = r.Pick({30, 150, 400, 700});
  if (o.spurious && r.Chance(50)) c["s.spurious_permille"] = r.Pick({10, 60, 200});
  if (o.weakcas && r.Chance(50)) c["s.weakcas_permille"] = r.Pick({100, 400});
  if (o.clock && r.Chance(40)) c["s.tick_jitter"] = r.Pick({2, 40});
  if (o.clock && r.Chance(20)) {
    c["s.jump_permille"] = r.Pick({10, 100});
    c["s.jump_ns"] = r.Pick({1000000, 100000000, 2000000000});
  }
  if (r.Chance(30)) c["s.oversleep_ns"] = r.Pick({100000, 5000000, 300000000});
}

void DrawCpu(Rng& r, Plan* p, bool exotic) {
  auto& c = p->cfg;
  c["c.isa"] = r.Chance(50) ? 1023
               : r.Chance(50) ? r.Pick({0, 1, 3, 7, 15, 15, 511, 1023, 31, 11, 495})
               : r.Chance(60) ? 1023 & ~(1 << r.Below(10))
                              : r.Below(1024);
  c["c.processors"] = r.Pick({1, 2, 4, 8});
  c["c.l1"] = r.Pick({32768, 8192, 4096});
  c["c.l2"] = r.Pick({524288, 32768, 262144});
  c["c.l3"] = r.Pick({0, 4194304, 524288});
  if (!exotic) {
    // Small caches, so that small matrices get every traversal order.
    if (r.Chance(35)) {
      c["c.l1"] = r.Pick({64, 256, 1024});
      c["c.l2"] = r.Pick({1024, 1024, 4096});
      c["c.l3"] = r.Pick({0, 4096, 16384});
    }
    return;
  }
  c["c.processors"] = r.Pick({1, 2, 4, 6, 8, 16});
  c["c.smt"] = r.Pick({1, 1, 2});
  // Sizes do not decrease from level to level; any level may be absent.
  c["c.l1"] = r.Pick({0, 1, 512, 32768, 65536});
  c["c.l2"] = r.Pick({0, 1, 64, 32768, 524288, 134217728});
  if (c["c.l2"]) c["c.l2"] = std::max(c["c.l2"], c["c.l1"]);
  c["c.l3"] = r.Pick({0, 0, 3, 4194304, 268435456});
  if (c["c.l3"]) c["c.l3"] = std::max({c["c.l3"], c["c.l2"], c["c.l1"]});
  c["c.l2_shared"] = r.Pick({1, 1, 2, 4, 16});
  if (r.Chance(25)) c["c.zero_count"] = r.Below(8);
  if (r.Chance(30)) {
    c["c.little_l2"] = std::max<int64_t>(r.Pick({1024, 65536}), c["c.l1"]);
    if (c["c.l3"]) c["c.l3"] = std::max(c["c.l3"], c["c.little_l2"]);
  }
  if (r.Chance(20)) c["c.visible"] = r.In(1, 4);
  switch (r.Below(6)) {
    case 0:
      c["c.fail_always"] = 1;
      break;
    case 1:
      c["c.fail_first"] = r.In(1, 3);
      break;
    case 2:
      c["c.flip"] = 1;
      if (r.Chance(50)) c["c.fail_first"] = 1;
      break;
    default:
      break;
  }
  if (r.Chance(20)) c["c.uarch_null"] = 1;
}

static int g_cache_budget;
extern "C" int sim_cache_budget() { return g_cache_budget; }

void ApplyConfig(const Plan& p) {
  g_cache_budget = (int)p.Get("cache_budget", 1 << 28);
  sim::Config& s = sim::g_cfg;
  s = sim::Config();
#define F(x) s.x = p.Get("s." #x, s.x);
  F(strategy) F(sticky_permille) F(pct_depth) F(pct_len) F(stall_len)
  F(stale_permille) F(spurious_permille) F(weakcas_permille) F(tick_ns)
  F(tick_jitter) F(jump_permille) F(jump_ns) F(step_ns) F(coarse_ns)
  F(perf_rates) F(perf_open_fail_nth) F(perf_read_fail_permille)
  F(oversleep_ns) F(heap_reuse) F(alloc_fail_nth) F(alloc_fail_permille) F(alloc_fail_plain) F(mem_limit)
  F(thread_fail_nth) F(migrate_permille) F(track_races) F(max_steps)
  F(calm_after) F(fair)
#undef F
  sim::CpuConfig& c = sim::g_cpu;
  c = sim::CpuConfig();
  c.isa = (int)p.Get("c.isa", 1023);
  c.processors = (int)p.Get("c.processors", 4);
  c.visible = (int)p.Get("c.visible", -1);
  c.smt = (int)p.Get("c.smt", 1);
  c.l1 = (int)p.Get("c.l1", c.l1);
  c.l2 = (int)p.Get("c.l2", c.l2);
  c.l3 = (int)p.Get("c.l3", c.l3);
  c.l2_shared = (int)p.Get("c.l2_shared", 1);
  c.zero_count_level = (int)p.Get("c.zero_count", 0);
  c.little_l2 = (int)p.Get("c.little_l2", 0);
  c.uarch_null = (int)p.Get("c.uarch_null", 0);
  c.init_fail_always = p.Get("c.fail_always", 0);
  c.init_fail_first = (int)p.Get("c.fail_first", 0);
  c.flip_after_init = p.Get("c.flip", 0);
  for (int i = 0; i < 4; i++) {
    std::string k = "c.uarch" + std::to_string(i);
    c.core_uarch[i] = (int)p.Get(k, 0);
  }
  sim::g_num_core_types = (int)p.Get("c.core_types", 1);
  sim::g_cpu_counters = sim::CpuCounters();
  sim::ApplyCpu();
}

namespace {
struct ClientArg {
  int thread;
  void (*fn)(int, void*);
  void* arg;
};
void* ClientMain(void* p) {
  ClientArg* a = (ClientArg*)p;
  a->fn(a->thread, a->arg);
  return nullptr;
}
}  // namespace

void RunClients(int n, void (*fn)(int, void*), void* arg) {
  std::vector<ClientArg> args(n);
  std::vector<pthread_t> th(n);
  for (int i = 0; i < n; i++) {
    args[i] = {i + 1, fn, arg};
    if (pthread_create(&th[i], nullptr, ClientMain, &args[i]))
      sim::Machinery("client thread");
  }
  for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
}
