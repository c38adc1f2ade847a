// Plans: the explicit description of a run's workload and configuration.
#ifndef VERIF_HARNESS_PLAN_H_
#define VERIF_HARNESS_PLAN_H_

#include <cstdint>
#include <map>
#include <string>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t Next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // Uniform in [0, n).
  int64_t Below(int64_t n) { return n > 0 ? (int64_t)(Next() % (uint64_t)n) : 0; }
  int64_t In(int64_t lo, int64_t hi) { return lo + Below(hi - lo + 1); }
  bool Chance(int percent) { return Below(100) < percent; }
  template <typename T>
  T Pick(std::initializer_list<T> l) {
    return l.begin()[Below((int64_t)l.size())];
  }
};
inline uint64_t MixHash(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0x9E3779B97F4A7C15ull));
  r.Next();
  return r.Next();
}

constexpr int kOpArgs = 18;
struct Op {
  int thread = 0;
  int kind = 0;
  int64_t a[kOpArgs] = {};
};

struct Plan {
  std::string scenario;
  std::map<std::string, int64_t> cfg;
  std::vector<Op> ops;
  int64_t Get(const std::string& k, int64_t def = 0) const {
    auto i = cfg.find(k);
    return i == cfg.end() ? def : i->second;
  }
};

struct Scenario {
  const char* name;
  const char* flavor;  // rel, dbg, prof or any
  // variant: property-specific emphasis
  void (*gen)(Rng& r, const std::string& prop, Plan* p);
  void (*run)(const Plan& p);
};
void Register(const Scenario& s);
const Scenario* FindScenario(const std::string& name);
struct Registrar {
  explicit Registrar(const Scenario& s) { Register(s); }
};

// Draws the simulator configuration (strategy, faults) into p->cfg.
// level: 0 fault-free and sequentially consistent, 1 adds benign faults.
struct SwarmOpts {
  bool spurious = true, stale = true, clock = true, weakcas = true, stall = true;
  int pct_len = 1500;
};
void DrawSim(Rng& r, Plan* p, const SwarmOpts& o = SwarmOpts());
void DrawCpu(Rng& r, Plan* p, bool exotic);
void ApplyConfig(const Plan& p);  // into sim::g_cfg and sim::g_cpu

// Runs ops of client threads 1..n (thread 0 ops are run by the scenario).
// fn is called on the simulated client thread for each of its ops, in order.
void RunClients(int nthreads, void (*fn)(int thread, void* arg), void* arg);

#endif
