// Stub of the cpuinfo library: a configurable simulated CPU.
#include <cpuinfo.h>
#include <string.h>

#include "cpu.h"
#include "sim.h"

namespace sim {
CpuConfig g_cpu;
CpuCounters g_cpu_counters;
void (*g_uarch_query_hook)(int) = nullptr;

namespace {
constexpr int kMaxProc = 16;
cpuinfo_processor procs[kMaxProc];
cpuinfo_core cores[kMaxProc];
cpuinfo_cluster cluster;
cpuinfo_package package;
cpuinfo_cache l1[kMaxProc], l2[kMaxProc], l3;
cpuinfo_uarch_info uarchs[4];
}  // namespace

int RealIsa() {
  int r = 0;
  if (__builtin_cpu_supports("sse4.2")) r |= 1;
  if (__builtin_cpu_supports("avx")) r |= 2;
  if (__builtin_cpu_supports("avx2")) r |= 4;
  if (__builtin_cpu_supports("fma")) r |= 8;
  if (__builtin_cpu_supports("avx512f")) r |= 16;
  if (__builtin_cpu_supports("avx512dq")) r |= 32;
  if (__builtin_cpu_supports("avx512cd")) r |= 64;
  if (__builtin_cpu_supports("avx512bw")) r |= 128;
  if (__builtin_cpu_supports("avx512vl")) r |= 256;
  if (__builtin_cpu_supports("avx512vnni")) r |= 512;
  return r;
}

static void SetIsa(int f) {
  memset(&cpuinfo_isa, 0, sizeof cpuinfo_isa);
  cpuinfo_isa.sse3 = cpuinfo_isa.ssse3 = cpuinfo_isa.sse4_1 = f & 1;
  cpuinfo_isa.sse4_2 = f & 1;
  cpuinfo_isa.avx = f & 2;
  cpuinfo_isa.avx2 = f & 4;
  cpuinfo_isa.fma3 = f & 8;
  cpuinfo_isa.avx512f = f & 16;
  cpuinfo_isa.avx512dq = f & 32;
  cpuinfo_isa.avx512cd = f & 64;
  cpuinfo_isa.avx512bw = f & 128;
  cpuinfo_isa.avx512vl = f & 256;
  cpuinfo_isa.avx512vnni = f & 512;
}

void ApplyCpu() {
  CpuConfig& c = g_cpu;
  if (c.processors > kMaxProc) c.processors = kMaxProc;
  SetIsa(c.isa & RealIsa());
  memset(procs, 0, sizeof procs);
  memset(l1, 0, sizeof l1);
  memset(l2, 0, sizeof l2);
  memset(&l3, 0, sizeof l3);
  for (int i = 0; i < c.processors; i++) {
    int core = i / c.smt;
    procs[i].core = &cores[core];
    procs[i].cluster = &cluster;
    procs[i].package = &package;
    if (c.l1) {
      l1[core].size = c.l1;
      l1[core].processor_start = core * c.smt;
      l1[core].processor_count = (c.zero_count_level & 1) ? 0 : c.smt;
      procs[i].cache.l1d = &l1[core];
    }
    if (c.l2) {
      int g = i / c.l2_shared;
      l2[g].size = (c.little_l2 && (g & 1)) ? c.little_l2 : c.l2;
      l2[g].processor_start = g * c.l2_shared;
      int cnt = c.l2_shared;
      if (l2[g].processor_start + cnt > (uint32_t)c.processors)
        cnt = c.processors - l2[g].processor_start;
      l2[g].processor_count = (c.zero_count_level & 2) ? 0 : cnt;
      procs[i].cache.l2 = &l2[g];
    }
    if (c.l3) {
      l3.size = c.l3;
      l3.processor_start = 0;
      l3.processor_count = (c.zero_count_level & 4) ? 0 : c.processors;
      procs[i].cache.l3 = &l3;
    }
  }
  static const cpuinfo_uarch u[5] = {cpuinfo_uarch_unknown, cpuinfo_uarch_cortex_a55,
                                     cpuinfo_uarch_cortex_x1,
                                     cpuinfo_uarch_cortex_a53,
                                     cpuinfo_uarch_cortex_a55r0};
  for (int i = 0; i < 4; i++) uarchs[i].uarch = u[c.core_uarch[i]];
}
}  // namespace sim

using namespace sim;

extern "C" {
struct cpuinfo_x86_isa cpuinfo_isa;

bool cpuinfo_initialize(void) {
  int n = ++g_cpu_counters.init_calls;
  if (g_cpu.init_fail_always || n <= g_cpu.init_fail_first) {
    if (g_cpu.flip_after_init && n > 1) return true;
    return false;
  }
  if (g_cpu.flip_after_init && n > 1) return false;
  return true;
}
void cpuinfo_deinitialize(void) { g_cpu_counters.deinit_calls++; }
uint32_t cpuinfo_get_processors_count(void) {
  return g_cpu.visible >= 0 && g_cpu.visible < g_cpu.processors ? g_cpu.visible
                                                                : g_cpu.processors;
}
const struct cpuinfo_processor* cpuinfo_get_processor(uint32_t i) {
  if (i >= (uint32_t)g_cpu.processors) return nullptr;
  if (g_cpu.visible >= 0 && (int)i >= g_cpu.visible) return nullptr;
  return &procs[i];
}
uint32_t cpuinfo_get_cores_count(void) {
  return (g_cpu.processors + g_cpu.smt - 1) / g_cpu.smt;
}
const struct cpuinfo_core* cpuinfo_get_core(uint32_t i) { return &cores[i % 16]; }
uint32_t cpuinfo_get_clusters_count(void) { return 1; }
uint32_t cpuinfo_get_packages_count(void) { return 1; }
uint32_t cpuinfo_get_uarchs_count(void) { return g_num_core_types; }
const struct cpuinfo_uarch_info* cpuinfo_get_uarch(uint32_t i) {
  if (g_cpu.uarch_null || i >= 4) return nullptr;
  return &uarchs[i];
}
uint32_t cpuinfo_get_current_uarch_index(void) {
  // A system call: the thread may be preempted and moved before and after.
  Yield();
  g_cpu_counters.uarch_queries++;
  if (g_uarch_query_hook) g_uarch_query_hook(Self());
  return CurrentCore();
}
uint32_t cpuinfo_get_current_uarch_index_with_default(uint32_t) {
  return cpuinfo_get_current_uarch_index();
}
const struct cpuinfo_processor* cpuinfo_get_current_processor(void) {
  return cpuinfo_get_processor(0);
}
const struct cpuinfo_core* cpuinfo_get_current_core(void) { return &cores[0]; }
}
