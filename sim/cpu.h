// Simulated CPU as reported by the stub of the cpuinfo library.
#ifndef VERIF_SIM_CPU_H_
#define VERIF_SIM_CPU_H_

#include <cstdint>

namespace sim {

struct CpuConfig {
  int init_fail_first = 0;     // the first n initializations fail
  bool init_fail_always = false;
  bool flip_after_init = false;  // later initializations report the opposite
  // Instruction sets (bits): 1 sse4.2, 2 avx, 4 avx2, 8 fma3, 16 avx512f,
  // 32 dq, 64 cd, 128 bw, 256 vl, 512 vnni
  int isa = 0;
  int processors = 4;
  int visible = -1;            // get_processor returns null from here on (-1: all)
  int smt = 1;                 // processors per core
  int l1 = 32768, l2 = 524288, l3 = 4194304;  // 0: cache absent
  int l2_shared = 1;           // processors sharing one l2
  int zero_count_level = 0;    // bit mask of levels reported with count 0
  int little_l2 = 0;           // if non-zero, size of l2 of the odd cores
  int uarch_null = 0;          // get_uarch returns null
  int core_uarch[4] = {0, 0, 0, 0};  // 0 generic, 1 a55, 2 x1, 3 a53, 4 a55r0
};
extern CpuConfig g_cpu;
struct CpuCounters {
  int init_calls = 0, deinit_calls = 0, uarch_queries = 0;
};
extern CpuCounters g_cpu_counters;
// Called on each query of the current core's microarchitecture.
extern void (*g_uarch_query_hook)(int tid);

int RealIsa();       // what the machine running the simulation supports
void ApplyCpu();     // rebuild tables from g_cpu

}  // namespace sim

#endif
