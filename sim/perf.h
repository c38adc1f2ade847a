// Simulated kernel event counters.
#ifndef VERIF_SIM_PERF_H_
#define VERIF_SIM_PERF_H_
#include <cstdint>

namespace sim {
// The calling thread causes n events of every kind, times the kind's rate, in
// its own code or in the kernel.
void PerfWork(int64_t n, bool kernel);
int64_t PerfRate(uint64_t config, uint32_t type = 4 /* PERF_TYPE_RAW */);
// The calling thread is a child of thread `parent`, and has ended.
void PerfChildBegin(int parent);
void PerfChildEnd();
int PerfOpenCount();
}  // namespace sim
#endif
