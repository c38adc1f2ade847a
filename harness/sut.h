// C-like interface between the (uninstrumented) harness and the instrumented
// library code. The harness never includes library headers, so that no inline
// library function is instantiated without instrumentation.
#ifndef VERIF_HARNESS_SUT_H_
#define VERIF_HARNESS_SUT_H_

#include <cstddef>
#include <cstdint>

namespace sut {

// Type combinations (lhs, rhs, accumulator, destination).
enum Combo : int {
  kF32 = 0,    // f32 f32 f32 f32
  kI8 = 1,     // i8 i8 i32 i8
  kU8 = 2,     // u8 u8 i32 u8
  kI8Raw = 3,  // i8 i8 i32 i32
  kU8I16 = 4,  // u8 u8 i32 i16
  kF64 = 5,    // f64 f64 f64 f64
  kComboCount
};
int ScalarSize(int combo, int which);  // which: 0 lhs, 1 rhs, 2 dst, 3 accum

struct MatSpec {
  int rows, cols, order /* 0 col-major, 1 row-major */, stride;
  void* data;
  int zero_point;
  int cache_policy;  // 0 never, 1 if large speedup, 2 if significant, 3 always
};
struct MulSpec {
  int combo;
  MatSpec lhs, rhs, dst;
  const void* bias;
  int mult_fixedpoint, mult_exponent;
  const int32_t* mult_fixedpoint_pc;
  const int32_t* mult_exponent_pc;
  int channel_dim;  // 0 row, 1 col
  bool has_clamp;
  double clamp_min, clamp_max;
  int cap_rounding;  // declared capacity rounding of per-channel buffers
  bool all_paths;  // compile with the internal variants too
};
void Mul(void* ctx, const MulSpec& s);

void* CtxNew();
void CtxDelete(void*);
void CtxSetMaxThreads(void*, int);
int CtxMaxThreads(void*);
void CtxSetStrategy(void*, int force_max);
int CtxStrategy(void*);
void CtxSetPaths(void*, int);
int CtxGetPaths(void*);
void CtxSetTuning(void*, int);
int CtxTuning(void*);
int CtxLastPath(void*);
bool CtxAdvisory(void*);
void CtxClearCache(void*);
void CtxSetSpin(void*, float ms);
float CtxSpin(void*);
void* CtxPool(void*);
int64_t CtxCacheBytes(void*);
int CtxCacheCount(void*);
int CtxMainTuning(void*);
// Resolves thread i's tuning through the Context's own resolver.
int CtxThreadTuning(void*, int i);
void CtxEnsureThreads(void*, int n);
// The tuning thread i's resolver gives as it was left by the last call.
int CtxSlotTuning(void*, int i);
int DefaultPaths();

void* PoolNew();
void PoolDelete(void*);
void PoolSetSpin(void*, float ms);
float PoolSpin(void*);
using TaskFn = void (*)(void* arg, int index);
// Size of the task array for n tasks of the given variant (0: small, 1: large).
size_t TaskBytes(int variant);
void PoolExecute(void* pool, int n, int variant, void* task_mem, TaskFn, void* arg);

using CondFn = bool (*)(void*);
// A flag with the documented notification protocol.
struct Flag;
void* WaitObjNew();
void WaitObjDelete(void*);
void WaitObjSet(void*, int value, bool notify_all);  // store, then lock+notify
int WaitObjGet(void*);
// Waits until the flag is >= value; counts evaluations of the condition.
void WaitObjWait(void*, int value, double spin_ms, int* evals, bool* last);

void* CounterNew();
void CounterDelete(void*);
void CounterReset(void*, int n);
bool CounterDecrement(void*);
void CounterWait(void*, double spin_ms);

// Plain (racy if unsynchronized) data accessed by instrumented code.
void PlainWrite(int64_t* p, int64_t v);
int64_t PlainRead(const int64_t* p);

void* AllocatorNew();
void AllocatorDelete(void*);
void* AllocatorBytes(void*, int64_t n);
void* AllocatorAvoiding(void*, int64_t n, const void* avoid);
void AllocatorFreeAll(void*);

struct PMatSpec {
  int is_float, is_signed, data_size;
  int sums_float, sums_size;
  int rows, cols, stride, order;
  int kernel_rows, kernel_cols, kernel_order;
  int zero_point;
};
void* CacheNew(int budget);
void CacheDelete(void*);
// Returns 1 if inserted, 0 if existing.
int CacheGet(void*, const void* src, const PMatSpec& m, void** data, void** sums);
int64_t CacheBytes(void*);
int CacheCount(void*);
int64_t PMatDataBytes(const PMatSpec&);
int64_t PMatSumsBytes(const PMatSpec&);

void* ResolverNew();
void ResolverDelete(void*);
void ResolverSet(void*, int tuning);
int ResolverResolve(void*, void* cpuinfo);
void* CpuNew();
void CpuDelete(void*);
int CpuPaths(void*);  // bit mask of detected features
void CpuCaches(void*, int* local, int* last);
void* CtxCpu(void*);

struct DenormScope;
void* DenormNew(void* mem);
void DenormDelete(void*);

// Profiler (only in the profiler flavour).
bool HaveProfiler();
size_t ProfileBytes();
void* ProfileStart(void* mem, bool enable);
void ProfileStop(void*);
void* TreeNew();
void TreeDelete(void*);
void ProfileSetTree(void* profile, void* tree);
size_t LabelBytes();
// kind selects the format string; nargs 0..4
void* LabelPush(void* mem, int kind, int nargs, const int* args);
void LabelPop(void*);
const char* LabelFormat(int kind, int nargs);
struct TreeVisitor {
  // enter returns nothing; called for each node in preorder with depth
  void (*node)(void* arg, uint32_t thread, int depth, const char* formatted,
               const char* format, int weight, int nchildren);
  void* arg;
};
void TreeVisit(void* tree, const TreeVisitor&);
int TreeDepth(void* tree);
void* TreeCollapse(void* tree, int depth, const char* format, bool formatted);
int TreeWeight(void* tree, const char* format, bool formatted);
// Populates from a synthetic sample sequence.
struct SynthSample {
  uint32_t id;
  int size;
  int kinds[64], nargs[64], args[64][4];
};
void TreePopulate(void* tree, const SynthSample* s, int n);
void TreePrint(void* tree);

// Hardware event recording.
void* PmuNew();
void PmuDelete(void* p);
void PmuStart(void* p);
void PmuStop(void* p);
constexpr int kPmuKinds = 10;
float PmuCount(void* p, int kind);

}  // namespace sut

#endif
