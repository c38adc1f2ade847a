// Instrumented: wrappers for everything but Mul and the profiler.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <mutex>
#include <new>

#include "ruy/allocator.h"
#include "ruy/blocking_counter.h"
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/cpu_cache_params.h"
#include "ruy/cpuinfo.h"
#include "ruy/ctx.h"
#include "ruy/denormal.h"
#include "ruy/mat.h"
#include "ruy/path.h"
#include "ruy/performance_advisory.h"
#include "ruy/pmu.h"
#include "ruy/prepacked_cache.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"
#include "ruy/time.h"
#include "ruy/tune.h"
#include "ruy/wait.h"
#include "sut.h"

namespace sut {

static ruy::Context* C(void* c) { return static_cast<ruy::Context*>(c); }
void* CtxNew() { return new ruy::Context; }
void CtxDelete(void* c) { delete C(c); }
void CtxSetMaxThreads(void* c, int n) { C(c)->set_max_num_threads(n); }
int CtxMaxThreads(void* c) { return C(c)->max_num_threads(); }
void CtxSetStrategy(void* c, int f) {
  C(c)->set_num_threads_strategy(f ? ruy::NumThreadsStrategy::kForceMaxNumThreads
                                   : ruy::NumThreadsStrategy::kDefault);
}
int CtxStrategy(void* c) {
  return C(c)->num_threads_strategy() ==
         ruy::NumThreadsStrategy::kForceMaxNumThreads;
}
void CtxSetPaths(void* c, int p) {
  C(c)->set_runtime_enabled_paths(static_cast<ruy::Path>(p));
}
int CtxGetPaths(void* c) {
  return static_cast<int>(C(c)->get_runtime_enabled_paths());
}
void CtxSetTuning(void* c, int t) {
  C(c)->set_explicit_tuning(static_cast<ruy::Tuning>(t));
}
int CtxTuning(void* c) { return static_cast<int>(C(c)->explicit_tuning()); }
int CtxLastPath(void* c) { return static_cast<int>(C(c)->last_used_path()); }
bool CtxAdvisory(void* c) {
  return C(c)->performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer);
}
void CtxClearCache(void* c) { C(c)->ClearPrepackedCache(); }
void CtxSetSpin(void* c, float ms) {
  C(c)->mutable_thread_pool()->set_spin_milliseconds(ms);
}
float CtxSpin(void* c) { return C(c)->thread_pool().spin_milliseconds(); }
void* CtxPool(void* c) { return C(c)->mutable_thread_pool(); }
int64_t CtxCacheBytes(void* c) {
  return ruy::get_ctx(C(c))->GetPrepackedCache()->BuffersBytes();
}
int CtxCacheCount(void* c) {
  return ruy::get_ctx(C(c))->GetPrepackedCache()->MatrixCount();
}
int CtxMainTuning(void* c) {
  return static_cast<int>(ruy::get_ctx(C(c))->GetMainThreadTuning());
}
void CtxEnsureThreads(void* c, int n) {
  ruy::get_ctx(C(c))->EnsureThreadSpecificResources(n);
}
int CtxThreadTuning(void* c, int i) {
  ruy::Ctx* x = ruy::get_ctx(C(c));
  ruy::TuningResolver* r = x->GetThreadSpecificTuningResolver(i);
  r->SetTuning(x->explicit_tuning());
  return static_cast<int>(r->Resolve(x->mutable_cpuinfo()));
}
int CtxSlotTuning(void* c, int i) {
  ruy::Ctx* x = ruy::get_ctx(C(c));
  return static_cast<int>(
      x->GetThreadSpecificTuningResolver(i)->Resolve(x->mutable_cpuinfo()));
}
int DefaultPaths() { return static_cast<int>(ruy::kDefaultPaths); }
void* CtxCpu(void* c) { return ruy::get_ctx(C(c))->mutable_cpuinfo(); }

static ruy::ThreadPool* P(void* p) { return static_cast<ruy::ThreadPool*>(p); }
void* PoolNew() { return new ruy::ThreadPool; }
void PoolDelete(void* p) { delete P(p); }
void PoolSetSpin(void* p, float ms) { P(p)->set_spin_milliseconds(ms); }
float PoolSpin(void* p) { return P(p)->spin_milliseconds(); }

namespace {
template <int kPad>
struct CbTask final : public ruy::Task {
  TaskFn fn;
  void* arg;
  int index;
  char pad[kPad];
  void Run() override { fn(arg, index); }
};
template <int kPad>
void ExecuteImpl(ruy::ThreadPool* pool, int n, void* mem, TaskFn fn, void* arg) {
  CbTask<kPad>* t = static_cast<CbTask<kPad>*>(mem);
  for (int i = 0; i < n; i++) {
    new (t + i) CbTask<kPad>;
    t[i].fn = fn;
    t[i].arg = arg;
    t[i].index = i;
  }
  pool->Execute(n, t);
  for (int i = 0; i < n; i++) t[i].~CbTask<kPad>();
}
}  // namespace
size_t TaskBytes(int variant) {
  return variant ? sizeof(CbTask<200>) : sizeof(CbTask<4>);
}
void PoolExecute(void* pool, int n, int variant, void* mem, TaskFn fn, void* arg) {
  if (variant)
    ExecuteImpl<200>(P(pool), n, mem, fn, arg);
  else
    ExecuteImpl<4>(P(pool), n, mem, fn, arg);
}

namespace {
struct WaitObj {
  std::atomic<int> value{0};
  std::condition_variable cond;
  std::mutex mutex;
};
}  // namespace
void* WaitObjNew() { return new WaitObj; }
void WaitObjDelete(void* w) { delete static_cast<WaitObj*>(w); }
void WaitObjSet(void* p, int v, bool all) {
  WaitObj* w = static_cast<WaitObj*>(p);
  w->value.store(v, std::memory_order_release);
  std::lock_guard<std::mutex> lock(w->mutex);
  if (all)
    w->cond.notify_all();
  else
    w->cond.notify_one();
}
int WaitObjGet(void* p) {
  return static_cast<WaitObj*>(p)->value.load(std::memory_order_acquire);
}
void WaitObjWait(void* p, int v, double spin_ms, int* evals, bool* last) {
  WaitObj* w = static_cast<WaitObj*>(p);
  ruy::Wait(
      [w, v, evals, last]() {
        ++*evals;
        *last = w->value.load(std::memory_order_acquire) >= v;
        return *last;
      },
      ruy::DurationFromMilliseconds(spin_ms), &w->cond, &w->mutex);
}

void* CounterNew() { return new ruy::BlockingCounter; }
void CounterDelete(void* c) { delete static_cast<ruy::BlockingCounter*>(c); }
void CounterReset(void* c, int n) {
  static_cast<ruy::BlockingCounter*>(c)->Reset(n);
}
bool CounterDecrement(void* c) {
  return static_cast<ruy::BlockingCounter*>(c)->DecrementCount();
}
void CounterWait(void* c, double spin_ms) {
  static_cast<ruy::BlockingCounter*>(c)->Wait(
      ruy::DurationFromMilliseconds(spin_ms));
}

void PlainWrite(int64_t* p, int64_t v) { *p = v; }
int64_t PlainRead(const int64_t* p) { return *p; }

static ruy::Allocator* A(void* a) { return static_cast<ruy::Allocator*>(a); }
void* AllocatorNew() { return new ruy::Allocator; }
void AllocatorDelete(void* a) { delete A(a); }
void* AllocatorBytes(void* a, int64_t n) { return A(a)->AllocateBytes(n); }
void* AllocatorAvoiding(void* a, int64_t n, const void* avoid) {
  return A(a)->AllocateBytesAvoidingAliasingWith(n, avoid);
}
void AllocatorFreeAll(void* a) { A(a)->FreeAll(); }

static ruy::PEMat MakePMat(const PMatSpec& m) {
  ruy::PEMat r;
  r.data_type.is_floating_point = m.is_float;
  r.data_type.is_signed = m.is_signed;
  r.data_type.size = m.data_size;
  r.sums_type.is_floating_point = m.sums_float;
  r.sums_type.is_signed = true;
  r.sums_type.size = m.sums_size;
  r.layout.rows = m.rows;
  r.layout.cols = m.cols;
  r.layout.stride = m.stride;
  r.layout.order = m.order ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
  r.layout.kernel.rows = m.kernel_rows;
  r.layout.kernel.cols = m.kernel_cols;
  r.layout.kernel.order =
      m.kernel_order ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
  r.zero_point = m.zero_point;
  return r;
}
static ruy::PrepackedCache* K(void* c) {
  return static_cast<ruy::PrepackedCache*>(c);
}
void* CacheNew(int budget) { return new ruy::PrepackedCache(budget); }
void CacheDelete(void* c) { delete K(c); }
int CacheGet(void* c, const void* src, const PMatSpec& m, void** data,
             void** sums) {
  ruy::PEMat p = MakePMat(m);
  auto a = K(c)->Get(src, &p);
  *data = p.data;
  *sums = p.sums;
  return a == ruy::PrepackedCache::Action::kInsertedNewEntry;
}
int64_t CacheBytes(void* c) { return K(c)->BuffersBytes(); }
int CacheCount(void* c) { return K(c)->MatrixCount(); }
int64_t PMatDataBytes(const PMatSpec& m) { return ruy::DataBytes(MakePMat(m)); }
int64_t PMatSumsBytes(const PMatSpec& m) { return ruy::SumsBytes(MakePMat(m)); }

void* ResolverNew() { return new ruy::TuningResolver; }
void ResolverDelete(void* r) { delete static_cast<ruy::TuningResolver*>(r); }
void ResolverSet(void* r, int t) {
  static_cast<ruy::TuningResolver*>(r)->SetTuning(static_cast<ruy::Tuning>(t));
}
int ResolverResolve(void* r, void* cpu) {
  return static_cast<int>(static_cast<ruy::TuningResolver*>(r)->Resolve(
      static_cast<ruy::CpuInfo*>(cpu)));
}
void* CpuNew() { return new ruy::CpuInfo; }
void CpuDelete(void* c) { delete static_cast<ruy::CpuInfo*>(c); }
int CpuPaths(void* p) {
  ruy::CpuInfo* c = static_cast<ruy::CpuInfo*>(p);
  return (c->Avx() ? 1 : 0) | (c->Avx2Fma() ? 2 : 0) | (c->Avx512() ? 4 : 0) |
         (c->AvxVnni() ? 8 : 0) | (c->Sse42() ? 16 : 0);
}
void CpuCaches(void* p, int* local, int* last) {
  const ruy::CpuCacheParams& q = static_cast<ruy::CpuInfo*>(p)->CacheParams();
  *local = q.local_cache_size;
  *last = q.last_level_cache_size;
}

void* DenormNew(void* mem) {
  static_assert(sizeof(ruy::ScopedSuppressDenormals) <= 64, "");
  return new (mem) ruy::ScopedSuppressDenormals;
}
void DenormDelete(void* p) {
  static_cast<ruy::ScopedSuppressDenormals*>(p)->~ScopedSuppressDenormals();
}

static ruy::PmuEvents* Pmu(void* p) { return static_cast<ruy::PmuEvents*>(p); }
void* PmuNew() { return new ruy::PmuEvents; }
void PmuDelete(void* p) { delete Pmu(p); }
void PmuStart(void* p) { Pmu(p)->StartRecording(); }
void PmuStop(void* p) { Pmu(p)->StopRecording(); }
float PmuCount(void* p, int kind) {
  switch (kind) {
    case 0: return Pmu(p)->L1RefillCount();
    case 1: return Pmu(p)->L2RefillCount();
    case 2: return Pmu(p)->L3RefillCount();
    case 3: return Pmu(p)->BranchMispredictionCount();
    case 4: return Pmu(p)->FrontendStallCount();
    case 5: return Pmu(p)->BackendStallCount();
    case 6: return Pmu(p)->L1TLBRefillCount();
    case 7: return Pmu(p)->L2TLBRefillCount();
    case 8: return Pmu(p)->L1WritebackCount();
    default: return Pmu(p)->L2WritebackCount();
  }
}

}  // namespace sut
