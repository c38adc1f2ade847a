// The scratch allocator, with failing system allocations.
#include <string.h>

#include <new>
#include <vector>

#include "plan.h"
#include "sim.h"
#include "sut.h"

namespace {

enum Kind : int {
  kBytes = 0,  // a0: size
  kAvoid,      // a0: size, a1: address to avoid
  kReset,
  kRepeat,     // reset, repeat all requests since the last reset, twice
  kRecreate,
};
constexpr int64_t kAlign = 64;

struct Blk {
  char* p;
  int64_t n;
  uint64_t seed;
};
struct State {
  void* a = nullptr;
  std::vector<Blk> live;
  std::vector<Op> since;  // requests since the last reset
  bool faults = false;
  uint64_t seq = 0;
};

// Returns false if the request was refused.
bool Request(State* st, const Op& op) {
  void* p = nullptr;
  bool threw = false;
  bool fired0 = sim::AllocFaultFired();
  uint64_t failed0 = sim::Heap().total_allocs - sim::Heap().system_calls;
  sim::ArmAllocFaults(st->faults);
  try {
    sim::SutScope s;
    p = op.kind == kBytes ? sut::AllocatorBytes(st->a, op.a[0])
                          : sut::AllocatorAvoiding(st->a, op.a[0], (const void*)op.a[1]);
  } catch (const std::bad_alloc&) {
    threw = true;
  }
  sim::ArmAllocFaults(false);
  bool refused = (uint64_t)(sim::Heap().total_allocs - sim::Heap().system_calls) != failed0;
  (void)fired0;
  if (threw) {
    if (!refused) sim::Fail("exception", "exception without a refused system allocation");
    sim::Probe("alloc_threw");
    return false;
  }
  if (op.a[0] == 0) {
    if (p) sim::Fail("alloc-contract", "an empty request returned a block");
    return true;
  }
  if (!p) {
    if (!refused) sim::Fail("alloc-contract", "null though the system refused nothing");
    sim::Probe("alloc_null");
    return false;
  }
  if ((uintptr_t)p % kAlign)
    sim::Fail("alloc-contract", "block %p is not aligned to %ld", p, (long)kAlign);
  const void* base;
  size_t size;
  if (!sim::HeapOwned(p, op.a[0], &base, &size))
    sim::Fail("alloc-contract", "a block of %ld bytes at %p is not inside memory owned by the allocator",
              (long)op.a[0], p);
  for (const Blk& b : st->live)
    if ((char*)p < b.p + b.n && b.p < (char*)p + op.a[0])
      sim::Fail("alloc-contract", "two live blocks overlap");
  Blk b = {(char*)p, op.a[0], MixHash(++st->seq, op.a[0])};
  memset(b.p, (int)(b.seed & 255), b.n);
  sim::UserWrite(b.p, b.n);
  st->live.push_back(b);
  return true;
}

void CheckContents(State* st) {
  for (const Blk& b : st->live) {
    sim::UserRead(b.p, b.n);
    for (int64_t i = 0; i < b.n; i++)
      if ((unsigned char)b.p[i] != (unsigned char)b.seed)
        sim::Fail("alloc-contract", "a live block changed");
  }
}

void Reset(State* st) {
  CheckContents(st);
  st->live.clear();
  sim::ArmAllocFaults(st->faults);
  try {
    sim::SutScope s;
    sut::AllocatorFreeAll(st->a);
  } catch (const std::bad_alloc&) {
    sim::Fail("exception", "a reset threw");
  }
  sim::ArmAllocFaults(false);
}

void Run(const Plan& plan) {
  State* st = new State;
  st->faults = plan.Get("alloc_faults");
  sim::HeapStats h0 = sim::Heap();
  {
    sim::SutScope s;
    st->a = sut::AllocatorNew();
  }
  for (const Op& op : plan.ops) {
    switch (op.kind) {
      case kBytes:
      case kAvoid:
        if (Request(st, op)) st->since.push_back(op);
        CheckContents(st);
        break;
      case kReset:
        Reset(st);
        st->since.clear();
        break;
      case kRepeat: {
        // After a reset the same requests need no further system
        // memory (no failures injected meanwhile).
        bool f = st->faults;
        st->faults = false;
        std::vector<Op> pattern = st->since;
        for (int round = 0; round < 4; round++) {
          Reset(st);
          int64_t before = sim::Heap().total_allocs;
          for (const Op& o : pattern)
            if (!Request(st, o)) sim::Fail("alloc-contract", "request refused");
          CheckContents(st);
          if (round >= 1 && sim::Heap().total_allocs != before)
            sim::Soft("alloc-growth", "a repeated request pattern still takes system memory");
        }
        sim::Probe("alloc_repeat");
        st->faults = f;
        break;
      }
      case kRecreate: {
        CheckContents(st);
        st->live.clear();
        st->since.clear();
        sim::SutScope s;
        sut::AllocatorDelete(st->a);
        st->a = sut::AllocatorNew();
        break;
      }
    }
    sim::MixState(MixHash(st->live.size(), sim::Heap().live_bytes));
  }
  CheckContents(st);
  {
    sim::SutScope s;
    sut::AllocatorDelete(st->a);
  }
  sim::HeapStats h1 = sim::Heap();
  if (h1.live_blocks != h0.live_blocks || h1.live_bytes != h0.live_bytes) {
    char buf[600];
    sim::DescribeLeaks(buf, sizeof buf);
    sim::Soft("leak", "%ld blocks not returned: %s", (long)(h1.live_blocks - h0.live_blocks), buf);
  }
}

void Gen(Rng& r, const std::string&, Plan* p) {
  p->cfg["s.heap_reuse"] = r.Below(2);
  bool faults = r.Chance(60);
  p->cfg["faults"] = faults;
  p->cfg["alloc_faults"] = faults;
  int64_t max = r.Pick({64, 300, 3000, 20000});
  if (faults) {
    switch (r.Below(4)) {
      case 0:
      case 1:
        p->cfg["s.alloc_fail_nth"] = r.In(1, 20);
        break;
      case 2:
        p->cfg["s.alloc_fail_permille"] = r.Pick({50, 200, 500});
        break;
      default:
        p->cfg["s.mem_limit"] = max * r.In(1, 8);
    }
  }
  int n = (int)r.In(2, 30);
  for (int i = 0; i < n; i++) {
    Op o;
    int k = (int)r.Below(100);
    if (k < 70) {
      o.kind = r.Chance(60) ? kBytes : kAvoid;
      o.a[0] = r.Chance(70) ? r.In(1, max)
                            : r.Pick<int64_t>({0, 1, 63, 64, 65, 128, 1023, 1024, 1025, max, max});
      if (faults && r.Chance(3)) o.a[0] = r.Pick<int64_t>({1ll << 34, 1ll << 40, 1ll << 62});
      o.a[1] = r.Chance(30) ? r.Below(4096) : (int64_t)(r.Next() >> 20);
    } else if (k < 88) {
      o.kind = kReset;
    } else if (k < 98) {
      o.kind = kRepeat;
    } else {
      o.kind = kRecreate;
    }
    p->ops.push_back(o);
  }
}

Registrar reg({"alloc", "any", Gen, Run});

}  // namespace
