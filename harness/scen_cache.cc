// The cache of packed operands against a model: which entries it holds, in
// which order they are ejected, how many bytes it reports.
#include <string.h>

#include <vector>

#include "plan.h"
#include "sim.h"
#include "sut.h"

namespace {

enum Kind : int {
  kGet = 0,   // a0: source, a1..: packed matrix
  kRecreate,  // a0: new budget
};

struct Entry {
  int64_t src;
  sut::PMatSpec m;
  int64_t data_bytes, sums_bytes;
  void *data, *sums;
  uint64_t fill;
};

sut::PMatSpec SpecOf(const Op& op) {
  const int64_t* a = op.a;
  sut::PMatSpec m = {};
  static const int kSize[4] = {1, 4, 8, 2};
  m.is_float = a[1] == 1 || a[1] == 2;
  m.is_signed = 1;
  m.data_size = kSize[a[1] & 3];
  m.sums_float = m.is_float;
  m.sums_size = m.is_float ? m.data_size : 4;
  m.kernel_rows = (int)a[4];
  m.kernel_cols = (int)a[5];
  m.kernel_order = (int)a[6];
  m.rows = (int)((a[2] + m.kernel_rows - 1) / m.kernel_rows * m.kernel_rows);
  m.cols = (int)((a[3] + m.kernel_cols - 1) / m.kernel_cols * m.kernel_cols);
  m.stride = m.rows;
  m.order = 0;
  m.zero_point = m.is_float ? 0 : (int)a[7];
  return m;
}

bool Same(const Entry& e, int64_t src, const sut::PMatSpec& m) {
  return e.src == src && e.m.rows == m.rows && e.m.cols == m.cols &&
         e.m.stride == m.stride && e.m.order == m.order &&
         e.m.kernel_rows == m.kernel_rows && e.m.kernel_cols == m.kernel_cols &&
         e.m.kernel_order == m.kernel_order && e.m.zero_point == m.zero_point;
}

void FillBytes(void* p, int64_t n, uint64_t seed) {
  Rng r(seed);
  unsigned char* c = (unsigned char*)p;
  for (int64_t i = 0; i < n; i++) c[i] = (unsigned char)r.Next();
  sim::UserWrite(p, n);
}
void CheckBytes(const void* p, int64_t n, uint64_t seed, const char* what) {
  sim::UserRead(p, n);
  Rng r(seed);
  const unsigned char* c = (const unsigned char*)p;
  for (int64_t i = 0; i < n; i++)
    if (c[i] != (unsigned char)r.Next())
      sim::Soft("cache-contents", "%s of a held entry changed at byte %ld", what, (long)i);
}

void Run(const Plan& plan) {
  // One source type per address: the documentation allows the cache to rely
  // on it.
  static const int kSources = 16;
  sim::HeapStats h0 = sim::Heap();
  char* src = (char*)sim::UserAlloc(4096 * kSources, 64, 0);
  int64_t budget = plan.Get("budget");
  void* cache;
  {
    sim::SutScope s;
    cache = sut::CacheNew((int)budget);
  }
  std::vector<Entry> model;  // least recently used first
  int64_t total = 0;
  for (const Op& op : plan.ops) {
    if (op.kind == kRecreate) {
      {
        sim::SutScope s;
        sut::CacheDelete(cache);
      }
      sim::HeapStats h = sim::Heap();
      if (h.live_blocks != h0.live_blocks)
        sim::Soft("leak", "%ld blocks held after the cache was cleared",
                  (long)(h.live_blocks - h0.live_blocks));
      model.clear();
      total = 0;
      budget = op.a[0];
      sim::SutScope s;
      cache = sut::CacheNew((int)budget);
    } else {
      sut::PMatSpec m = SpecOf(op);
      int64_t key = op.a[0];
      size_t hit = model.size();
      for (size_t i = 0; i < model.size(); i++)
        if (Same(model[i], key, m)) hit = i;
      void *data = nullptr, *sums = nullptr;
      int inserted;
      {
        sim::SutScope s;
        inserted = sut::CacheGet(cache, src + (key >> 4 & 15) * 4096 + (key & 15), m, &data, &sums);
      }
      if (hit < model.size()) {
        if (inserted)
          sim::Fail("cache-lookup", "an entry that fits the budget was not found again");
        Entry e = model[hit];
        if (data != e.data || sums != e.sums)
          sim::Fail("cache-lookup", "the lookup returned other buffers");
        model.erase(model.begin() + hit);
        model.push_back(e);
        sim::Probe("cache_hit");
      } else {
        if (!inserted) sim::Fail("cache-lookup", "found an entry that was never inserted or was ejected");
        Entry e;
        e.src = key;
        e.m = m;
        e.data = data;
        e.sums = sums;
        e.data_bytes = (int64_t)m.stride * m.cols * m.data_size;
        // Floating-point matrices have no sums.
        e.sums_bytes = m.sums_float ? 0 : (int64_t)m.cols * m.sums_size;
        e.fill = MixHash(op.a[8], key);
        while (!model.empty() && total + e.data_bytes + e.sums_bytes > budget) {
          total -= model[0].data_bytes + model[0].sums_bytes;
          model.erase(model.begin());
          sim::Probe("cache_ejection");
        }
        if (e.data_bytes + e.sums_bytes > budget) sim::Probe("cache_oversize");
        total += e.data_bytes + e.sums_bytes;
        const void* base;
        size_t size;
        if (!sim::HeapOwned(data, e.data_bytes, &base, &size))
          sim::Soft("cache-contents", "the data buffer is too small or not live");
        if (e.sums_bytes && !sim::HeapOwned(sums, e.sums_bytes, &base, &size))
          sim::Soft("cache-contents", "the sums buffer is too small or not live");
        FillBytes(data, e.data_bytes, e.fill);
        if (e.sums_bytes) FillBytes(sums, e.sums_bytes, e.fill ^ 1);
        model.push_back(e);
      }
      // Many more uses of the same entry.
      for (int64_t i = 0; i < op.a[9]; i++) {
        void *d = nullptr, *u = nullptr;
        sim::SutScope s;
        if (sut::CacheGet(cache, src + (key >> 4 & 15) * 4096 + (key & 15), m, &d, &u) || d != data ||
            u != sums)
          sim::Fail("cache-lookup", "an entry just used was not found again");
      }
      if (op.a[9]) sim::Probe("cache_long");
    }
    int64_t bytes, count;
    {
      sim::SutScope s;
      bytes = sut::CacheBytes(cache);
      count = sut::CacheCount(cache);
    }
    if (count != (int64_t)model.size())
      sim::Soft("cache-ejection", "the cache holds %ld entries, least-recently-used ejection leaves %ld",
                (long)count, (long)model.size());
    if (bytes != total)
      sim::Soft("cache-accounting", "the cache reports %ld bytes but holds %ld", (long)bytes,
                (long)total);
    if (model.size() > 1 && total > budget) sim::Machinery("model above budget");
    for (const Entry& e : model) {
      const void* base;
      size_t size;
      if (!sim::HeapOwned(e.data, e.data_bytes, &base, &size) ||
          (e.sums_bytes && !sim::HeapOwned(e.sums, e.sums_bytes, &base, &size)))
        sim::Soft("cache-ejection", "an entry that was not due for ejection was freed");
      CheckBytes(e.data, e.data_bytes, e.fill, "data");
      if (e.sums_bytes) CheckBytes(e.sums, e.sums_bytes, e.fill ^ 1, "sums");
    }
    // What the cache really holds: buffers, and a little per entry.
    sim::HeapStats h = sim::Heap();
    if (h.live_bytes - h0.live_bytes > total + 512 + 1024 * (int64_t)model.size() + 64 * (int64_t)plan.ops.size())
      sim::Soft("cache-accounting", "the cache holds %ld bytes of memory for %ld bytes of buffers",
                (long)(h.live_bytes - h0.live_bytes), (long)total);
    sim::MixState(MixHash(bytes, count));
  }
  {
    sim::SutScope s;
    sut::CacheDelete(cache);
  }
  sim::HeapStats h1 = sim::Heap();
  if (h1.live_blocks != h0.live_blocks || h1.live_bytes != h0.live_bytes) {
    char buf[600];
    sim::DescribeLeaks(buf, sizeof buf);
    sim::Soft("leak", "%ld blocks not returned: %s", (long)(h1.live_blocks - h0.live_blocks), buf);
  }
  sim::UserFree(src);
}

void Gen(Rng& r, const std::string&, Plan* p) {
  p->cfg["s.heap_reuse"] = r.Below(2);
  int nsrc = (int)r.In(2, 12);
  int type = (int)r.Below(4);  // type of source 0; sources have fixed types
  int maxdim = (int)r.Pick({4, 12, 40});
  int64_t typical = 0;
  int n = (int)r.In(3, r.Chance(20) ? 120 : 40);
  int kr = (int)r.Pick({1, 1, 4, 8}), kc = (int)r.Pick({1, 2, 8});
  bool mixed = r.Chance(60);
  // Sometimes many entries fit.
  const bool many = r.Chance(2);
  int nkinds = many ? (int)r.In(60, 140) : nsrc * 2;
  if (many) {
    n = (int)r.In(150, 400);
    maxdim = 12;
  }
  std::vector<Op> kinds;
  for (int i = 0; i < nkinds; i++) {
    Op o;
    o.kind = kGet;
    int s = (int)r.Below(nsrc);
    o.a[0] = s * 16 + (r.Chance(80) ? 0 : r.Below(2) * 8);
    o.a[1] = mixed ? (type + s) & 3 : type;
    o.a[2] = r.In(1, maxdim);
    o.a[3] = r.In(1, maxdim);
    o.a[4] = r.Chance(80) ? kr : r.Pick({1, 4});
    o.a[5] = r.Chance(80) ? kc : r.Pick({1, 8});
    o.a[6] = r.Chance(80) ? 0 : 1;
    o.a[7] = r.Chance(80) ? 0 : r.In(-3, 3);
    if (i && r.Chance(30)) {
      // Close to an earlier one.
      o = kinds[r.Below(i)];
      switch (r.Below(5)) {
        case 0: o.a[7] = r.In(-3, 3); break;
        case 1: o.a[6] ^= 1; break;
        case 2: o.a[2] = r.In(1, maxdim); break;
        case 3: o.a[3] = r.In(1, maxdim); break;
        default: std::swap(o.a[4], o.a[5]); break;
      }
    }
    sut::PMatSpec m = SpecOf(o);
    typical += (int64_t)m.stride * m.cols * m.data_size + (m.sums_float ? 0 : m.cols * m.sums_size);
    kinds.push_back(o);
  }
  typical /= nkinds;
  int64_t budget = typical * r.In(many ? nkinds / 2 : 0, nkinds) + r.Below(typical + 1);
  p->cfg["budget"] = budget;
  // Often exactly the size of some entries, to hit the boundary.
  if (!many && r.Chance(50)) {
    int64_t b = 0;
    int k = (int)r.In(1, 5);
    for (int i = 0; i < k; i++) {
      sut::PMatSpec m = SpecOf(kinds[r.Below((int64_t)kinds.size())]);
      b += (int64_t)m.stride * m.cols * m.data_size + (m.sums_float ? 0 : m.cols * m.sums_size);
    }
    p->cfg["budget"] = b + r.In(-1, 1);
  }
  if (p->cfg["budget"] < 0) p->cfg["budget"] = 0;
  // A cache that is used for long.
  int wear = r.Chance(5) ? 100 : r.Below(1000) == 0 ? 23000 : 0;
  for (int i = 0; i < n; i++) {
    if (r.Chance(2)) {
      Op o;
      o.kind = kRecreate;
      o.a[0] = p->cfg["budget"];
      p->ops.push_back(o);
    } else {
      // Skewed, so that hits are common.
      int64_t k = r.Chance(many ? 90 : 50) ? r.Below((int64_t)kinds.size()) : r.Below(3);
      Op o = kinds[k];
      o.a[8] = (int64_t)(r.Next() >> 8);
      if (wear && r.Chance(10)) o.a[9] = wear;
      p->ops.push_back(o);
    }
  }
}

Registrar reg({"cache", "any", Gen, Run});

}  // namespace
