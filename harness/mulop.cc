#include "mulop.h"

#include <math.h>
#include <string.h>

#include <exception>

#include "sim.h"

namespace {

double SmallInt(Rng& r) { return (double)r.In(-4, 4); }

void FillElems(char* p, int64_t n, int combo, int which, uint64_t seed,
               int values) {
  Rng r(MixHash(seed, 17 + which));
  // One draw per element in order, so contents depend on position only.
  for (int64_t i = 0; i < n; i++) {
    if (combo == sut::kF32) {
      float v;
      switch (values) {
        case kDenormal: {
          int k = r.Below(4);
          v = k == 0   ? (float)r.In(1, 1000) * 1.401298464324817e-45f
              : k == 1 ? (float)r.In(1, 100) * 1e-39f
              : k == 2 ? (float)r.In(-9, 9) * 1.1754944e-38f
                       : (float)SmallInt(r);
          break;
        }
        case kRandom:
          v = (float)((double)r.In(-1000000, 1000000) / 123457.0);
          break;
        case kExtreme:
          v = (float)(r.Chance(10) ? r.Pick({1e30, -1e30, 1e-30, 0.0, -0.0})
                                   : (double)r.In(-1000000, 1000000) / 997.0);
          break;
        default:
          v = (float)SmallInt(r);
      }
      memcpy(p + i * 4, &v, 4);
    } else if (combo == sut::kF64) {
      double v;
      switch (values) {
        case kDenormal:
          v = r.Chance(60) ? (double)r.In(1, 1000) * 4.9406564584124654e-324
                           : SmallInt(r);
          break;
        case kRandom:
        case kExtreme:
          v = (double)r.In(-1000000, 1000000) / 123457.0;
          break;
        default:
          v = SmallInt(r);
      }
      memcpy(p + i * 8, &v, 8);
    } else {
      uint8_t v;
      if (values == kSmallInts && (combo == sut::kI8 || combo == sut::kI8Raw))
        v = (uint8_t)(int8_t)r.In(-20, 20);
      else
        v = (uint8_t)r.Below(256);
      if (combo == sut::kI8 || combo == sut::kI8Raw)
        if ((int8_t)v == -128) v = (uint8_t)(int8_t)-127;
      p[i] = (char)v;
    }
  }
}

int64_t Extent(const sut::MatSpec& m) {
  int outer = m.order ? m.rows : m.cols;
  int inner = m.order ? m.cols : m.rows;
  if (outer == 0 || inner == 0) return 0;
  return (int64_t)(outer - 1) * m.stride + inner;
}
int64_t Index(const sut::MatSpec& m, int i, int j) {
  return m.order ? (int64_t)i * m.stride + j : (int64_t)j * m.stride + i;
}

double Elem(int combo, int which, const char* p, int64_t i) {
  switch (combo) {
    case sut::kF32: {
      float v;
      memcpy(&v, p + i * 4, 4);
      return v;
    }
    case sut::kF64: {
      double v;
      memcpy(&v, p + i * 8, 8);
      return v;
    }
    case sut::kI8:
      return which == 2 ? ((const int8_t*)p)[i] : ((const int8_t*)p)[i];
    case sut::kI8Raw:
      if (which == 2) {
        int32_t v;
        memcpy(&v, p + i * 4, 4);
        return v;
      }
      return ((const int8_t*)p)[i];
    case sut::kU8:
      return ((const uint8_t*)p)[i];
    default:
      if (which == 2) {
        int16_t v;
        memcpy(&v, p + i * 2, 2);
        return v;
      }
      return ((const uint8_t*)p)[i];
  }
}

}  // namespace

void NewBuffer(MulEnv* env, int id, size_t bytes) {
  if ((int)env->bufs.size() <= id) env->bufs.resize(id + 1);
  Buffer& b = env->bufs[id];
  b.p = (char*)sim::UserAlloc(bytes, 64, 0);
  b.bytes = bytes;
}
void FillBuffer(Buffer* b, int combo, uint64_t seed, int values) {
  int sz = sut::ScalarSize(combo, 0);
  FillElems(b->p, b->bytes / sz, combo, 0, seed, values);
  sim::UserWrite(b->p, b->bytes);
  b->seed = seed;
}

void GenMul(Rng& r, const MulGen& g, int64_t* a) {
  int combo;
  do {
    combo = r.Below(sut::kComboCount);
  } while (!((g.combos >> combo) & 1));
  a[kMCombo] = combo;
  auto dim = [&]() -> int64_t {
    switch (r.Below(4)) {
      case 0:
        return r.In(1, 5);
      case 1:
        return r.In(1, g.max_dim);
      case 2:
        return r.Pick({1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33});
      default:
        return r.In(1, g.max_dim);
    }
  };
  do {
    a[kMRows] = dim();
    a[kMDepth] = dim();
    a[kMCols] = dim();
  } while (a[kMRows] * a[kMDepth] * a[kMCols] > g.max_macs ||
           a[kMRows] > g.max_dim || a[kMDepth] > g.max_dim ||
           a[kMCols] > g.max_dim);
  if (g.max_long && r.Chance(12)) {
    // Long and thin: many blocks along one side.
    a[kMRows] = r.In(1, 4);
    a[kMDepth] = r.In(1, 4);
    a[kMCols] = r.In(1, 4);
    a[r.Chance(40) ? kMRows : r.Chance(70) ? kMCols : kMDepth] = r.In(20, g.max_long);
  }
  a[kMOrders] = r.Below(8);
  a[kMPads] = 0;
  if (r.Chance(40))
    a[kMPads] = r.Below(4) | (r.Below(4) << 8) | (r.Below(4) << 16);
  bool quant = combo != sut::kF32 && combo != sut::kF64;
  a[kMZpL] = a[kMZpR] = a[kMZpD] = 0;
  bool u8 = combo == sut::kU8 || combo == sut::kU8I16;
  if (quant) {
    if (u8) {
      a[kMZpL] = r.Chance(70) ? r.In(0, 255) : 128;
      a[kMZpR] = r.Chance(70) ? r.In(0, 255) : 128;
    } else {
      a[kMZpL] = r.Chance(60) ? r.In(-127, 127) : 0;
      a[kMZpR] = r.Chance(60) ? r.In(-127, 127) : 0;
    }
    if (combo == sut::kU8) a[kMZpD] = r.In(0, 255);
    if (combo == sut::kI8) a[kMZpD] = r.In(-128, 127);
    if (combo == sut::kU8I16) a[kMZpD] = r.In(-1000, 1000);
  }
  a[kMPolicy] = 0;
  if (g.caching) a[kMPolicy] = r.Below(4) | (r.Below(4) << 4);
  int f = 0;
  if (r.Chance(50)) f |= kMFBias;
  if (r.Chance(40)) f |= kMFPerChannel;
  if (r.Chance(40)) f |= kMFChannelCol;
  if (r.Chance(30)) f |= kMFClamp;
  if (g.allow_all_paths && r.Chance(40)) f |= kMFAllPaths;
  if (r.Chance(15)) f |= kMFCap8;
  if (r.Chance(15)) f |= kMFCap16;
  if (r.Chance(30)) f |= kMFDstSub;
  a[kMFlags] = f;
  a[kMSeed] = (int64_t)(r.Next() >> 20);
  a[kMValues] = g.values;
  a[kMBufL] = a[kMBufR] = a[kMOffL] = a[kMOffR] = 0;
  a[kMMisalign] = r.Chance(50) ? r.Below(5) : 0;
}

MulResult DoMul(MulEnv* env, void* ctx, const int64_t* a, const MulOpts& o) {
  MulResult res;
  sut::MulSpec s = {};
  s.combo = a[kMCombo];
  const int combo = s.combo;
  const int sl = sut::ScalarSize(combo, 0), sr = sut::ScalarSize(combo, 1),
            sd = sut::ScalarSize(combo, 2), sa = sut::ScalarSize(combo, 3);
  const int flags = a[kMFlags];
  auto mat = [&](sut::MatSpec* m, int rows, int cols, int bit, int pad) {
    m->rows = rows;
    m->cols = cols;
    m->order = (a[kMOrders] >> bit) & 1;
    m->stride = (m->order ? cols : rows) + pad;
  };
  mat(&s.lhs, a[kMRows], a[kMDepth], 0, a[kMPads] & 255);
  mat(&s.rhs, a[kMDepth], a[kMCols], 1, (a[kMPads] >> 8) & 255);
  mat(&s.dst, a[kMRows], a[kMCols], 2, (a[kMPads] >> 16) & 255);
  s.lhs.zero_point = a[kMZpL];
  s.rhs.zero_point = a[kMZpR];
  s.dst.zero_point = a[kMZpD];
  s.lhs.cache_policy = a[kMPolicy] & 15;
  s.rhs.cache_policy = (a[kMPolicy] >> 4) & 15;
  // Temporary operands do not outlive the call, so must not be cached.
  if (a[kMBufL] <= 0) s.lhs.cache_policy = 0;
  if (a[kMBufR] <= 0) s.rhs.cache_policy = 0;
  const uint64_t seed = a[kMSeed];
  const int mis = a[kMMisalign];

  char* tmp[8] = {};
  size_t tmp_bytes[8] = {};
  int ntmp = 0;
  auto user = [&](size_t bytes, int elem) -> char* {
    char* p = (char*)sim::UserAlloc(bytes ? bytes : 1, 16, (size_t)mis * elem);
    tmp[ntmp] = p;
    tmp_bytes[ntmp++] = bytes;
    return p;
  };
  auto watch = [&](const void* p, size_t n) {
    sim::WatchConst(p, n, true);
  };

  // Operands.
  auto operand = [&](sut::MatSpec* m, int which, int elem, int64_t buf,
                     int64_t off) {
    int64_t n = Extent(*m);
    if (buf > 0 && buf < (int64_t)env->bufs.size() && env->bufs[buf].p) {
      Buffer& b = env->bufs[buf];
      int64_t cap = b.bytes / elem;
      if (n > cap) sim::Machinery("buffer too small");
      if (off + n > cap) off = cap - n;
      m->data = b.p + off * elem;
      return;
    }
    char* p = user(n * elem, elem);
    FillElems(p, n, combo, which, seed, a[kMValues]);
    sim::UserWrite(p, n * elem);
    m->data = p;
  };
  operand(&s.lhs, 0, sl, a[kMBufL], a[kMOffL]);
  operand(&s.rhs, 1, sr, a[kMBufR], a[kMOffR]);

  // Parameters.
  s.channel_dim = (flags & kMFChannelCol) ? 1 : 0;
  int channels = s.channel_dim ? s.dst.cols : s.dst.rows;
  s.cap_rounding = (flags & kMFCap16) ? 16 : (flags & kMFCap8) ? 8 : 1;
  int cap = (channels + s.cap_rounding - 1) / s.cap_rounding * s.cap_rounding;
  Rng pr(MixHash(seed, 99));
  if (flags & kMFBias) {
    char* b = user((size_t)cap * sa, sa);
    memset(b, 0, (size_t)cap * sa);
    for (int i = 0; i < channels; i++) {
      if (combo == sut::kF32) {
        float v = (float)pr.In(-9, 9);
        if (a[kMValues] == kDenormal) v = (float)pr.In(0, 3) * 1e-40f;
        memcpy(b + i * 4, &v, 4);
      } else if (combo == sut::kF64) {
        double v = (double)pr.In(-9, 9);
        memcpy(b + i * 8, &v, 8);
      } else {
        int32_t v = (int32_t)pr.In(-5000, 5000);
        memcpy(b + i * 4, &v, 4);
      }
    }
    sim::UserWrite(b, (size_t)cap * sa);
    s.bias = b;
  }
  bool quant = combo == sut::kI8 || combo == sut::kU8 || combo == sut::kU8I16;
  if (quant) {
    auto fp = [&]() { return (int32_t)((1 << 30) + pr.Below((1ll << 30) - 1)); };
    auto ex = [&]() {
      return (int32_t)(combo == sut::kU8I16 ? pr.In(-6, 1) : pr.In(-12, -1));
    };
    if (flags & kMFPerChannel) {
      int32_t* f = (int32_t*)user((size_t)cap * 4, 4);
      int32_t* e = (int32_t*)user((size_t)cap * 4, 4);
      for (int i = 0; i < cap; i++) {
        f[i] = i < channels ? fp() : 0;
        e[i] = i < channels ? ex() : 0;
      }
      sim::UserWrite(f, (size_t)cap * 4);
      sim::UserWrite(e, (size_t)cap * 4);
      s.mult_fixedpoint_pc = f;
      s.mult_exponent_pc = e;
    } else {
      s.mult_fixedpoint = fp();
      s.mult_exponent = ex();
    }
  }
  if ((flags & kMFClamp) && combo != sut::kI8Raw) {
    s.has_clamp = true;
    switch (combo) {
      case sut::kU8:
        s.clamp_min = 30;
        s.clamp_max = 200;
        break;
      case sut::kI8:
        s.clamp_min = -90;
        s.clamp_max = 100;
        break;
      case sut::kU8I16:
        s.clamp_min = -3000;
        s.clamp_max = 20000;
        break;
      default:
        s.clamp_min = -10;
        s.clamp_max = 25;
    }
  }
  s.all_paths = flags & kMFAllPaths;

  // Destination with guard elements around it.
  int64_t dn = Extent(s.dst);
  int64_t guard = (flags & kMFDstSub) ? 32 : 0;
  char* dbase = user((dn + 2 * guard) * sd, sd);
  size_t dbytes = (dn + 2 * guard) * sd;
  memset(dbase, 0x5a, dbytes);
  sim::UserWrite(dbase, dbytes);
  s.dst.data = dbase + guard * sd;

  const int64_t ln = Extent(s.lhs) * sl, rn = Extent(s.rhs) * sr;
  std::vector<char> lcopy((char*)s.lhs.data, (char*)s.lhs.data + ln);
  std::vector<char> rcopy((char*)s.rhs.data, (char*)s.rhs.data + rn);
  watch(s.lhs.data, ln);
  watch(s.rhs.data, rn);
  if (s.bias) watch(s.bias, (size_t)cap * sa);
  if (s.mult_fixedpoint_pc) {
    watch(s.mult_fixedpoint_pc, (size_t)cap * 4);
    watch(s.mult_exponent_pc, (size_t)cap * 4);
  }

  if (o.before) o.before(o.arg);
  {
    sim::SutScope scope;
    if (o.faults) sim::ArmAllocFaults(true);
    try {
      sut::Mul(ctx, s);
    } catch (const std::exception& e) {
      res.threw = true;
    }
    if (o.faults) sim::ArmAllocFaults(false);
  }
  if (o.after) o.after(o.arg);
  sim::WatchConst(s.lhs.data, ln, false);
  sim::WatchConst(s.rhs.data, rn, false);
  if (s.bias) sim::WatchConst(s.bias, (size_t)cap * sa, false);
  if (s.mult_fixedpoint_pc) {
    sim::WatchConst(s.mult_fixedpoint_pc, (size_t)cap * 4, false);
    sim::WatchConst(s.mult_exponent_pc, (size_t)cap * 4, false);
  }
  auto release = [&]() {
    // The user re-uses and frees everything at once.
    for (int i = 0; i < ntmp; i++) {
      sim::UserWrite(tmp[i], tmp_bytes[i]);
      memset(tmp[i], 0x77, tmp_bytes[i]);
      if (o.free_operands) sim::UserFree(tmp[i]);
    }
  };
  if (res.threw) {
    release();
    return res;
  }
  sim::Probe("mul");

  res.writers = sim::LastWriters(dbase, dbytes);
  // The user reads the destination and overwrites the operands.
  sim::UserRead(dbase, dbytes);
  for (int j = 0; j < s.dst.cols; j++)
    for (int i = 0; i < s.dst.rows; i++) {
      const char* e = (char*)s.dst.data + Index(s.dst, i, j) * sd;
      res.dst.insert(res.dst.end(), e, e + sd);
    }
  {
    sim::SutScope scope;
    res.path = sut::CtxLastPath(ctx);
    res.advisory = sut::CtxAdvisory(ctx);
  }
  if (memcmp(lcopy.data(), s.lhs.data, ln) || memcmp(rcopy.data(), s.rhs.data, rn))
    sim::Fail("const-write", "an operand was modified by the multiplication");
  // Everything outside the destination's elements is untouched.
  {
    std::vector<char> mask(dn + 2 * guard, 0);
    for (int j = 0; j < s.dst.cols; j++)
      for (int i = 0; i < s.dst.rows; i++) mask[guard + Index(s.dst, i, j)] = 1;
    for (int64_t k = 0; k < dn + 2 * guard; k++) {
      if (mask[k]) continue;
      for (int b = 0; b < sd; b++)
        if (dbase[k * sd + b] != 0x5a)
          sim::Soft("dst-outside-write",
                    "element at offset %ld outside the destination was modified",
                    (long)(k - guard));
    }
  }

  {
    uint64_t h = 1469598103934665603ull ^ (uint64_t)res.path;
    for (char c : res.dst) h = (h ^ (unsigned char)c) * 1099511628211ull;
    sim::MixState(h);
  }
  if (o.check) {
    // Reference: fresh Context, one thread, no caching, same code path.
    std::vector<char> ref(dn * sd, 0x33);
    sut::MulSpec q = s;
    q.lhs.cache_policy = q.rhs.cache_policy = 0;
    // Unchecked copies, so that the reference can not race with anything.
    std::vector<char> lc = lcopy, rc = rcopy;
    q.lhs.data = lc.data();
    q.rhs.data = rc.data();
    q.dst.data = ref.data();
    {
      sim::SutScope scope;
      void* rctx = sut::CtxNew();
      sut::CtxSetPaths(rctx, o.ref_paths >= 0 ? o.ref_paths : res.path);
      sut::CtxSetTuning(rctx, 1);
      sut::Mul(rctx, q);
      res.ref_advisory = sut::CtxAdvisory(rctx);
      sut::CtxDelete(rctx);
    }
    for (int j = 0; j < s.dst.cols; j++)
      for (int i = 0; i < s.dst.rows; i++) {
        int64_t k = Index(s.dst, i, j);
        if (memcmp((char*)s.dst.data + k * sd, ref.data() + k * sd, sd)) {
          sim::Soft("result-mismatch",
                    "dst(%d,%d) of %dx%dx%d combo %d path 0x%x: got %g, one fresh "
                    "thread gives %g",
                    i, j, s.dst.rows, s.lhs.cols, s.dst.cols, combo, res.path,
                    Elem(combo, 2, (char*)s.dst.data, k),
                    Elem(combo, 2, ref.data(), k));
        }
      }
  }
  if (o.exact_check && a[kMValues] == kSmallInts &&
      (combo == sut::kF32 || combo == sut::kF64 || combo == sut::kI8Raw)) {
    for (int j = 0; j < s.dst.cols; j++)
      for (int i = 0; i < s.dst.rows; i++) {
        double acc = 0;
        for (int k = 0; k < s.lhs.cols; k++)
          acc += (Elem(combo, 0, (char*)s.lhs.data, Index(s.lhs, i, k)) -
                  s.lhs.zero_point) *
                 (Elem(combo, 1, (char*)s.rhs.data, Index(s.rhs, k, j)) -
                  s.rhs.zero_point);
        if (s.bias) {
          int c = s.channel_dim ? j : i;
          if (combo == sut::kF32)
            acc += ((const float*)s.bias)[c];
          else if (combo == sut::kF64)
            acc += ((const double*)s.bias)[c];
          else
            acc += ((const int32_t*)s.bias)[c];
        }
        if (s.has_clamp) acc = fmin(fmax(acc, s.clamp_min), s.clamp_max);
        double got = Elem(combo, 2, (char*)s.dst.data, Index(s.dst, i, j));
        if (got != acc)
          sim::Soft("result-mismatch",
                    "dst(%d,%d) of %dx%dx%d combo %d path 0x%x: got %g, exact %g", i,
                    j, s.dst.rows, s.lhs.cols, s.dst.cols, combo, res.path, got,
                    acc);
      }
  }
  release();
  return res;
}
