// Instrumented: instantiates ruy::Mul for the type combinations used.
#include <cstdint>
#include <limits>

#include "ruy/context.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "ruy/path.h"
#include "ruy/ruy.h"
#include "sut.h"

namespace sut {
namespace {

template <typename T>
void MakeMat(const MatSpec& s, ruy::Matrix<T>* m) {
  ruy::MakeSimpleLayout(s.rows, s.cols,
                        s.order ? ruy::Order::kRowMajor : ruy::Order::kColMajor,
                        m->mutable_layout());
  m->mutable_layout()->set_stride(s.stride);
  m->set_data(static_cast<T*>(s.data));
  m->set_zero_point(static_cast<T>(s.zero_point));
  m->set_cache_policy(static_cast<ruy::CachePolicy>(s.cache_policy));
}

template <typename Accum, typename Dst>
struct Quant {
  static void Apply(const MulSpec&, ruy::MulParams<Accum, Dst>*) {}
};
template <typename Dst>
struct Quant<std::int32_t, Dst> {
  static void Apply(const MulSpec& s, ruy::MulParams<std::int32_t, Dst>* p) {
    if (s.mult_fixedpoint_pc) {
      p->set_multiplier_fixedpoint_perchannel(s.mult_fixedpoint_pc);
      p->set_multiplier_exponent_perchannel(s.mult_exponent_pc);
    } else {
      p->set_multiplier_fixedpoint(s.mult_fixedpoint);
      p->set_multiplier_exponent(s.mult_exponent);
    }
  }
};
template <>
struct Quant<std::int32_t, std::int32_t> {
  static void Apply(const MulSpec&, ruy::MulParams<std::int32_t, std::int32_t>*) {}
};
template <typename Dst>
struct Clamp {
  template <typename P>
  static void Apply(const MulSpec& s, P* p) {
    if (s.has_clamp) {
      p->set_clamp_min(static_cast<Dst>(s.clamp_min));
      p->set_clamp_max(static_cast<Dst>(s.clamp_max));
    }
  }
};
template <>
struct Clamp<std::int32_t> {
  template <typename P>
  static void Apply(const MulSpec&, P*) {}
};

template <typename Lhs, typename Rhs, typename Accum, typename Dst>
void Go(ruy::Context* ctx, const MulSpec& s) {
  ruy::Matrix<Lhs> lhs;
  ruy::Matrix<Rhs> rhs;
  ruy::Matrix<Dst> dst;
  MakeMat(s.lhs, &lhs);
  MakeMat(s.rhs, &rhs);
  MakeMat(s.dst, &dst);
  ruy::MulParams<Accum, Dst> p;
  p.set_bias(static_cast<const Accum*>(s.bias));
  p.set_channel_dimension(s.channel_dim ? ruy::ChannelDimension::kCol
                                        : ruy::ChannelDimension::kRow);
  if (s.cap_rounding > 1)
    p.set_perchannel_buffers_capacity_rounding(s.cap_rounding);
  Quant<Accum, Dst>::Apply(s, &p);
  Clamp<Dst>::Apply(s, &p);
  if (s.all_paths)
    ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(lhs, rhs, p, ctx, &dst);
  else
    ruy::Mul(lhs, rhs, p, ctx, &dst);
}

}  // namespace

#if PART == 0
int ScalarSize(int combo, int which) {
  static const int t[kComboCount][4] = {{4, 4, 4, 4}, {1, 1, 1, 4}, {1, 1, 1, 4},
                                        {1, 1, 4, 4}, {1, 1, 2, 4}, {8, 8, 8, 8}};
  return t[combo][which];
}

#endif
void MulA(ruy::Context* ctx, const MulSpec& s);
void MulB(ruy::Context* ctx, const MulSpec& s);
void MulC(ruy::Context* ctx, const MulSpec& s);

#if PART == 0
void Mul(void* c, const MulSpec& s) {
  ruy::Context* ctx = static_cast<ruy::Context*>(c);
  switch (s.combo) {
    case kF32:
    case kF64:
      return MulA(ctx, s);
    case kI8:
    case kI8Raw:
      return MulB(ctx, s);
    default:
      return MulC(ctx, s);
  }
}
void MulA(ruy::Context* ctx, const MulSpec& s) {
  if (s.combo == kF32)
    Go<float, float, float, float>(ctx, s);
  else
    Go<double, double, double, double>(ctx, s);
}
#elif PART == 1
void MulB(ruy::Context* ctx, const MulSpec& s) {
  if (s.combo == kI8)
    Go<std::int8_t, std::int8_t, std::int32_t, std::int8_t>(ctx, s);
  else
    Go<std::int8_t, std::int8_t, std::int32_t, std::int32_t>(ctx, s);
}
#else
void MulC(ruy::Context* ctx, const MulSpec& s) {
  if (s.combo == kU8)
    Go<std::uint8_t, std::uint8_t, std::int32_t, std::uint8_t>(ctx, s);
  else
    Go<std::uint8_t, std::uint8_t, std::int32_t, std::int16_t>(ctx, s);
}
#endif

}  // namespace sut
