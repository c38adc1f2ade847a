// Force-included into instrumented SIMD translation units: masked vector
// loads/stores are not seen by the compiler instrumentation, report them here.
#ifndef VERIF_SIM_SIMD_SHIM_H_
#define VERIF_SIM_SIMD_SHIM_H_
#include <immintrin.h>
extern "C" void sim_masked_access(const void* p, unsigned long mask, int elem,
                                  int write);
#define SIM_INL static inline __attribute__((always_inline))

#ifdef __AVX512F__
SIM_INL void sim_mm512_mask_storeu_ps(void* p, __mmask16 m, __m512 v) {
  sim_masked_access(p, m, 4, 1);
  _mm512_mask_storeu_ps(p, m, v);
}
#define _mm512_mask_storeu_ps sim_mm512_mask_storeu_ps
SIM_INL void sim_mm512_mask_storeu_epi32(void* p, __mmask16 m, __m512i v) {
  sim_masked_access(p, m, 4, 1);
  _mm512_mask_storeu_epi32(p, m, v);
}
#define _mm512_mask_storeu_epi32 sim_mm512_mask_storeu_epi32
SIM_INL __m512 sim_mm512_maskz_loadu_ps(__mmask16 m, const void* p) {
  sim_masked_access(p, m, 4, 0);
  return _mm512_maskz_loadu_ps(m, p);
}
#define _mm512_maskz_loadu_ps sim_mm512_maskz_loadu_ps
SIM_INL __m512i sim_mm512_maskz_loadu_epi32(__mmask16 m, const void* p) {
  sim_masked_access(p, m, 4, 0);
  return _mm512_maskz_loadu_epi32(m, p);
}
#define _mm512_maskz_loadu_epi32 sim_mm512_maskz_loadu_epi32
#endif

#if defined(__AVX512BW__) && defined(__AVX512VL__)
SIM_INL void sim_mm256_mask_storeu_epi16(void* p, __mmask16 m, __m256i v) {
  sim_masked_access(p, m, 2, 1);
  _mm256_mask_storeu_epi16(p, m, v);
}
#define _mm256_mask_storeu_epi16 sim_mm256_mask_storeu_epi16
SIM_INL void sim_mm_mask_storeu_epi8(void* p, __mmask16 m, __m128i v) {
  sim_masked_access(p, m, 1, 1);
  _mm_mask_storeu_epi8(p, m, v);
}
#define _mm_mask_storeu_epi8 sim_mm_mask_storeu_epi8
SIM_INL __m256i sim_mm256_mask_loadu_epi16(__m256i s, __mmask16 m, const void* p) {
  sim_masked_access(p, m, 2, 0);
  return _mm256_mask_loadu_epi16(s, m, p);
}
#define _mm256_mask_loadu_epi16 sim_mm256_mask_loadu_epi16
SIM_INL __m256i sim_mm256_mask_loadu_epi8(__m256i s, __mmask32 m, const void* p) {
  sim_masked_access(p, m, 1, 0);
  return _mm256_mask_loadu_epi8(s, m, p);
}
#define _mm256_mask_loadu_epi8 sim_mm256_mask_loadu_epi8
SIM_INL __m256 sim_mm256_maskz_loadu_ps(__mmask8 m, const void* p) {
  sim_masked_access(p, m, 4, 0);
  return _mm256_maskz_loadu_ps(m, p);
}
#define _mm256_maskz_loadu_ps sim_mm256_maskz_loadu_ps
#endif

#ifdef __AVX__
SIM_INL __m256 sim_mm256_maskload_ps(const float* p, __m256i m) {
  sim_masked_access(p, (unsigned)_mm256_movemask_ps(_mm256_castsi256_ps(m)), 4, 0);
  return _mm256_maskload_ps(p, m);
}
#define _mm256_maskload_ps sim_mm256_maskload_ps
SIM_INL void sim_mm256_maskstore_ps(float* p, __m256i m, __m256 v) {
  sim_masked_access(p, (unsigned)_mm256_movemask_ps(_mm256_castsi256_ps(m)), 4, 1);
  _mm256_maskstore_ps(p, m, v);
}
#define _mm256_maskstore_ps sim_mm256_maskstore_ps
#endif

#endif
