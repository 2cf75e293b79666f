// Forced into every library source of the "trace" variant: intrinsics that read memory
// through a compiler builtin are re-expressed as plain loads, so that they are traced.
#pragma once
#if defined(__AVX__)
#include <immintrin.h>
#define _mm256_broadcast_ss(p) _mm256_set1_ps(*(p))
#define _mm_broadcast_ss(p) _mm_set1_ps(*(p))
#define _mm256_maskload_ps(p, m) __extension__({ const float* q_ = (p); __m256i m_ = (m); float t_[8]; int k_[8]; \
  _mm256_storeu_si256((__m256i*)k_, m_); for (int i_ = 0; i_ < 8; i_++) t_[i_] = k_[i_] < 0 ? q_[i_] : 0.f; _mm256_loadu_ps(t_); })
#define _mm256_maskstore_ps(p, m, v) __extension__({ float* q_ = (p); __m256i m_ = (m); float t_[8]; int k_[8]; _mm256_storeu_ps(t_, (v)); \
  _mm256_storeu_si256((__m256i*)k_, m_); for (int i_ = 0; i_ < 8; i_++) if (k_[i_] < 0) q_[i_] = t_[i_]; (void)0; })
#endif
