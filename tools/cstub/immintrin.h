// What cx.py needs to read the kernels: types and prototypes only. The meaning of each is in verus/simd*.rs.
#pragma once
typedef struct vx_m128i { int x; } __m128i;
typedef struct vx_m256i { int x; } __m256i;
typedef struct vx_m512i { int x; } __m512i;
typedef unsigned char __mmask8; typedef unsigned short __mmask16;
#define _MM_SHUFFLE(z, y, x, w) (((z) << 6) | ((y) << 4) | ((x) << 2) | (w))
__m128i _mm_loadu_si128(const __m128i *);
void _mm_storeu_si128(__m128i *, __m128i);
__m128i _mm_add_epi32(__m128i, __m128i);
__m128i _mm_add_epi64(__m128i, __m128i);
__m128i _mm_xor_si128(__m128i, __m128i);
__m128i _mm_or_si128(__m128i, __m128i);
__m128i _mm_unpacklo_epi32(__m128i, __m128i);
__m128i _mm_unpackhi_epi32(__m128i, __m128i);
__m128i _mm_unpacklo_epi64(__m128i, __m128i);
__m128i _mm_unpackhi_epi64(__m128i, __m128i);
__m128i _mm_shuffle_epi8(__m128i, __m128i);
__m128i _mm_srli_epi32(__m128i, int);
__m128i _mm_slli_epi32(__m128i, int);
__m128i _mm_srli_epi64(__m128i, int);
__m128i _mm_slli_epi64(__m128i, int);
__m128i _mm_ror_epi32(__m128i, int);
__m128i _mm_ror_epi64(__m128i, int);
__m128i _mm_shuffle_epi32(__m128i, int);
__m128i _mm_permute4x64_epi64(__m128i, int);
__m128i _mm_slli_si128(__m128i, int);
__m128i _mm_srli_si128(__m128i, int);
__m128i _mm_blend_epi16(__m128i, __m128i, int);
__m128i _mm_blend_epi32(__m128i, __m128i, int);
__m128i _mm_alignr_epi8(__m128i, __m128i, int);
__m128i _mm_permute2x128_si256(__m128i, __m128i, int);
__m128i _mm_shuffle_i32x4(__m128i, __m128i, int);
__m128i _mm_set1_epi32(int);
__m128i _mm_set1_epi64x(long long);
__m128i _mm_setr_epi32(int, int, int, int);
__m128i _mm_set_epi8(char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char);
__m128i _mm_setr_epi8(char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char);
__m128i _mm_set_epi64x(long long, long long);
__m128i _mm_setr_epi64x(long long, long long);
__m256i _mm256_loadu_si256(const __m256i *);
void _mm256_storeu_si256(__m256i *, __m256i);
__m256i _mm256_add_epi32(__m256i, __m256i);
__m256i _mm256_add_epi64(__m256i, __m256i);
__m256i _mm256_xor_si256(__m256i, __m256i);
__m256i _mm256_or_si256(__m256i, __m256i);
__m256i _mm256_unpacklo_epi32(__m256i, __m256i);
__m256i _mm256_unpackhi_epi32(__m256i, __m256i);
__m256i _mm256_unpacklo_epi64(__m256i, __m256i);
__m256i _mm256_unpackhi_epi64(__m256i, __m256i);
__m256i _mm256_shuffle_epi8(__m256i, __m256i);
__m256i _mm256_srli_epi32(__m256i, int);
__m256i _mm256_slli_epi32(__m256i, int);
__m256i _mm256_srli_epi64(__m256i, int);
__m256i _mm256_slli_epi64(__m256i, int);
__m256i _mm256_ror_epi32(__m256i, int);
__m256i _mm256_ror_epi64(__m256i, int);
__m256i _mm256_shuffle_epi32(__m256i, int);
__m256i _mm256_permute4x64_epi64(__m256i, int);
__m256i _mm256_slli_si128(__m256i, int);
__m256i _mm256_srli_si128(__m256i, int);
__m256i _mm256_blend_epi16(__m256i, __m256i, int);
__m256i _mm256_blend_epi32(__m256i, __m256i, int);
__m256i _mm256_alignr_epi8(__m256i, __m256i, int);
__m256i _mm256_permute2x128_si256(__m256i, __m256i, int);
__m256i _mm256_shuffle_i32x4(__m256i, __m256i, int);
__m256i _mm256_set1_epi32(int);
__m256i _mm256_set1_epi64x(long long);
__m256i _mm256_setr_epi32(int, int, int, int, int, int, int, int);
__m256i _mm256_set_epi8(char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char);
__m256i _mm256_setr_epi8(char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char, char);
__m256i _mm256_set_epi64x(long long, long long, long long, long long);
__m256i _mm256_setr_epi64x(long long, long long, long long, long long);
__m512i _mm512_loadu_si512(const void *);
void _mm512_storeu_si512(void *, __m512i);
__m512i _mm512_add_epi32(__m512i, __m512i);
__m512i _mm512_add_epi64(__m512i, __m512i);
__m512i _mm512_xor_si512(__m512i, __m512i);
__m512i _mm512_or_si512(__m512i, __m512i);
__m512i _mm512_unpacklo_epi32(__m512i, __m512i);
__m512i _mm512_unpackhi_epi32(__m512i, __m512i);
__m512i _mm512_unpacklo_epi64(__m512i, __m512i);
__m512i _mm512_unpackhi_epi64(__m512i, __m512i);
__m512i _mm512_shuffle_epi8(__m512i, __m512i);
__m512i _mm512_srli_epi32(__m512i, int);
__m512i _mm512_slli_epi32(__m512i, int);
__m512i _mm512_srli_epi64(__m512i, int);
__m512i _mm512_slli_epi64(__m512i, int);
__m512i _mm512_ror_epi32(__m512i, int);
__m512i _mm512_ror_epi64(__m512i, int);
__m512i _mm512_shuffle_epi32(__m512i, int);
__m512i _mm512_permute4x64_epi64(__m512i, int);
__m512i _mm512_slli_si128(__m512i, int);
__m512i _mm512_srli_si128(__m512i, int);
__m512i _mm512_blend_epi16(__m512i, __m512i, int);
__m512i _mm512_blend_epi32(__m512i, __m512i, int);
__m512i _mm512_alignr_epi8(__m512i, __m512i, int);
__m512i _mm512_permute2x128_si256(__m512i, __m512i, int);
__m512i _mm512_shuffle_i32x4(__m512i, __m512i, int);
__m512i _mm512_set1_epi32(int);
__m512i _mm512_set1_epi64(long long);
__m512i _mm512_setr_epi32(int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int);
__m512i _mm512_set_epi64(long long, long long, long long, long long, long long, long long, long long, long long);
__m512i _mm512_setr_epi64(long long, long long, long long, long long, long long, long long, long long, long long);
__m256i _mm256_broadcastsi128_si256(__m128i);
__m256i _mm512_castsi512_si256(__m512i);
__m128i _mm256_castsi256_si128(__m256i);
__m256i _mm512_extracti64x4_epi64(__m512i, int);
__m256i _mm512_cvtepi64_epi32(__m512i);
__m128i _mm256_cvtepi64_epi32(__m256i);
__m512i _mm512_permutex2var_epi32(__m512i, __m512i, __m512i);
typedef struct vx_m128 { int x; } __m128;
__m128 _mm_castsi128_ps(__m128i);
__m128i _mm_castps_si128(__m128);
__m128 _mm_shuffle_ps(__m128, __m128, int);
__m128i _mm256_extracti128_si256(__m256i, int);
long long _mm_popcnt_u64(unsigned long long);
