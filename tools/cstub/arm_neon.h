// prototypes of the NEON intrinsics, for parsing only (cx.py)
#pragma once
#include <stdint.h>
typedef struct vx_u32x4 { int x; } uint32x4_t;
typedef struct vx_u32x2 { int x; } uint32x2_t;
typedef struct vx_u64x2 { int x; } uint64x2_t;
typedef struct vx_u64x1 { int x; } uint64x1_t;
typedef struct vx_u8x16 { int x; } uint8x16_t;
typedef struct vx_u16x8 { int x; } uint16x8_t;
typedef struct uint32x4x2_t { uint32x4_t val[2]; } uint32x4x2_t;
uint32x4_t vld1q_u32(const uint32_t *);
uint32x4_t vld1q_dup_u32(const uint32_t *);
uint32x4_t vdupq_n_u32(uint32_t);
uint32x4_t vaddq_u32(uint32x4_t, uint32x4_t);
uint32x4_t veorq_u32(uint32x4_t, uint32x4_t);
uint32x4_t vorrq_u32(uint32x4_t, uint32x4_t);
uint32x4_t vshrq_n_u32(uint32x4_t, int);
uint32x4_t vshlq_n_u32(uint32x4_t, int);
uint32x4_t vsriq_n_u32(uint32x4_t, uint32x4_t, int);
uint32x4_t vsliq_n_u32(uint32x4_t, uint32x4_t, int);
uint32x4x2_t vtrnq_u32(uint32x4_t, uint32x4_t);
uint32x4x2_t vzipq_u32(uint32x4_t, uint32x4_t);
uint32x2_t vget_low_u32(uint32x4_t);
uint32x2_t vget_high_u32(uint32x4_t);
uint32x4_t vcombine_u32(uint32x2_t, uint32x2_t);
uint64x2_t vld1q_u64(const uint64_t *);
uint64x2_t vld1q_dup_u64(const uint64_t *);
uint64x2_t vdupq_n_u64(uint64_t);
uint64x2_t vaddq_u64(uint64x2_t, uint64x2_t);
uint64x2_t veorq_u64(uint64x2_t, uint64x2_t);
uint64x2_t vorrq_u64(uint64x2_t, uint64x2_t);
uint64x2_t vshrq_n_u64(uint64x2_t, int);
uint64x2_t vshlq_n_u64(uint64x2_t, int);
uint64x1_t vget_low_u64(uint64x2_t);
uint64x1_t vget_high_u64(uint64x2_t);
uint64x2_t vcombine_u64(uint64x1_t, uint64x1_t);
