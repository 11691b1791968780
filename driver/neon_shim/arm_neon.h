/* The NEON intrinsics the NEON back end uses, written out lane by lane, so
 * that its sources run on other processors. */
#pragma once
#include <stdint.h>
#include <string.h>
typedef uint8_t  __Uint8x8_t  __attribute__((vector_size(8), may_alias));
typedef uint8_t  __Uint8x16_t __attribute__((vector_size(16), may_alias));
typedef int8_t   __Int8x16_t  __attribute__((vector_size(16), may_alias));
typedef uint16_t __Uint16x4_t __attribute__((vector_size(8), may_alias));
typedef uint16_t __Uint16x8_t __attribute__((vector_size(16), may_alias));
typedef uint32_t __Uint32x2_t __attribute__((vector_size(8), may_alias));
typedef uint32_t __Uint32x4_t __attribute__((vector_size(16), may_alias));
typedef uint64_t __Uint64x1_t __attribute__((vector_size(8), may_alias));
typedef uint64_t __Uint64x2_t __attribute__((vector_size(16), may_alias));
typedef __Uint8x8_t uint8x8_t; typedef __Uint8x16_t uint8x16_t; typedef __Int8x16_t int8x16_t;
typedef __Uint16x8_t uint16x8_t; typedef __Uint32x4_t uint32x4_t; typedef __Uint64x2_t uint64x2_t;
#define NEON_FN static inline __attribute__((always_inline, unused))
NEON_FN uint8x16_t vld1q_u8(const uint8_t *p) { uint8x16_t r; memcpy(&r, p, 16); return r; }
NEON_FN void vst1q_u8(uint8_t *p, uint8x16_t v) { memcpy(p, &v, 16); }
#define NEON_BIN(name, ty, op) NEON_FN ty name(ty a, ty b) { return a op b; }
NEON_BIN(vaddq_u8, uint8x16_t, +)  NEON_BIN(vsubq_u8, uint8x16_t, -)
NEON_BIN(vaddq_u16, uint16x8_t, +) NEON_BIN(vsubq_u16, uint16x8_t, -)
NEON_BIN(vaddq_u32, uint32x4_t, +) NEON_BIN(vsubq_u32, uint32x4_t, -)
NEON_BIN(vaddq_u64, uint64x2_t, +) NEON_BIN(vsubq_u64, uint64x2_t, -)
NEON_BIN(vmulq_u8, uint8x16_t, *)  NEON_BIN(vmulq_u16, uint16x8_t, *)
NEON_BIN(vandq_u8, uint8x16_t, &)  NEON_BIN(vandq_u16, uint16x8_t, &)
NEON_BIN(vorrq_u8, uint8x16_t, |)  NEON_BIN(vorrq_u16, uint16x8_t, |)
NEON_BIN(veorq_u8, uint8x16_t, ^)  NEON_BIN(veorq_u16, uint16x8_t, ^)
#define vshrq_n_u16(a, n) ((uint16x8_t)((uint16x8_t)(a) >> (n)))
#define vshlq_n_u16(a, n) ((uint16x8_t)((uint16x8_t)(a) << (n)))
#define vshrq_n_u8(a, n)  ((uint8x16_t)((uint8x16_t)(a) >> (n)))
#define vshlq_n_u8(a, n)  ((uint8x16_t)((uint8x16_t)(a) << (n)))
NEON_FN uint8x16_t vdupq_n_u8(uint8_t x) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = x; return r; }
NEON_FN uint16x8_t vdupq_n_u16(uint16_t x) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = x; return r; }
NEON_FN uint8x16_t vzip1q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[i]; r[2*i+1] = b[i]; } return r; }
NEON_FN uint8x16_t vzip2q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 8; i++) { r[2*i] = a[8+i]; r[2*i+1] = b[8+i]; } return r; }
NEON_FN uint8x8_t vget_low_u8(uint8x16_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
NEON_FN uint8x8_t vget_high_u8(uint8x16_t a) { uint8x8_t r; for (int i = 0; i < 8; i++) r[i] = a[8+i]; return r; }
NEON_FN uint16x8_t vmovl_u8(uint8x8_t a) { uint16x8_t r; for (int i = 0; i < 8; i++) r[i] = a[i]; return r; }
NEON_FN uint8x16_t vqtbl1q_u8(uint8x16_t a, uint8x16_t b) { uint8x16_t r; for (int i = 0; i < 16; i++) r[i] = b[i] < 16 ? a[b[i]] : 0; return r; }
NEON_FN int8x16_t vqtbl1q_s8(int8x16_t a, uint8x16_t b) { int8x16_t r; for (int i = 0; i < 16; i++) r[i] = b[i] < 16 ? a[b[i]] : 0; return r; }
