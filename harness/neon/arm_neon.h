/* Advanced SIMD intrinsics, lane by lane, as the Arm documentation defines
 * them. Integer arithmetic wraps, multiply-accumulate is fused. */
#ifndef ARM_NEON_EMULATED_H
#define ARM_NEON_EMULATED_H

#include <stdint.h>
#include <string.h>
#include <math.h>

#define F __attribute__((unused)) static inline

typedef struct { int16_t e[4]; } int16x4_t;
typedef struct { int16_t e[8]; } int16x8_t;
typedef struct { int32_t e[2]; } int32x2_t;
typedef struct { int32_t e[4]; } int32x4_t;
typedef struct { int64_t e[2]; } int64x2_t;
typedef struct { float e[2]; } float32x2_t;
typedef struct { float e[4]; } float32x4_t;
typedef struct { float32x2_t val[2]; } float32x2x2_t;
typedef struct { float32x4_t val[2]; } float32x4x2_t;

F int16x4_t vld1_s16(const int16_t *p)
{ int16x4_t r; memcpy(&r, p, sizeof(r)); return r; }

F void vst1_s16(int16_t *p, int16x4_t v)
{ memcpy(p, &v, sizeof(v)); }

F int16x8_t vld1q_s16(const int16_t *p)
{ int16x8_t r; memcpy(&r, p, sizeof(r)); return r; }

F void vst1q_s16(int16_t *p, int16x8_t v)
{ memcpy(p, &v, sizeof(v)); }

F int32x4_t vld1q_s32(const int32_t *p)
{ int32x4_t r; memcpy(&r, p, sizeof(r)); return r; }

F void vst1q_s32(int32_t *p, int32x4_t v)
{ memcpy(p, &v, sizeof(v)); }

F float32x2_t vld1_f32(const float *p)
{ float32x2_t r; memcpy(&r, p, sizeof(r)); return r; }

F void vst1_f32(float *p, float32x2_t v)
{ memcpy(p, &v, sizeof(v)); }

F float32x4_t vld1q_f32(const float *p)
{ float32x4_t r; memcpy(&r, p, sizeof(r)); return r; }

F void vst1q_f32(float *p, float32x4_t v)
{ memcpy(p, &v, sizeof(v)); }

F float32x2x2_t vld2_f32(const float *p)
{ float32x2x2_t r; for (int i = 0; i < 2; i++) r.val[0].e[i] = p[2*i], r.val[1].e[i] = p[2*i+1]; return r; }

F float32x2_t vld1_dup_f32(const float *p)
{ return (float32x2_t){ { *p, *p } }; }

F float32x2_t vneg_f32(float32x2_t a)
{ return (float32x2_t){ { -a.e[0], -a.e[1] } }; }

F float32x2_t vadd_f32(float32x2_t a, float32x2_t b)
{ return (float32x2_t){ { a.e[0] + b.e[0], a.e[1] + b.e[1] } }; }

F float32x2_t vsub_f32(float32x2_t a, float32x2_t b)
{ return (float32x2_t){ { a.e[0] - b.e[0], a.e[1] - b.e[1] } }; }

F float32x2_t vmul_f32(float32x2_t a, float32x2_t b)
{ return (float32x2_t){ { a.e[0] * b.e[0], a.e[1] * b.e[1] } }; }

F float32x2_t vfma_f32(float32x2_t a, float32x2_t b, float32x2_t c)
{ return (float32x2_t){ { fmaf(b.e[0], c.e[0], a.e[0]), fmaf(b.e[1], c.e[1], a.e[1]) } }; }

F float32x2_t vfms_f32(float32x2_t a, float32x2_t b, float32x2_t c)
{ return (float32x2_t){ { fmaf(-b.e[0], c.e[0], a.e[0]), fmaf(-b.e[1], c.e[1], a.e[1]) } }; }

F float32x2_t vmov_n_f32(float v)
{ return (float32x2_t){ { v, v } }; }

F float32x2_t vdup_n_f32(float v)
{ return (float32x2_t){ { v, v } }; }

F float32x2_t vrev64_f32(float32x2_t v)
{ return (float32x2_t){ { v.e[1], v.e[0] } }; }

F float32x2_t vtrn1_f32(float32x2_t a, float32x2_t b)
{ return (float32x2_t){ { a.e[0], b.e[0] } }; }

F float32x2_t vtrn2_f32(float32x2_t a, float32x2_t b)
{ return (float32x2_t){ { a.e[1], b.e[1] } }; }

F float32x2_t vzip1_f32(float32x2_t a, float32x2_t b)
{ return (float32x2_t){ { a.e[0], b.e[0] } }; }

F float32x2_t vzip2_f32(float32x2_t a, float32x2_t b)
{ return (float32x2_t){ { a.e[1], b.e[1] } }; }

F float32x2_t vuzp1_f32(float32x2_t a, float32x2_t b)
{ return (float32x2_t){ { a.e[0], b.e[0] } }; }

F float32x2_t vuzp2_f32(float32x2_t a, float32x2_t b)
{ return (float32x2_t){ { a.e[1], b.e[1] } }; }

F float32x4x2_t vld2q_f32(const float *p)
{ float32x4x2_t r; for (int i = 0; i < 4; i++) r.val[0].e[i] = p[2*i], r.val[1].e[i] = p[2*i+1]; return r; }

F float32x4_t vld1q_dup_f32(const float *p)
{ return (float32x4_t){ { *p, *p, *p, *p } }; }

F float32x4_t vnegq_f32(float32x4_t a)
{ return (float32x4_t){ { -a.e[0], -a.e[1], -a.e[2], -a.e[3] } }; }

F float32x4_t vaddq_f32(float32x4_t a, float32x4_t b)
{ return (float32x4_t){ { a.e[0] + b.e[0], a.e[1] + b.e[1], a.e[2] + b.e[2], a.e[3] + b.e[3] } }; }

F float32x4_t vsubq_f32(float32x4_t a, float32x4_t b)
{ return (float32x4_t){ { a.e[0] - b.e[0], a.e[1] - b.e[1], a.e[2] - b.e[2], a.e[3] - b.e[3] } }; }

F float32x4_t vmulq_f32(float32x4_t a, float32x4_t b)
{ return (float32x4_t){ { a.e[0] * b.e[0], a.e[1] * b.e[1], a.e[2] * b.e[2], a.e[3] * b.e[3] } }; }

F float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c)
{ return (float32x4_t){ { fmaf(b.e[0], c.e[0], a.e[0]), fmaf(b.e[1], c.e[1], a.e[1]), fmaf(b.e[2], c.e[2], a.e[2]), fmaf(b.e[3], c.e[3], a.e[3]) } }; }

F float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c)
{ return (float32x4_t){ { fmaf(-b.e[0], c.e[0], a.e[0]), fmaf(-b.e[1], c.e[1], a.e[1]), fmaf(-b.e[2], c.e[2], a.e[2]), fmaf(-b.e[3], c.e[3], a.e[3]) } }; }

F float32x4_t vmovq_n_f32(float v)
{ return (float32x4_t){ { v, v, v, v } }; }

F float32x4_t vdupq_n_f32(float v)
{ return (float32x4_t){ { v, v, v, v } }; }

F float32x4_t vrev64q_f32(float32x4_t v)
{ return (float32x4_t){ { v.e[1], v.e[0], v.e[3], v.e[2] } }; }

F float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b)
{ return (float32x4_t){ { a.e[0], b.e[0], a.e[2], b.e[2] } }; }

F float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b)
{ return (float32x4_t){ { a.e[1], b.e[1], a.e[3], b.e[3] } }; }

F float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b)
{ return (float32x4_t){ { a.e[0], b.e[0], a.e[1], b.e[1] } }; }

F float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b)
{ return (float32x4_t){ { a.e[2], b.e[2], a.e[3], b.e[3] } }; }

F float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b)
{ return (float32x4_t){ { a.e[0], a.e[2], b.e[0], b.e[2] } }; }

F float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b)
{ return (float32x4_t){ { a.e[1], a.e[3], b.e[1], b.e[3] } }; }

F float32x2_t vcreate_f32(uint64_t u)
{ float32x2_t r; memcpy(&r, &u, sizeof(r)); return r; }

F float32x4_t vcombine_f32(float32x2_t a, float32x2_t b)
{ return (float32x4_t){ { a.e[0], a.e[1], b.e[0], b.e[1] } }; }

F float32x2_t vget_low_f32(float32x4_t a)
{ return (float32x2_t){ { a.e[0], a.e[1] } }; }

F float32x2_t vget_high_f32(float32x4_t a)
{ return (float32x2_t){ { a.e[2], a.e[3] } }; }

F int32x4_t vmull_s16(int16x4_t a, int16x4_t b)
{ return (int32x4_t){ { (int32_t)a.e[0] * b.e[0], (int32_t)a.e[1] * b.e[1], (int32_t)a.e[2] * b.e[2], (int32_t)a.e[3] * b.e[3] } }; }

F int32x4_t vmlal_s16(int32x4_t r, int16x4_t a, int16x4_t b)
{ return (int32x4_t){ { (int32_t)((uint32_t)r.e[0] + (uint32_t)((int32_t)a.e[0] * b.e[0])), (int32_t)((uint32_t)r.e[1] + (uint32_t)((int32_t)a.e[1] * b.e[1])), (int32_t)((uint32_t)r.e[2] + (uint32_t)((int32_t)a.e[2] * b.e[2])), (int32_t)((uint32_t)r.e[3] + (uint32_t)((int32_t)a.e[3] * b.e[3])) } }; }

F int32x4_t vaddq_s32(int32x4_t a, int32x4_t b)
{ return (int32x4_t){ { (int32_t)((uint32_t)a.e[0] + (uint32_t)b.e[0]), (int32_t)((uint32_t)a.e[1] + (uint32_t)b.e[1]), (int32_t)((uint32_t)a.e[2] + (uint32_t)b.e[2]), (int32_t)((uint32_t)a.e[3] + (uint32_t)b.e[3]) } }; }

F int64x2_t vaddq_s64(int64x2_t a, int64x2_t b)
{ return (int64x2_t){ { (int64_t)((uint64_t)a.e[0] + (uint64_t)b.e[0]), (int64_t)((uint64_t)a.e[1] + (uint64_t)b.e[1]) } }; }

F int64x2_t vpaddlq_s32(int32x4_t b)
{ return (int64x2_t){ { (int64_t)b.e[0] + b.e[1], (int64_t)b.e[2] + b.e[3] } }; }

F int64x2_t vpadalq_s32(int64x2_t a, int32x4_t b)
{ return (int64x2_t){ { (int64_t)((uint64_t)a.e[0] + (uint64_t)((int64_t)b.e[0] + b.e[1])), (int64_t)((uint64_t)a.e[1] + (uint64_t)((int64_t)b.e[2] + b.e[3])) } }; }

F int32_t vaddvq_s32(int32x4_t v)
{ return (int32_t)((uint32_t)v.e[0] + (uint32_t)v.e[1] + (uint32_t)v.e[2] + (uint32_t)v.e[3]); }

F int64_t vaddvq_s64(int64x2_t v)
{ return (int64_t)((uint64_t)v.e[0] + (uint64_t)v.e[1]); }

F int64_t vaddlvq_s32(int32x4_t v)
{ return (int64_t)v.e[0] + v.e[1] + v.e[2] + v.e[3]; }

F int16x4_t vmov_n_s16(int16_t v)
{ return (int16x4_t){ { v, v, v, v } }; }

F int32x4_t vmovq_n_s32(int32_t v)
{ return (int32x4_t){ { v, v, v, v } }; }

F int32x4_t vdupq_n_s32(int32_t v)
{ return (int32x4_t){ { v, v, v, v } }; }

F int64x2_t vmovq_n_s64(int64_t v)
{ return (int64x2_t){ { v, v } }; }

F int64x2_t vdupq_n_s64(int64_t v)
{ return (int64x2_t){ { v, v } }; }

F int16x4_t vext_s16(int16x4_t a, int16x4_t b, int n)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = i + n < 4 ? a.e[i + n] : b.e[i + n - 4]; return r; }

#undef F

#endif
