/* Arm C language extensions used by the library, as the Arm documentation
 * defines them (32-bit SIMD on the general registers, saturation) */
#ifndef ARM_ACLE_EMULATED_H
#define ARM_ACLE_EMULATED_H

#include <stdint.h>

typedef int32_t __attribute__((may_alias)) int16x2_t;

static inline int32_t acle_lo(int32_t v) { return (int16_t)(v & 0xffff); }
static inline int32_t acle_hi(int32_t v) { return (int16_t)((uint32_t)v >> 16); }

__attribute__((unused))
static inline int32_t __smlad(int32_t a, int32_t b, int32_t c)
{ return (int32_t)((uint32_t)(acle_lo(a) * acle_lo(b)) + (uint32_t)(acle_hi(a) * acle_hi(b)) + (uint32_t)c); }

__attribute__((unused))
static inline int32_t __smuad(int32_t a, int32_t b)
{ return __smlad(a, b, 0); }

__attribute__((unused))
static inline int64_t __smlald(int32_t a, int32_t b, int64_t c)
{ return (int64_t)((uint64_t)c + (uint64_t)((int64_t)(acle_lo(a) * acle_lo(b)) + (int64_t)(acle_hi(a) * acle_hi(b)))); }

__attribute__((unused))
static inline int64_t __smlaldx(int32_t a, int32_t b, int64_t c)
{ return (int64_t)((uint64_t)c + (uint64_t)((int64_t)(acle_lo(a) * acle_hi(b)) + (int64_t)(acle_hi(a) * acle_lo(b)))); }

/* stands for the assembly of the instruction of this name */
__attribute__((unused))
static inline int32_t acle_pkhbt(int32_t a, int32_t b)
{ return (int32_t)(((uint32_t)a & 0xffffu) | ((uint32_t)b & 0xffff0000u)); }

__attribute__((unused))
static inline int32_t acle_pkhtb(int32_t a, int32_t b)
{ return (int32_t)(((uint32_t)a & 0xffff0000u) | ((uint32_t)b & 0xffffu)); }

#define __ssat(v, n) acle_ssat((v), (n))
__attribute__((unused))
static inline int32_t acle_ssat(int32_t v, unsigned n)
{
    int32_t m = (int32_t)((1u << (n - 1)) - 1);
    return v > m ? m : v < -m - 1 ? -m - 1 : v;
}

#endif
