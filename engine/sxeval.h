// Concrete meaning of every operation; shared by the runtime and the driver.
#pragma once
#include "sxproto.h"
#include <math.h>
#include <string.h>
typedef uint32_t u32;
typedef uint64_t u64;
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx64(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
static inline double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline float asF(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static inline u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline u64 fromF(float f) { u32 v; memcpy(&v, &f, 4); return v; }

// x, y, z: values of the operands; wa, wb: their widths; b: literal second operand (low bit, rounding mode)
static inline u64 evalVals(u32 op, unsigned w, u64 x, unsigned wa, u64 y, unsigned wb, u64 z, u32 b)
{
    u64 m = maskw(w);
    switch (op) {
    case SX_EXTRACT: return (x >> b) & m;
    case SX_ZEXT: return x;
    case SX_SEXT: return (u64)sx64(x, wa) & m;
    case SX_NOT: return ~x & m;
    case SX_ITE: return x ? y : z;
    case SX_FROUND: {
        if (w == 64) {
            double d = asD(x);
            return fromD(b == 0 ? floor(d) : b == 1 ? ceil(d) : b == 2 ? trunc(d) : b == 3 ? round(d) : nearbyint(d));
        }
        float d = asF(x);
        return fromF(b == 0 ? floorf(d) : b == 1 ? ceilf(d) : b == 2 ? truncf(d) : b == 3 ? roundf(d) : nearbyintf(d));
    }
    case SX_FSQRT: return w == 64 ? fromD(sqrt(asD(x))) : fromF(sqrtf(asF(x)));
    case SX_UITOFP: return w == 64 ? fromD((double)x) : fromF((float)x);
    case SX_SITOFP: return w == 64 ? fromD((double)sx64(x, wa)) : fromF((float)sx64(x, wa));
    case SX_FPTOUI: {
        double d = wa == 64 ? asD(x) : asF(x);
        return d > -1.0 && d < 18446744073709551616.0 ? (u64)d & m : 0;
    }
    case SX_FPTOSI: {
        double d = wa == 64 ? asD(x) : asF(x);
        return d > -9223372036854775809.0 && d < 9223372036854775808.0 ? (u64)(int64_t)d & m : (1ull << (w - 1));
    }
    case SX_FPCVT: return w == 64 ? fromD((double)asF(x)) : fromF((float)asD(x));
    default:;
    }
    switch (op) {
    case SX_ADD: return (x + y) & m;
    case SX_SUB: return (x - y) & m;
    case SX_MUL: return (x * y) & m;
    case SX_UDIV: return y ? x / y : m;
    case SX_UREM: return y ? x % y : x;
    case SX_SDIV: {
        int64_t p = sx64(x, w), q = sx64(y, w);
        if (!q) return p < 0 ? 1 : m;
        if (q == -1) return (0 - x) & m;
        return (u64)(p / q) & m;
    }
    case SX_SREM: {
        int64_t p = sx64(x, w), q = sx64(y, w);
        if (!q) return x;
        if (q == -1) return 0;
        return (u64)(p % q) & m;
    }
    case SX_AND: return x & y;
    case SX_OR: return x | y;
    case SX_XOR: return x ^ y;
    case SX_SHL: return y >= w ? 0 : (x << y) & m;
    case SX_LSHR: return y >= w ? 0 : x >> y;
    case SX_ASHR: return (u64)(sx64(x, w) >> (y >= w ? w - 1 : y)) & m;
    case SX_EQ: return x == y;
    case SX_ULT: return x < y;
    case SX_ULE: return x <= y;
    case SX_SLT: return sx64(x, wa) < sx64(y, wa);
    case SX_SLE: return sx64(x, wa) <= sx64(y, wa);
    case SX_CONCAT: return (x << wb) | y;
    case SX_FADD: return w == 64 ? fromD(asD(x) + asD(y)) : fromF(asF(x) + asF(y));
    case SX_FSUB: return w == 64 ? fromD(asD(x) - asD(y)) : fromF(asF(x) - asF(y));
    case SX_FMUL: return w == 64 ? fromD(asD(x) * asD(y)) : fromF(asF(x) * asF(y));
    case SX_FDIV: return w == 64 ? fromD(asD(x) / asD(y)) : fromF(asF(x) / asF(y));
    case SX_FEQ: return wa == 64 ? asD(x) == asD(y) : asF(x) == asF(y);
    case SX_FLT: return wa == 64 ? asD(x) < asD(y) : asF(x) < asF(y);
    case SX_FLE: return wa == 64 ? asD(x) <= asD(y) : asF(x) <= asF(y);
    case SX_FUNO: return wa == 64 ? (asD(x) != asD(x) || asD(y) != asD(y)) : (asF(x) != asF(x) || asF(y) != asF(y));
    default: return 0;
    }
}

