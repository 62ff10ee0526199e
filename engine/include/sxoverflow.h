// Overflow builtins on operands of different types need integers wider than 64 bits; same meaning within 64 bits.
#pragma once
#ifdef __cplusplus
#include <type_traits>
#include <limits>
namespace sxo {
template <typename A, typename B, typename R> inline bool add(A a, B b, R *r)
{
    if constexpr (sizeof(R) < 8 && sizeof(A) < 8 && sizeof(B) < 8) {
        const long long v = static_cast<long long>(a) + static_cast<long long>(b);
        *r = static_cast<R>(v);
        return static_cast<long long>(*r) != v;
    } else if constexpr (std::is_same_v<A, R> && std::is_unsigned_v<R> && sizeof(R) == 8 && std::is_integral_v<B> && sizeof(B) < 8) {
        const R s = static_cast<R>(a + static_cast<R>(static_cast<long long>(b)));
        *r = s;
        return b < 0 ? s > a : s < a;
    } else
        return __builtin_add_overflow(a, b, r);
}
template <typename A, typename B, typename R> inline bool mul(A a, B b, R *r)
{
    if constexpr (sizeof(R) < 8 && sizeof(A) < 8 && sizeof(B) < 8) {
        const long long v = static_cast<long long>(a) * static_cast<long long>(b);
        *r = static_cast<R>(v);
        return static_cast<long long>(*r) != v;
    } else if constexpr (std::is_same_v<A, R> && std::is_unsigned_v<R> && sizeof(R) == 8 && std::is_integral_v<B>) {
        if (!(b < 0)) {
            const R m = static_cast<R>(b);
            const bool o = m && a > std::numeric_limits<R>::max() / m;
            *r = static_cast<R>(a * m);
            return o;
        }
        return __builtin_mul_overflow(a, b, r);
    } else
        return __builtin_mul_overflow(a, b, r);
}
} // namespace sxo
#define __builtin_add_overflow(a, b, r) sxo::add(a, b, r)
#define __builtin_mul_overflow(a, b, r) sxo::mul(a, b, r)
#endif
