// Harness API. The same harness runs under the symbolic engine and natively (replay of a counterexample).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
#include <string>
#include <string_view>
#include <vector>
extern "C" {
#endif
void sx_sym(void *p, size_t n, const char *name); // makes n bytes symbolic
void sx_assume_(int cond);
void sx_assert_(int cond, const char *msg);
void sx_assert_eqmem(const void *a, const void *b, size_t n, const char *msg);
uint64_t sx_concretize(uint64_t v); // explores every value
void sx_reach(const char *label); // reachability witness
void sx_pause(void); // drops symbolic data in the dynamic extent
void sx_resume(void);
int sx_native(void); // 1 in replay
int sx_is_symbolic(const void *p, size_t n);
void sx_note(const char *fmt, ...); // printed in replay
void sx_alloc_limit(uint64_t bytes); // single allocation larger than this ends the path with status RESOURCE
void sx_untrack(void *p, size_t n); // forget symbolic content (sampling, recorded as lost)
#ifdef __cplusplus
}
inline void sx_assume(bool c) { sx_assume_(c); }
#define sx_assert(c, msg) sx_assert_(!!(c), msg)
template <typename T> inline T sx_val(const char *name)
{
    T v{};
    sx_sym(&v, sizeof(T), name);
    return v;
}
// value in [lo, hi]
template <typename T> inline T sx_range(T lo, T hi, const char *name)
{
    T v = sx_val<T>(name);
    sx_assume_((v >= lo) & (v <= hi));
    return v;
}
// concrete choice in [0, n): every value is explored
inline unsigned sx_choice(unsigned n, const char *name)
{
    uint8_t v = sx_val<uint8_t>(name);
    sx_assume_(v < n);
    return static_cast<unsigned>(sx_concretize(v));
}
inline bool sx_flag(const char *name) { return sx_choice(2, name) != 0; }
inline std::string sx_string(size_t n, const char *name)
{
    std::string s(n, '\0');
    if (n) sx_sym(s.data(), n, name);
    return s;
}
inline void sx_assert_eq(std::string_view a, std::string_view b, const char *msg)
{
    sx_assert(a.size() == b.size(), msg);
    if (a.size() == b.size()) sx_assert_eqmem(a.data(), b.data(), a.size(), msg);
}
struct SxHarnessEntry {
    const char *name;
    void (*fn)();
    SxHarnessEntry *next;
    SxHarnessEntry(const char *n, void (*f)());
    static SxHarnessEntry *&list();
};
#define SX_HARNESS(n)                                                                                                                               \
    static void sxh_##n();                                                                                                                           \
    static SxHarnessEntry sxe_##n(#n, &sxh_##n);                                                                                                      \
    static void sxh_##n()
#endif
