// Models of the other binary-only dependencies: zlib, hashing, time, and tracking for date conversions.
#include "../engine/sx.h"
#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>
#include <chrono>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <locale>
#include <streambuf>
#include <zlib.h>

// number formatting of streams: the vtable emitted here (instrumented) takes precedence over the one of libstdc++
std::num_put<char> *sxNumPut = new std::num_put<char>;
std::num_get<char> *sxNumGet = new std::num_get<char>;

namespace {
void *real(const char *name) { return dlsym(RTLD_NEXT, name); }
std::uint32_t adler(const std::uint8_t *p, size_t n)
{
    std::uint32_t a = 1, b = 0;
    for (size_t i = 0; i < n; ++i) {
        a += p[i];
        if (a >= 65521) a -= 65521;
        b += a;
        if (b >= 65521) b -= 65521;
    }
    return (b << 16) | a;
}
} // namespace

extern "C" {
// emits one stored block (valid for any zlib); data up to 65535 bytes
uLong compressBound(uLong n) { return n + 11 + 13; }
int compress(Bytef *dest, uLongf *destLen, const Bytef *src, uLong n)
{
    n = sx_concretize(n);
    if (n > 65535 || *destLen < n + 11) return Z_BUF_ERROR;
    const std::uint8_t head[] = { 0x78, 0x01, 0x01, static_cast<std::uint8_t>(n), static_cast<std::uint8_t>(n >> 8), static_cast<std::uint8_t>(~n), static_cast<std::uint8_t>(~n >> 8) };
    memcpy(dest, head, 7);
    memcpy(dest + 7, src, n);
    std::uint32_t a = adler(src, n);
    dest[7 + n] = static_cast<Bytef>(a >> 24), dest[8 + n] = static_cast<Bytef>(a >> 16), dest[9 + n] = static_cast<Bytef>(a >> 8), dest[10 + n] = static_cast<Bytef>(a);
    *destLen = n + 11;
    return Z_OK;
}
// understands one final stored block; other streams are treated as damaged (outside the claim)
int uncompress(Bytef *dest, uLongf *destLen, const Bytef *src, uLong len)
{
    len = sx_concretize(len);
    if (len < 11) return Z_BUF_ERROR;
    if (src[0] != 0x78 || src[1] != 0x01 || src[2] != 1) return Z_DATA_ERROR;
    const std::uint32_t n = src[3] | (src[4] << 8), nn = src[5] | (src[6] << 8);
    if ((n ^ nn) != 0xffff) return Z_DATA_ERROR;
    const uLong c = sx_concretize(n);
    if (c > *destLen) return Z_BUF_ERROR;
    if (c + 11 > len) return Z_BUF_ERROR;
    memcpy(dest, src + 7, c);
    const std::uint32_t a = adler(src + 7, c);
    const std::uint32_t b = (static_cast<std::uint32_t>(src[7 + c]) << 24) | (static_cast<std::uint32_t>(src[8 + c]) << 16) | (static_cast<std::uint32_t>(src[9 + c]) << 8) | src[10 + c];
    if (a != b) return Z_DATA_ERROR;
    *destLen = c;
    return Z_OK;
}
time_t time(time_t *t) noexcept
{
    const time_t v = 1700000000;
    if (t) *t = v;
    return v;
}
}
namespace std {
size_t _Hash_bytes(const void *, size_t, size_t) { return 42; } // every key in one bucket: equality decides
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(std::chrono::nanoseconds(1700000000000000000ll)); }
} // namespace _V2
} // namespace chrono
template <> streamsize __copy_streambufs_eof(basic_streambuf<char> *in, basic_streambuf<char> *out, bool &ineof)
{
    streamsize n = 0;
    ineof = true;
    for (auto c = in->sgetc(); c != char_traits<char>::eof(); c = in->snextc()) {
        if (out->sputc(static_cast<char>(c)) == char_traits<char>::eof()) {
            ineof = false;
            break;
        }
        ++n;
    }
    return n;
}
} // namespace std

namespace CppUtilities {
static void forget(const char *s) { sx_untrack(const_cast<char *>(s), strlen(s) + 1); }
TimeSpan TimeSpan::fromString(const char *str, char separator)
{
    forget(str);
    return reinterpret_cast<TimeSpan (*)(const char *, char)>(real("_ZN12CppUtilities8TimeSpan10fromStringEPKcc"))(str, separator);
}
void TimeSpan::toString(std::string &result, TimeSpanOutputFormat format, bool full) const
{
    sx_untrack(const_cast<TimeSpan *>(this), sizeof *this);
    reinterpret_cast<void (*)(const TimeSpan *, std::string &, TimeSpanOutputFormat, bool)>(
        real("_ZNK12CppUtilities8TimeSpan8toStringERNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_20TimeSpanOutputFormatEb"))(this, result, format, full);
}
DateTime DateTime::fromString(const char *str)
{
    forget(str);
    return reinterpret_cast<DateTime (*)(const char *)>(real("_ZN12CppUtilities8DateTime10fromStringEPKc"))(str);
}
void DateTime::toString(std::string &result, DateTimeOutputFormat format, bool noMilliseconds) const
{
    sx_untrack(const_cast<DateTime *>(this), sizeof *this);
    reinterpret_cast<void (*)(const DateTime *, std::string &, DateTimeOutputFormat, bool)>(
        real("_ZNK12CppUtilities8DateTime8toStringERNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEENS_20DateTimeOutputFormatEb"))(this, result, format, noMilliseconds);
}
std::string DateTime::toIsoString(TimeSpan d) const
{
    sx_untrack(const_cast<DateTime *>(this), sizeof *this);
    return reinterpret_cast<std::string (*)(const DateTime *, TimeSpan)>(real("_ZNK12CppUtilities8DateTime11toIsoStringB5cxx11ENS_8TimeSpanE"))(this, d);
}
DateTimeExpression DateTimeExpression::fromString(const char *str)
{
    forget(str);
    return reinterpret_cast<DateTimeExpression (*)(const char *)>(real("_ZN12CppUtilities18DateTimeExpression10fromStringEPKc"))(str);
}
DateTimeExpression DateTimeExpression::fromIsoString(const char *str)
{
    forget(str);
    return reinterpret_cast<DateTimeExpression (*)(const char *)>(real("_ZN12CppUtilities18DateTimeExpression13fromIsoStringEPKc"))(str);
}
std::string DateTimeExpression::toIsoString(char a, char b, char c) const
{
    sx_untrack(const_cast<DateTimeExpression *>(this), sizeof *this);
    return reinterpret_cast<std::string (*)(const DateTimeExpression *, char, char, char)>(real("_ZNK12CppUtilities18DateTimeExpression11toIsoStringB5cxx11Eccc"))(this, a, b, c);
}
} // namespace CppUtilities
