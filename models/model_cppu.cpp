// Re-implementation of the compiled part of c++utilities (a binary-only dependency here) in a form the engine can encode.
// Compared against the real library by models/difftest.cpp. Replays of counterexamples use the real library instead.
#include "../engine/sx.h"
#include <c++utilities/chrono/datetime.h>
#include <c++utilities/chrono/timespan.h>
#include <c++utilities/conversion/conversionexception.h>
#include <c++utilities/conversion/stringconversion.h>
#include <c++utilities/io/binaryreader.h>
#include <c++utilities/io/binarywriter.h>
#include <c++utilities/io/bitreader.h>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>

using namespace std;
namespace CppUtilities {

#ifdef SIDE_MODEL
ConversionException::~ConversionException() { }
#endif

// ------------------------------------------------------------------ DateTime
// (the parts are enumerated by the solver as soon as they are known to be valid)
DateTime::TickType DateTime::dateToTicks(int year, int month, int day)
{
    static constexpr int CUM[13] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365 };
    if (year < 1 || year > 9999) throw ConversionException("year is out of range");
    if (month < 1 || month > 12) throw ConversionException("month is out of range");
    const int y = static_cast<int>(sx_concretize(static_cast<std::uint64_t>(year))), m = static_cast<int>(sx_concretize(static_cast<std::uint64_t>(month)));
    const bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    if (day < 1 || day > CUM[m] - CUM[m - 1] + (leap && m == 2 ? 1 : 0)) throw ConversionException("day is out of range");
    const int d = static_cast<int>(sx_concretize(static_cast<std::uint64_t>(day)));
    const auto py = static_cast<unsigned>(y - 1);
    return (py * 365u + py / 4 - py / 100 + py / 400 + static_cast<unsigned>(CUM[m - 1] + (leap && m > 2 ? 1 : 0)) + static_cast<unsigned>(d - 1)) * static_cast<std::uint64_t>(TimeSpan::ticksPerDay);
}
DateTime::TickType DateTime::timeToTicks(int hour, int minute, int second, double millisecond)
{
    if (hour < 0 || hour > 23) throw ConversionException("hour is out of range");
    if (minute < 0 || minute > 59) throw ConversionException("minute is out of range");
    if (second < 0 || second > 59) throw ConversionException("second is out of range");
    if (!(millisecond >= 0.0 && millisecond <= 999.9999)) throw ConversionException("millisecond is out of range");
    const auto h = sx_concretize(static_cast<std::uint64_t>(hour)), m = sx_concretize(static_cast<std::uint64_t>(minute)), s = sx_concretize(static_cast<std::uint64_t>(second));
    return h * static_cast<std::uint64_t>(TimeSpan::ticksPerHour) + m * static_cast<std::uint64_t>(TimeSpan::ticksPerMinute) + s * static_cast<std::uint64_t>(TimeSpan::ticksPerSecond)
        + static_cast<std::uint64_t>(millisecond * static_cast<double>(TimeSpan::ticksPerMillisecond));
}

// ------------------------------------------------------------------ BinaryReader / BinaryWriter / BitReader
void BinaryReader::setStream(std::istream *stream, bool giveOwnership)
{
    if (m_ownership) delete m_stream;
    if (stream) {
        m_stream = stream;
        m_ownership = giveOwnership;
    } else {
        m_stream = nullptr;
        m_ownership = false;
    }
}
void BinaryWriter::setStream(std::ostream *stream, bool giveOwnership)
{
    if (m_ownership) delete m_stream;
    if (stream) {
        m_stream = stream;
        m_ownership = giveOwnership;
    } else {
        m_stream = nullptr;
        m_ownership = false;
    }
}
void BinaryReader::bufferVariableLengthInteger()
{
    static constexpr int maxPrefixLength = 8;
    int prefixLength = 1;
    const auto beg = static_cast<std::uint8_t>(m_stream->peek());
    std::uint8_t mask = 0x80;
    while (prefixLength <= maxPrefixLength && (beg & mask) == 0) {
        ++prefixLength;
        mask >>= 1;
    }
    if (prefixLength > maxPrefixLength) throw ConversionException("length denotation of variable length unsigned integer exceeds maximum");
    memset(m_buffer, 0, maxPrefixLength);
    m_stream->read(m_buffer + (maxPrefixLength - prefixLength), prefixLength);
    m_buffer[maxPrefixLength - prefixLength] ^= static_cast<char>(mask);
}
void BinaryWriter::writeVariableLengthInteger(std::uint64_t value, void (*writer)(std::uint64_t, char *))
{
    std::uint64_t boundCheck = 0x80;
    std::uint8_t prefixLength = 1;
    for (; boundCheck != 0x8000000000000000; boundCheck <<= 7, ++prefixLength) {
        if (value < boundCheck) {
            value = value | boundCheck;
            break;
        }
    }
    if (prefixLength == 9) throw ConversionException("The variable-length integer to be written exceeds the maximum.");
    writer(value, m_buffer);
    m_stream->write(m_buffer + 8 - prefixLength, prefixLength);
}
string BinaryReader::readString(size_t length)
{
    string res;
    res.resize(length);
    m_stream->read(res.data(), static_cast<streamsize>(length));
    return res;
}
string BinaryReader::readTerminatedString(size_t maxBytesToRead, std::uint8_t termination)
{
    string res;
    res.reserve(maxBytesToRead);
    while (res.size() < maxBytesToRead) {
        const auto c = m_stream->get();
        if (static_cast<std::uint8_t>(c) == termination) break;
        res += static_cast<char>(c);
    }
    return res;
}
namespace {
constexpr std::uint32_t crcEntry(std::uint32_t i)
{
    std::uint32_t r = i << 24;
    for (int k = 0; k < 8; ++k) r = (r & 0x80000000u) ? (r << 1) ^ 0x04c11db7u : r << 1;
    return r;
}
} // namespace
#define E1(i) crcEntry(i)
#define E4(i) E1(i), E1(i + 1), E1(i + 2), E1(i + 3)
#define E16(i) E4(i), E4(i + 4), E4(i + 8), E4(i + 12)
#define E64(i) E16(i), E16(i + 16), E16(i + 32), E16(i + 48)
const std::uint32_t BinaryReader::crc32Table[] = { E64(0), E64(64), E64(128), E64(192) };
std::uint32_t BinaryReader::readCrc32(size_t length)
{
    std::uint32_t crc = 0;
    for (size_t i = 0; i < length; ++i) crc = (crc << 8) ^ crc32Table[((crc >> 24) & 0xff) ^ static_cast<std::uint8_t>(readChar())];
    return crc;
}
void BitReader::skipBits(std::size_t bitCount)
{
    if (bitCount <= m_bitsAvail) {
        m_bitsAvail = static_cast<std::uint8_t>(m_bitsAvail - bitCount);
        return;
    }
    bitCount -= m_bitsAvail;
    if ((m_buffer += 1 + bitCount / 8) >= m_end) throw ios_base::failure("end of buffer exceeded");
    m_bitsAvail = static_cast<std::uint8_t>(8 - (bitCount % 8));
}

// ------------------------------------------------------------------ character set conversion (iconv semantics)
namespace {
struct Out {
    std::string s;
    void utf8(std::uint32_t c)
    {
        if (c < 0x80)
            s += static_cast<char>(c);
        else if (c < 0x800) {
            s += static_cast<char>(0xC0 | (c >> 6));
            s += static_cast<char>(0x80 | (c & 0x3F));
        } else if (c < 0x10000) {
            s += static_cast<char>(0xE0 | (c >> 12));
            s += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            s += static_cast<char>(0x80 | (c & 0x3F));
        } else {
            s += static_cast<char>(0xF0 | (c >> 18));
            s += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
            s += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            s += static_cast<char>(0x80 | (c & 0x3F));
        }
    }
    void unit16(std::uint32_t c, bool be)
    {
        s += static_cast<char>(be ? c >> 8 : c & 0xff);
        s += static_cast<char>(be ? c & 0xff : c >> 8);
    }
    void utf16(std::uint32_t c, bool be)
    {
        if (c < 0x10000)
            unit16(c, be);
        else {
            unit16(0xD7C0 + (c >> 10), be);
            unit16(0xDC00 + (c & 0x3FF), be);
        }
    }
    StringData take()
    {
        StringData d;
        auto *p = static_cast<char *>(malloc(s.size() ? s.size() : 1));
        memcpy(p, s.data(), s.size());
        d.first.reset(p);
        d.second = s.size();
        return d;
    }
};
[[noreturn]] void bad() { throw ConversionException("Invalid multibyte sequence in the input."); }
// decodes one character; returns false if the input ends within a sequence
bool nextUtf8(const unsigned char *&p, const unsigned char *end, std::uint32_t &c)
{
    unsigned char b = *p;
    if (b < 0x80) {
        c = b;
        ++p;
        return true;
    }
    unsigned n;
    if (b >= 0xC2 && b < 0xE0)
        n = 2, c = b & 0x1F;
    else if ((b & 0xF0) == 0xE0)
        n = 3, c = b & 0x0F;
    else if ((b & 0xF8) == 0xF0)
        n = 4, c = b & 0x07;
    else if ((b & 0xFC) == 0xF8)
        n = 5, c = b & 0x03;
    else if ((b & 0xFE) == 0xFC)
        n = 6, c = b & 0x01;
    else
        bad();
    if (static_cast<size_t>(end - p) < n) {
        // incomplete, or invalid if the bytes present are not continuation bytes
        for (const unsigned char *q = p + 1; q < end; ++q)
            if ((*q & 0xC0) != 0x80) bad();
        return false;
    }
    for (unsigned i = 1; i < n; ++i) {
        if ((p[i] & 0xC0) != 0x80) bad();
        c = (c << 6) | (p[i] & 0x3F);
    }
    if ((n == 3 && c < 0x800) || (n == 4 && (c < 0x10000 || c > 0x10FFFF)) || n > 4) bad();
    p += n;
    return true;
}
std::uint32_t get16(const unsigned char *p, bool be)
{
    return be ? (static_cast<std::uint32_t>(p[0]) << 8) | p[1] : (static_cast<std::uint32_t>(p[1]) << 8) | p[0];
}
StringData utf8ToUtf16(const char *in, size_t n, bool be)
{
    Out o;
    o.s.reserve(n * 2 + 8);
    auto *p = reinterpret_cast<const unsigned char *>(in), *end = p + n;
    while (p < end) {
        std::uint32_t c;
        if (!nextUtf8(p, end, c)) break;
        if (c >= 0xD800 && c < 0xE000) bad();
        o.utf16(c, be);
    }
    return o.take();
}
StringData utf16ToUtf8(const char *in, size_t n, bool be)
{
    Out o;
    o.s.reserve(n * 2 + 8);
    auto *p = reinterpret_cast<const unsigned char *>(in), *end = p + n;
    while (end - p >= 2) {
        std::uint32_t c = get16(p, be);
        if (c < 0xD800 || c >= 0xE000) {
            o.utf8(c);
            p += 2;
            continue;
        }
        if (c >= 0xDC00) bad();
        if (end - p < 4) break;
        std::uint32_t d = get16(p + 2, be);
        if (d < 0xDC00 || d >= 0xE000) bad();
        o.utf8(0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00));
        p += 4;
    }
    return o.take();
}
} // namespace

StringData convertUtf8ToUtf16LE(const char *in, std::size_t n) { return utf8ToUtf16(in, n, false); }
StringData convertUtf8ToUtf16BE(const char *in, std::size_t n) { return utf8ToUtf16(in, n, true); }
StringData convertUtf16LEToUtf8(const char *in, std::size_t n) { return utf16ToUtf8(in, n, false); }
StringData convertUtf16BEToUtf8(const char *in, std::size_t n) { return utf16ToUtf8(in, n, true); }
StringData convertLatin1ToUtf8(const char *in, std::size_t n)
{
    Out o;
    o.s.reserve(n * 2 + 8);
    for (size_t i = 0; i < n; ++i) o.utf8(static_cast<unsigned char>(in[i]));
    return o.take();
}
StringData convertUtf8ToLatin1(const char *in, std::size_t n)
{
    Out o;
    o.s.reserve(n + 8);
    auto *p = reinterpret_cast<const unsigned char *>(in), *end = p + n;
    while (p < end) {
        std::uint32_t c;
        if (!nextUtf8(p, end, c)) break;
        if (c > 0xFF) bad();
        o.s += static_cast<char>(c);
    }
    return o.take();
}

StringData convertString(const char *from, const char *to, const char *in, std::size_t n, float)
{
    // 0 latin1, 1 utf8, 2 utf16le, 3 utf16be
    auto id = [](const char *c) {
        if (!strcmp(c, "ISO-8859-1")) return 0;
        if (!strcmp(c, "UTF-8")) return 1;
        if (!strcmp(c, "UTF-16LE")) return 2;
        if (!strcmp(c, "UTF-16BE")) return 3;
        abort();
    };
    const int f = id(from), t = id(to);
    Out o;
    o.s.reserve(n * 2 + 8);
    auto *p = reinterpret_cast<const unsigned char *>(in), *end = p + n;
    while (p < end) {
        std::uint32_t c;
        if (f == 0)
            c = *p++;
        else if (f == 1) {
            if (!nextUtf8(p, end, c)) break;
        } else {
            if (end - p < 2) break;
            c = get16(p, f == 3);
            if (c < 0xD800 || c >= 0xE000)
                p += 2;
            else {
                if (c >= 0xDC00) bad();
                if (end - p < 4) break;
                std::uint32_t d = get16(p + 2, f == 3);
                if (d < 0xDC00 || d >= 0xE000) bad();
                c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00);
                p += 4;
            }
        }
        if (t == 0) {
            if (c > 0xFF) bad();
            o.s += static_cast<char>(c);
        } else {
            if (f == 1 && c >= 0xD800 && c < 0xE000) bad();
            t == 1 ? o.utf8(c) : o.utf16(c, t == 3);
        }
    }
    return o.take();
}

// ------------------------------------------------------------------ base64
string encodeBase64(const std::uint8_t *data, std::uint32_t dataSize)
{
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    string r;
    r.reserve((static_cast<size_t>(dataSize) + 2) / 3 * 4);
    std::uint32_t i = 0;
    for (; dataSize - i >= 3; i += 3) {
        std::uint32_t t = (static_cast<std::uint32_t>(data[i]) << 16) | (static_cast<std::uint32_t>(data[i + 1]) << 8) | data[i + 2];
        r += al[t >> 18];
        r += al[(t >> 12) & 63];
        r += al[(t >> 6) & 63];
        r += al[t & 63];
    }
    if (dataSize - i == 1) {
        std::uint32_t t = static_cast<std::uint32_t>(data[i]) << 16;
        r += al[t >> 18];
        r += al[(t >> 12) & 63];
        r += "==";
    } else if (dataSize - i == 2) {
        std::uint32_t t = (static_cast<std::uint32_t>(data[i]) << 16) | (static_cast<std::uint32_t>(data[i + 1]) << 8);
        r += al[t >> 18];
        r += al[(t >> 12) & 63];
        r += al[(t >> 6) & 63];
        r += '=';
    }
    return r;
}
namespace {
struct B64 {
    std::uint8_t v[256];
    constexpr B64()
        : v()
    {
        for (int i = 0; i < 256; ++i) v[i] = 0xff;
        for (int i = 0; i < 26; ++i) v['A' + i] = static_cast<std::uint8_t>(i), v['a' + i] = static_cast<std::uint8_t>(26 + i);
        for (int i = 0; i < 10; ++i) v['0' + i] = static_cast<std::uint8_t>(52 + i);
        v['+'] = 62;
        v['/'] = 63;
        v['='] = 0xfe;
    }
};
const B64 b64;
} // namespace
std::pair<std::unique_ptr<std::uint8_t[]>, std::uint32_t> decodeBase64(const char *s, const std::uint32_t strSize)
{
    if (!strSize) return std::make_pair(std::make_unique<std::uint8_t[]>(0), 0);
    if (strSize % 4) throw ConversionException("invalid size of base64");
    std::uint32_t decodedSize = (strSize / 4) * 3;
    const char *const end = s + strSize;
    if (*(end - 1) == '=') --decodedSize;
    if (*(end - 2) == '=') --decodedSize;
    auto buffer = std::make_unique<std::uint8_t[]>(decodedSize);
    std::uint32_t o = 0;
    while (s < end) {
        std::uint32_t t = 0;
        for (int q = 0; q < 4; ++q, ++s) {
            t <<= 6;
            std::uint8_t v = b64.v[static_cast<unsigned char>(*s)];
            if (v < 64)
                t |= v;
            else if (v == 0xfe) {
                switch (end - s) {
                case 1:
                    buffer[o++] = static_cast<std::uint8_t>(t >> 16);
                    buffer[o++] = static_cast<std::uint8_t>(t >> 8);
                    return std::make_pair(std::move(buffer), decodedSize);
                case 2: buffer[o++] = static_cast<std::uint8_t>(t >> 10); return std::make_pair(std::move(buffer), decodedSize);
                default: throw ConversionException("invalid padding in base64");
                }
            } else
                throw ConversionException("invalid character in base64");
        }
        buffer[o++] = static_cast<std::uint8_t>(t >> 16);
        buffer[o++] = static_cast<std::uint8_t>(t >> 8);
        buffer[o++] = static_cast<std::uint8_t>(t);
    }
    return std::make_pair(std::move(buffer), decodedSize);
}
} // namespace CppUtilities
