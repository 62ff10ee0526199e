// Streams in memory and helpers for format harnesses.
#pragma once
#include "../engine/sx.h"
#include <sstream>
#include <string>
#include <tagparser/diagnostics.h>
struct Mem : std::stringstream {
    Mem() : std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary) { exceptions(std::ios_base::failbit | std::ios_base::badbit); }
    explicit Mem(const std::string &s) : Mem()
    {
        write(s.data(), static_cast<std::streamsize>(s.size()));
        seekg(0);
    }
};
inline bool hasWarning(const TagParser::Diagnostics &diag)
{
    for (const auto &m : diag)
        if (m.level() >= TagParser::DiagLevel::Warning) return true;
    return false;
}
inline std::string be(std::uint64_t v, unsigned n)
{
    std::string s(n, '\0');
    for (unsigned i = 0; i < n; ++i) s[n - 1 - i] = static_cast<char>(v >> (8 * i));
    return s;
}
inline std::string le(std::uint64_t v, unsigned n)
{
    std::string s(n, '\0');
    for (unsigned i = 0; i < n; ++i) s[i] = static_cast<char>(v >> (8 * i));
    return s;
}
inline std::uint64_t rdbe(const std::string &s, size_t o, unsigned n)
{
    std::uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i) v = (v << 8) | static_cast<unsigned char>(s.at(o + i));
    return v;
}
inline std::uint64_t rdle(const std::string &s, size_t o, unsigned n)
{
    std::uint64_t v = 0;
    for (unsigned i = n; i-- > 0;) v = (v << 8) | static_cast<unsigned char>(s.at(o + i));
    return v;
}
