// Reference definitions written from the specifications, used as oracles by the harnesses.
#pragma once
#include "../engine/sx.h"
#include <cstdint>
#include <string>
#include <vector>
#include <tagparser/tagvalue.h>
namespace ref {
using TagParser::TagTextEncoding;
using Codepoints = std::vector<std::uint32_t>;
inline void stripBom(const std::string &s, TagTextEncoding e, std::string &out)
{
    const auto *p = reinterpret_cast<const unsigned char *>(s.data());
    size_t cut = 0;
    if (e == TagTextEncoding::Utf8 && s.size() >= 3 && p[0] == 0xEF && p[1] == 0xBB && p[2] == 0xBF) cut = 3;
    if (e == TagTextEncoding::Utf16LittleEndian && s.size() >= 2 && p[0] == 0xFF && p[1] == 0xFE) cut = 2;
    if (e == TagTextEncoding::Utf16BigEndian && s.size() >= 2 && p[0] == 0xFE && p[1] == 0xFF) cut = 2;
    out = s.substr(cut);
}
// decodes; false if malformed
inline bool decode(const std::string &text, TagTextEncoding e, Codepoints &out, bool bom = false)
{
    std::string s = text;
    if (bom) stripBom(text, e, s);
    const auto *p = reinterpret_cast<const unsigned char *>(s.data());
    const size_t n = s.size();
    switch (e) {
    case TagTextEncoding::Latin1:
        for (size_t i = 0; i < n; ++i) out.push_back(p[i]);
        return true;
    case TagTextEncoding::Utf8:
        for (size_t i = 0; i < n;) {
            std::uint32_t c = p[i];
            unsigned k;
            if (c < 0x80) k = 0;
            else if (c >= 0xC2 && c <= 0xDF) k = 1, c &= 0x1F;
            else if (c >= 0xE0 && c <= 0xEF) k = 2, c &= 0x0F;
            else if (c >= 0xF0 && c <= 0xF4) k = 3, c &= 0x07;
            else return false;
            if (i + k >= n) return false;
            for (unsigned j = 1; j <= k; ++j) {
                if ((p[i + j] & 0xC0) != 0x80) return false;
                c = (c << 6) | (p[i + j] & 0x3F);
            }
            if (k == 2 && c < 0x800) return false;
            if (k == 3 && (c < 0x10000 || c > 0x10FFFF)) return false;
            if (c >= 0xD800 && c <= 0xDFFF) return false;
            out.push_back(c);
            i += k + 1;
        }
        return true;
    case TagTextEncoding::Utf16LittleEndian:
    case TagTextEncoding::Utf16BigEndian: {
        if (n & 1) return false;
        const unsigned hi = e == TagTextEncoding::Utf16BigEndian ? 0 : 1;
        for (size_t i = 0; i < n; i += 2) {
            const std::uint32_t u = (static_cast<std::uint32_t>(p[i + hi]) << 8) | p[i + (hi ^ 1)];
            if (u >= 0xD800 && u <= 0xDBFF) {
                if (i + 3 >= n) return false;
                const std::uint32_t v = (static_cast<std::uint32_t>(p[i + 2 + hi]) << 8) | p[i + 2 + (hi ^ 1)];
                if (v < 0xDC00 || v > 0xDFFF) return false;
                out.push_back(0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00));
                i += 2;
            } else if (u >= 0xDC00 && u <= 0xDFFF)
                return false;
            else
                out.push_back(u);
        }
        return true;
    }
    default:
        return false;
    }
}
// encodes; false if not representable
inline bool encode(const Codepoints &cps, TagTextEncoding e, std::string &out)
{
    for (auto c : cps) {
        switch (e) {
        case TagTextEncoding::Latin1:
            if (c > 0xFF) return false;
            out += static_cast<char>(c);
            break;
        case TagTextEncoding::Utf8:
            if (c < 0x80) out += static_cast<char>(c);
            else if (c < 0x800) {
                out += static_cast<char>(0xC0 | (c >> 6));
                out += static_cast<char>(0x80 | (c & 0x3F));
            } else if (c < 0x10000) {
                out += static_cast<char>(0xE0 | (c >> 12));
                out += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
                out += static_cast<char>(0x80 | (c & 0x3F));
            } else {
                out += static_cast<char>(0xF0 | (c >> 18));
                out += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
                out += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
                out += static_cast<char>(0x80 | (c & 0x3F));
            }
            break;
        case TagTextEncoding::Utf16LittleEndian:
        case TagTextEncoding::Utf16BigEndian: {
            auto put = [&](std::uint32_t u) {
                if (e == TagTextEncoding::Utf16BigEndian) out += static_cast<char>(u >> 8), out += static_cast<char>(u);
                else out += static_cast<char>(u), out += static_cast<char>(u >> 8);
            };
            if (c >= 0x10000) put(0xD800 + ((c - 0x10000) >> 10)), put(0xDC00 + ((c - 0x10000) & 0x3FF));
            else put(c);
            break;
        }
        default:
            return false;
        }
    }
    return true;
}
} // namespace ref
