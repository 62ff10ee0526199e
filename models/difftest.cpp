// Differential test of model_cppu.cpp against the real c++utilities. Built twice: -DSIDE_MODEL renames the namespace.
#ifdef SIDE_MODEL
#define CppUtilities SxmUtilities
#define SIDE model
#include "model_cppu.cpp"
#else
#define SIDE real
#include <c++utilities/conversion/conversionexception.h>
#include <c++utilities/conversion/stringconversion.h>
#include <c++utilities/io/binaryreader.h>
#include <c++utilities/io/binarywriter.h>
#include <c++utilities/io/bitreader.h>
#include <cstring>
#include <string>
#endif
#include <sstream>
#define CAT2(a, b) a##_##b
#define CAT(a, b) CAT2(a, b)
static std::string sd(const CppUtilities::StringData &d) { return "ok:" + std::string(d.first.get(), d.second); }
std::string CAT(SIDE, run)(int op, const std::string &in, unsigned k, unsigned k2)
{
    using namespace CppUtilities;
    try {
        switch (op) {
        case 0: return sd(convertUtf8ToUtf16LE(in.data(), in.size()));
        case 1: return sd(convertUtf8ToUtf16BE(in.data(), in.size()));
        case 2: return sd(convertUtf16LEToUtf8(in.data(), in.size()));
        case 3: return sd(convertUtf16BEToUtf8(in.data(), in.size()));
        case 4: return sd(convertLatin1ToUtf8(in.data(), in.size()));
        case 5: return sd(convertUtf8ToLatin1(in.data(), in.size()));
        case 6: return "ok:" + encodeBase64(reinterpret_cast<const std::uint8_t *>(in.data()), in.size());
        case 7: {
            auto p = decodeBase64(in.data(), in.size());
            return "ok:" + std::string(reinterpret_cast<char *>(p.first.get()), p.second);
        }
        case 8:
        case 9:
        case 10:
        case 11: {
            std::stringstream s(in, std::ios_base::in | std::ios_base::binary);
            s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
            BinaryReader r(&s);
            std::string res;
            try {
                if (op == 8) res = r.readString(k % 12);
                if (op == 9) res = r.readTerminatedString(k % 12, k2 % 3);
                if (op == 10) res = std::to_string(r.readCrc32(k % 12));
                if (op == 11) res = std::to_string(k & 1 ? r.readVariableLengthUIntBE() : r.readVariableLengthUIntLE());
            } catch (const std::ios_base::failure &) {
                res = "iofail";
            }
            s.clear();
            return res + "@" + std::to_string((long long)s.tellg());
        }
        case 12: {
            std::stringstream s(std::ios_base::out | std::ios_base::binary);
            BinaryWriter w(&s);
            uint64_t v = 0;
            memcpy(&v, in.data(), in.size() < 8 ? in.size() : 8);
            v >>= k % 64;
            k2 & 1 ? w.writeVariableLengthUIntBE(v) : w.writeVariableLengthUIntLE(v);
            return s.str();
        }
        case 14: {
            static const char *const cs[] = { "ISO-8859-1", "UTF-8", "UTF-16LE", "UTF-16BE" };
            return sd(convertString(cs[k % 4], cs[k2 % 4], in.data(), in.size(), 1.0f));
        }
        case 13: {
            if (in.empty()) return "";
            BitReader r(in.data(), in.size());
            std::string o;
            for (int i = 0; i < 4; ++i) {
                r.skipBits((k >> (i * 5)) % 19);
                o += std::to_string(r.bitsAvailable()) + ",";
                o += std::to_string(r.readBits<std::uint16_t>((k2 >> (i * 4)) % 10)) + ";";
            }
            return o;
        }
        }
    } catch (const ConversionException &) {
        return "conversion";
    } catch (const std::ios_base::failure &) {
        return "iofailure";
    }
    return "";
}
std::uint32_t CAT(SIDE, crc)(int i) { return CppUtilities::BinaryReader::crc32Table[i]; }
#ifndef SIDE_MODEL
std::string model_run(int op, const std::string &in, unsigned k, unsigned k2);
std::uint32_t model_crc(int i);
#include <cstdio>
#include <random>
int main()
{
    std::mt19937 g(1);
    long n = 0, bad = 0, okc = 0;
    auto cmp = [&](int op, const std::string &in, unsigned k, unsigned k2) {
        ++n;
        auto a = real_run(op, in, k, k2), b = model_run(op, in, k, k2);
        if (a.substr(0, 3) == "ok:") ++okc;
        if (a != b && ++bad < 40) {
            printf("op %d in ", op);
            for (unsigned char c : in) printf("%02x", c);
            printf(" k %u k2 %u: real %s(%zu) model %s(%zu)\n", k, k2, a.c_str(), a.size(), b.c_str(), b.size());
        }
    };
    for (int i = 0; i < 256; ++i)
        if (real_crc(i) != model_crc(i)) ++bad, printf("crc table %d\n", i);
    static const unsigned char nasty[] = { 0, 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0,
        0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff, '=', 'A', '/' };
    for (int op = 0; op <= 14; ++op) {
        cmp(op, "", 3, 1);
        for (int a = 0; a < 256; ++a) {
            cmp(op, std::string(1, (char)a), a * 7919, a);
            for (int b = 0; b < 256; ++b) cmp(op, std::string { (char)a, (char)b }, a * 7919 + b, b);
        }
        for (unsigned char a : nasty)
            for (unsigned char b : nasty)
                for (unsigned char c : nasty) {
                    cmp(op, std::string { (char)a, (char)b, (char)c }, g(), g());
                    if (op < 8) for (unsigned char d : nasty) cmp(op, std::string { (char)a, (char)b, (char)c, (char)d }, g(), g());
                }
        for (int i = 0; i < 60000; ++i) {
            std::string s(g() % 13, '\0');
            for (auto &c : s) c = g() % 2 ? (char)nasty[g() % sizeof nasty] : op == 7 ? "ABCDabcd0123+/=="[g() % 16] : (char)g();
            cmp(op, s, g(), g());
        }
    }
    for (unsigned k = 0; k < 4; ++k)
        for (unsigned k2 = 0; k2 < 4; ++k2)
            for (unsigned char a : nasty)
                for (unsigned char b : nasty)
                    for (unsigned char c : nasty)
                        for (unsigned char d : nasty) cmp(14, std::string { (char)a, (char)b, (char)c, (char)d }, k, k2);
    printf("%ld comparisons, %ld ok results, %ld differences\n", n, okc, bad);
    return bad != 0;
}
#endif
