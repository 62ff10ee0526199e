// Small but complete media files of every kind that can be written.
#pragma once
#include "../engine/sx.h"
#include "io.h"
#include "ogg.h"
#include <tagparser/mediafileinfo.h>
#include <tagparser/tag.h>
#include <tagparser/tagvalue.h>
namespace mp4 {
inline std::string atom(const char *id, const std::string &data) { return be(data.size() + 8, 4) + std::string(id, 4) + data; }
inline std::string hdlr(const char *type, const std::string &name) { return atom("hdlr", std::string(8, '\0') + std::string(type, 4) + std::string(12, '\0') + name + '\0'); }
inline std::string ftyp() { return atom("ftyp", "M4A " + be(0, 4) + "isom"); }
inline std::string mvhd() { return atom("mvhd", be(0, 4) + be(1, 4) + be(2, 4) + be(1000, 4) + be(3000, 4) + be(0x10000, 4) + std::string(76, '\0') + be(3, 4)); }
// chunk offsets of 4 or 8 byte
inline std::string trak(unsigned id, const char *type, const std::vector<std::uint64_t> &chunkOffsets, const std::vector<unsigned> &sampleSizes, unsigned samplesPerChunk, unsigned offsetSize = 4,
    const std::string &extra = std::string())
{
    std::string stco = be(0, 4) + be(chunkOffsets.size(), 4), stsz = be(0, 4) + be(0, 4) + be(sampleSizes.size(), 4);
    for (const auto o : chunkOffsets) stco += be(o, offsetSize);
    for (const auto s : sampleSizes) stsz += be(s, 4);
    const auto entry = atom("twos", std::string(6, '\0') + be(1, 2) + be(0, 2) + std::string(6, '\0') + be(2, 2) + be(16, 2) + std::string(4, '\0') + be(44100u << 16, 4));
    const auto stbl = atom("stbl",
        atom("stsd", be(0, 4) + be(1, 4) + entry) + atom("stts", be(0, 4) + be(1, 4) + be(sampleSizes.size(), 4) + be(1, 4)) + atom("stsc", be(0, 4) + be(1, 4) + be(1, 4) + be(samplesPerChunk, 4) + be(1, 4))
            + atom("stsz", stsz) + atom(offsetSize == 8 ? "co64" : "stco", stco));
    return atom("trak",
        atom("tkhd", be(7, 4) + be(1, 4) + be(2, 4) + be(id, 4) + be(0, 4) + be(3000, 4) + std::string(52, '\0') + be(0, 4) + be(0, 4))
            + atom("mdia",
                atom("mdhd", be(0, 4) + be(1, 4) + be(2, 4) + be(44100, 4) + be(132300, 4) + be(0x55c4, 2) + be(0, 2)) + hdlr(type, "H")
                    + atom("minf", atom("smhd", std::string(8, '\0')) + atom("dinf", atom("dref", be(0, 4) + be(1, 4) + atom("url ", be(1, 4)))) + stbl))
            + extra);
}
inline std::string data(unsigned type, const std::string &value) { return atom("data", be(type, 4) + be(0, 4) + value); }
inline std::string ilst(const std::string &title) { return atom("ilst", atom("\xa9nam", data(1, title))); }
inline std::string udta(const std::string &ilst) { return atom("udta", atom("meta", be(0, 4) + atom("hdlr", std::string(8, '\0') + "mdirappl" + std::string(9, '\0')) + ilst)); }
} // namespace mp4
namespace mkv {
inline std::string id(std::uint32_t v) { return be(v, v > 0xFFFFFF ? 4 : v > 0xFFFF ? 3 : v > 0xFF ? 2 : 1); }
inline std::string size(std::uint64_t v, unsigned n = 0)
{
    if (!n)
        for (n = 1; v >= (1ull << (7 * n)) - 1; ++n) { }
    return be(v | (1ull << (7 * n)), n);
}
inline std::string el(std::uint32_t i, const std::string &data, unsigned sizeLength = 0) { return id(i) + size(data.size(), sizeLength) + data; }
inline std::string num(std::uint32_t i, std::uint64_t v, unsigned n = 1) { return el(i, be(v, n)); }
inline std::string header() { return el(0x1A45DFA3, num(0x4286, 1) + num(0x42F7, 1) + num(0x42F2, 4) + num(0x42F3, 8) + el(0x4282, "matroska") + num(0x4287, 1) + num(0x4285, 1)); }
inline std::string info() { return el(0x1549A966, num(0x2AD7B1, 1000000, 3) + el(0x4489, be(0x447a0000, 4)) + el(0x4D80, "m") + el(0x5741, "w")); }
inline std::string track(unsigned n) { return el(0xAE, num(0xD7, n) + num(0x73C5, n + 10) + num(0x83, 2) + el(0x86, "A_VORBIS") + el(0xE1, el(0xB5, be(0x472c4400, 4)) + num(0x9F, 2))); }
inline std::string block(unsigned track, unsigned time, const std::string &data) { return el(0xA3, size(track) + be(time, 2) + '\x80' + data); }
inline std::string cluster(unsigned time, const std::string &blocks) { return el(0x1F43B675, num(0xE7, time, 2) + blocks); }
inline std::string tag(const std::string &name, const std::string &value) { return el(0x7373, el(0x63C0, "") + el(0x67C8, el(0x45A3, name) + el(0x4487, value))); }
} // namespace mkv
namespace media {
enum Kind { Mp3V1, Mp3, Flac, Ogg, Mp4, Mkv, KindCount };
inline const char *extension(Kind k)
{
    static const char *const names[] = { ".mp3", ".mp3", ".flac", ".ogg", ".mp4", ".mkv" };
    return names[k];
}
inline std::string bytes(size_t n)
{
    std::string s;
    s.reserve(n);
    for (size_t i = 0; i < n; ++i) s += static_cast<char>('a' + i * i % 23);
    auto x = sx_string(3, "content");
    s.replace(n / 2, 3, x);
    return s;
}
inline std::string make(Kind k)
{
    switch (k) {
    case Mp3V1:
        return "\xff\xfb\x90\x40" + bytes(400) + "TAGtitle" + std::string(119, '\0') + '\x11';
    case Mp3:
        return std::string("ID3\4\0\0", 6) + be(18, 4) + "TIT2" + be(3, 4) + std::string("\0\0\3ab", 5) + std::string(5, '\0') + "\xff\xfb\x90\x40" + bytes(36000) + "TAGtitle" + std::string(119, '\0') + '\x11';
    case Flac: {
        const auto c = le(1, 4) + "v" + le(1, 4) + le(8, 4) + "TITLE=ab";
        return std::string("fLaC\0\0\0\x22", 8) + be(4096, 2) + be(4096, 2) + be(0, 6) + be((static_cast<std::uint64_t>(44100) << 44) | (1ull << 41) | (15ull << 36) | 300, 8) + std::string(16, 'm') + '\4' + be(c.size(), 3) + c + '\x81' + be(10, 3)
            + std::string(10, '\0') + "\xff\xf8" + bytes(20000);
    }
    case Ogg: {
        const auto id = "\1vorbis" + le(0, 4) + '\2' + le(44100, 4) + le(0, 4) + le(128000, 4) + le(0, 4) + '\xb8' + '\1';
        const auto c = "\3vorbis" + le(1, 4) + "v" + le(1, 4) + le(8, 4) + "TITLE=ab" + '\1';
        const auto setup = "\5vorbis" + std::string(100, 's');
        std::string s = ogg::page(2, 0, 7, 0, ogg::lace({ id.size() }), id) + ogg::page(0, 0, 7, 1, ogg::lace({ c.size(), setup.size() }), c + setup);
        for (unsigned i = 0; i < 12; ++i) {
            const auto d = i == 5 ? bytes(900) : std::string(900, static_cast<char>('A' + i));
            s += ogg::page(i == 11 ? 4 : 0, i * 100 + 100, 7, i + 2, ogg::lace({ d.size() }), d);
        }
        return s;
    }
    case Mp4: {
        const auto moov = [](std::uint64_t o) { return mp4::atom("moov", mp4::mvhd() + mp4::trak(1, "soun", { o, o + 6000 }, { 3000, 3000, 3000, 3000 }, 2) + mp4::udta(mp4::ilst("ab"))); };
        const auto head = mp4::ftyp().size() + moov(0).size();
        return mp4::ftyp() + moov(head + 8) + mp4::atom("mdat", bytes(12000));
    }
    case Mkv: {
        std::string s = mkv::info() + mkv::el(0x1654AE6B, mkv::track(1)) + mkv::el(0x1254C367, mkv::tag("TITLE", "ab"));
        for (unsigned i = 0; i < 2; ++i) s += mkv::cluster(i * 100, mkv::block(1, 0, i ? bytes(9000) : std::string(900, 'b')));
        return mkv::header() + mkv::el(0x18538067, s, 4);
    }
    default:
        return {};
    }
}
inline unsigned editCount(Kind) { return 2; }
// changes tags of the parsed file
inline void edit(TagParser::MediaFileInfo &info, Kind k, unsigned e)
{
    using namespace TagParser;
    if (e == 1) {
        info.removeAllTags();
        return;
    }
    info.createAppropriateTags();
    for (auto *const tag : info.tags()) tag->setValue(KnownField::Title, TagValue("another title which is longer", tag->type() == TagType::Id3v1Tag ? TagTextEncoding::Latin1 : TagTextEncoding::Utf8));
    if (k == Mp3V1) info.removeAllId3v2Tags();
}
} // namespace media
// reads EBML elements as specified
namespace mkvref {
struct El {
    std::uint32_t id = 0;
    size_t start = 0, data = 0, end = 0;
    std::string content(const std::string &s) const { return s.substr(data, end - data); }
};
inline El read(const std::string &s, size_t o, size_t end)
{
    El e;
    e.start = o;
    sx_assert(end - o >= 2, "EBML element is complete");
    const auto b = static_cast<unsigned char>(s.at(o));
    unsigned n = 1;
    for (; n <= 4 && !(b & (0x80u >> (n - 1))); ++n) { }
    sx_assert(n <= 4 && end - o > n, "EBML ID is valid");
    e.id = static_cast<std::uint32_t>(rdbe(s, o, n));
    const auto c = static_cast<unsigned char>(s.at(o + n));
    unsigned m = 1;
    for (; m <= 8 && !(c & (0x80u >> (m - 1))); ++m) { }
    sx_assert(m <= 8 && end - o >= n + m, "EBML size is valid");
    const auto v = rdbe(s, o + n, m) - (1ull << (7 * m));
    e.data = o + n + m;
    const bool unknown = v == (1ull << (7 * m)) - 1;
    sx_assert(unknown || v <= end - e.data, "EBML element doesn't exceed its parent");
    e.end = unknown ? end : static_cast<size_t>(e.data + v);
    return e;
}
inline std::vector<El> children(const std::string &s, size_t o, size_t end)
{
    std::vector<El> r;
    for (; o < end; o = r.back().end) r.push_back(read(s, o, end));
    return r;
}
inline std::vector<El> children(const std::string &s, const El &e) { return children(s, e.data, e.end); }
} // namespace mkvref
