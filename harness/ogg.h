// Ogg: builds pages and splits streams into packets as the format (RFC 3533) defines it.
#pragma once
#include "io.h"
#include <map>
namespace ogg {
inline std::uint32_t crc(const std::string &page)
{
    static std::uint32_t table[256];
    if (!table[1])
        for (std::uint32_t i = 0; i < 256; ++i) {
            auto c = i << 24;
            for (unsigned k = 0; k < 8; ++k) c = (c << 1) ^ (c & 0x80000000u ? 0x04c11db7u : 0u);
            table[i] = c;
        }
    std::uint32_t c = 0;
    for (size_t i = 0; i < page.size(); ++i) c = (c << 8) ^ table[((c >> 24) ^ (i >= 22 && i < 26 ? 0 : static_cast<unsigned char>(page[i]))) & 0xFF];
    return c;
}
// page with the lacing values as specified
inline std::string page(unsigned flags, std::uint64_t granule, std::uint32_t serial, std::uint32_t seq, const std::vector<unsigned> &lacing, const std::string &data)
{
    std::string s = std::string("OggS", 4) + '\0' + static_cast<char>(flags) + le(granule, 8) + le(serial, 4) + le(seq, 4) + std::string(4, '\0') + static_cast<char>(lacing.size());
    for (const auto l : lacing) s += static_cast<char>(l);
    s += data;
    s.replace(22, 4, le(crc(s), 4));
    return s;
}
// lacing values of packets; the last one is left unconcluded if specified (its size must be a multiple of 255 then)
inline std::vector<unsigned> lace(const std::vector<size_t> &sizes, bool unconcluded = false)
{
    std::vector<unsigned> r;
    for (size_t i = 0; i < sizes.size(); ++i) {
        for (size_t n = 0; n < sizes[i] / 255; ++n) r.push_back(255);
        if (!unconcluded || i + 1 < sizes.size()) r.push_back(sizes[i] % 255);
    }
    return r;
}
struct Page {
    size_t offset = 0, size = 0;
    unsigned flags = 0;
    std::uint64_t granule = 0;
    std::uint32_t serial = 0, seq = 0, checksum = 0;
    std::vector<unsigned> lacing;
    size_t data = 0; // offset of data
    size_t finished = 0; // number of packets finishing
};
struct Packet {
    std::string data;
    std::uint64_t granule = 0; // of the page it finishes on
    bool lastOfPage = false; // whether it is the last one finishing on that page
    size_t firstPage = 0, lastPage = 0; // index among all pages
};
struct Stream {
    std::vector<size_t> pages;
    std::vector<Packet> packets;
};
// splits the file, asserts that it is well formed
inline std::map<std::uint32_t, Stream> demux(const std::string &s, std::vector<Page> &pages, bool strict = true)
{
    std::map<std::uint32_t, Stream> streams;
    std::map<std::uint32_t, bool> open;
    for (size_t o = 0; o < s.size();) {
        Page p;
        sx_assert(s.size() - o >= 27 && s.compare(o, 4, "OggS") == 0, "page starts with capture pattern");
        p.offset = o;
        sx_assert(s[o + 4] == 0, "version of page");
        p.flags = static_cast<unsigned>(rdle(s, o + 5, 1));
        p.granule = rdle(s, o + 6, 8);
        p.serial = static_cast<std::uint32_t>(sx_concretize(rdle(s, o + 14, 4)));
        p.seq = static_cast<std::uint32_t>(rdle(s, o + 18, 4));
        p.checksum = static_cast<std::uint32_t>(rdle(s, o + 22, 4));
        const auto n = static_cast<unsigned>(sx_concretize(rdle(s, o + 26, 1)));
        sx_assert(s.size() - o >= 27 + n, "segment table within the file");
        size_t size = 0;
        for (unsigned i = 0; i < n; ++i) {
            p.lacing.push_back(static_cast<unsigned>(sx_concretize(rdle(s, o + 27 + i, 1))));
            size += p.lacing.back();
        }
        p.data = o + 27 + n;
        p.size = 27 + n + size;
        sx_assert(s.size() - o >= p.size, "page within the file");
        if (strict) sx_assert_eq(s.substr(o + 22, 4), le(crc(s.substr(o, p.size)), 4), "checksum of page");
        auto &stream = streams[p.serial];
        if (strict) {
            sx_assert(!!(p.flags & 2) == stream.pages.empty(), "only the first page of a stream is flagged as such");
            if (!stream.pages.empty()) {
                sx_assert(p.seq == pages[stream.pages.back()].seq + 1, "page sequence numbers are consecutive");
                sx_assert(!(pages[stream.pages.back()].flags & 4), "only the last page of a stream is flagged as such");
            }
            if (n) sx_assert(!!(p.flags & 1) == open[p.serial], "continued packets are flagged as such");
        }
        size_t d = p.data;
        for (unsigned i = 0; i < n; ++i) {
            if (!open[p.serial]) {
                stream.packets.emplace_back();
                stream.packets.back().firstPage = pages.size();
                open[p.serial] = true;
            }
            auto &packet = stream.packets.back();
            packet.data.append(s, d, p.lacing[i]);
            packet.lastPage = pages.size();
            d += p.lacing[i];
            if (p.lacing[i] < 255) {
                open[p.serial] = false;
                packet.granule = p.granule;
                ++p.finished;
            }
        }
        if (p.finished) {
            size_t k = stream.packets.size() - 1;
            if (open[p.serial]) --k;
            stream.packets[k].lastOfPage = true;
        }
        if (strict && n) sx_assert((p.granule == ~std::uint64_t()) == !p.finished, "granule position is -1 exactly if no packet finishes on the page");
        stream.pages.push_back(pages.size());
        pages.push_back(p);
        o += p.size;
    }
    if (strict)
        for (auto &i : streams) {
            sx_assert(!!(pages[i.second.pages.back()].flags & 4), "last page of a stream is flagged as such");
            sx_assert(!open[i.first], "last packet is finished");
        }
    return streams;
}
} // namespace ogg
