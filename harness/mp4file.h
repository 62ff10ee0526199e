// Builds MP4 files of arbitrary layout and reads them as specified with all references resolved.
#pragma once
#include "io.h"
#include "media.h"
#include "mp4ref.h"
#include <algorithm>
#include <tuple>
namespace mp4file {
using mp4::atom;
struct Trak {
    unsigned id = 1;
    std::string type = "soun", name = "H";
    unsigned offsetSize = 4, perChunk = 1;
    std::vector<unsigned> samples; // sizes
    std::vector<std::pair<unsigned, unsigned>> chunks; // media data atom and position within
    std::string tkhd, mdhd; // contents, default if empty
    std::string trakExtra, mdiaExtra, minfExtra, stblExtra;
    bool extraFirst = false, omitTkhd = false;
};
inline std::string tkhd(unsigned id, unsigned flags = 7, unsigned duration = 3000) { return be(flags, 4) + be(1, 4) + be(2, 4) + be(id, 4) + be(0, 4) + be(duration, 4) + be(0, 8) + std::string(52, '\1'); }
inline std::string tkhd1(unsigned id, std::uint64_t duration) { return be(0x01000007, 4) + be(1, 8) + be(2, 8) + be(id, 4) + be(0, 4) + be(duration, 8) + be(0, 8) + std::string(52, '\1'); }
inline std::string mdhd(unsigned duration = 132300) { return be(0, 4) + be(1, 4) + be(2, 4) + be(44100, 4) + be(duration, 4) + be(0x15c7, 2) + be(0, 2); }
inline std::string mdhd1(std::uint64_t duration) { return be(0x01000000, 4) + be(1, 8) + be(2, 8) + be(44100, 4) + be(duration, 8) + be(0x15c7, 2) + be(0, 2); }
inline std::string make(const Trak &t, const std::vector<std::uint64_t> &media)
{
    std::string stco = be(0, 4) + be(t.chunks.size(), 4), stsz = be(0, 4) + be(0, 4) + be(t.samples.size(), 4);
    for (const auto &c : t.chunks) stco += be(c.first < media.size() ? media[c.first] + c.second : 0, t.offsetSize);
    for (const auto s : t.samples) stsz += be(s, 4);
    const auto entry = atom("twos", std::string(6, '\0') + be(1, 2) + be(0, 2) + std::string(6, '\0') + be(2, 2) + be(16, 2) + std::string(4, '\0') + be(44100u << 16, 4));
    const auto stbl = atom("stbl",
        atom("stsd", be(0, 4) + be(1, 4) + entry) + atom("stts", be(0, 4) + be(1, 4) + be(t.samples.size(), 4) + be(1, 4)) + t.stblExtra
            + atom("stsc", be(0, 4) + be(1, 4) + be(1, 4) + be(t.perChunk, 4) + be(1, 4)) + atom("stsz", stsz) + atom(t.offsetSize == 8 ? "co64" : "stco", stco));
    const auto minf = atom("minf", atom("smhd", std::string(8, '\0')) + t.minfExtra + atom("dinf", atom("dref", be(0, 4) + be(1, 4) + atom("url ", be(1, 4)))) + stbl);
    const auto mdia = atom("mdia", atom("mdhd", t.mdhd.empty() ? mdhd() : t.mdhd) + mp4::hdlr(t.type.data(), t.name) + t.mdiaExtra + minf);
    const auto head = t.omitTkhd ? std::string() : atom("tkhd", t.tkhd.empty() ? tkhd(t.id) : t.tkhd);
    return atom("trak", t.extraFirst ? t.trakExtra + head + mdia : head + mdia + t.trakExtra);
}
struct File {
    // F ftyp, P pdin, V moov, D media data (in this order), L media data with 64-bit size, Z media data extending to the end, _ free, s skip, U uuid, M moof (for the media data following it), A with 64-bit free
    std::string order = "FVD";
    std::vector<std::string> media;
    std::vector<Trak> tracks;
    std::vector<std::string> udta; // contents
    std::string moovFirst, moovLast; // further children
    bool udtaFirst = false;
    unsigned freeSize = 100; // including the header
    bool relative = false; // moof without base-data-offset
    static std::string fragment(std::uint64_t base, bool relative)
    {
        const auto tfhd = relative ? be(0x020000, 4) + be(1, 4) : be(1, 4) + be(1, 4) + be(base, 8);
        return atom("moof", atom("mfhd", be(0, 4) + be(1, 4)) + atom("traf", atom("tfhd", tfhd) + atom("trun", be(0x201, 4) + be(1, 4) + be(8, 4) + be(5, 4))));
    }
    std::string make() const
    {
        std::vector<std::uint64_t> at(media.size());
        std::string s;
        for (unsigned pass = 0; pass < 2; ++pass) {
            s.clear();
            unsigned n = 0;
            for (const char c : order) {
                switch (c) {
                case 'F': s += mp4::ftyp(); break;
                case 'P': s += atom("pdin", be(0, 4) + be(100, 4) + be(5, 4)); break;
                case 'V': {
                    std::string u, t;
                    for (const auto &x : udta) u += atom("udta", x);
                    for (const auto &x : tracks) t += mp4file::make(x, at);
                    s += atom("moov", mp4::mvhd() + moovFirst + (udtaFirst ? u + t : t + u) + moovLast);
                    break;
                }
                case 'D': at[n] = s.size() + 8; s += atom("mdat", media[n]); ++n; break;
                case 'L': at[n] = s.size() + 16; s += be(1, 4) + "mdat" + be(media[n].size() + 16, 8) + media[n]; ++n; break;
                case 'Z': at[n] = s.size() + 8; s += be(0, 4) + "mdat" + media[n]; ++n; break;
                case '_': s += atom("free", std::string(freeSize - 8, 'f')); break;
                case 's': s += atom("skip", std::string(freeSize - 8, 's')); break;
                case 'A': s += be(1, 4) + "free" + be(freeSize, 8) + std::string(freeSize - 16, 'A'); break;
                case 'U': s += atom("uuid", std::string(16, 'u') + std::to_string(s.size() % 7)); break;
                case 'M': s += fragment(n < at.size() ? at[n] : 0, relative); break;
                default: break;
                }
            }
        }
        return s;
    }
};
// file with all references resolved
struct Model {
    std::vector<std::string> head; // ftyp, pdin
    std::vector<std::string> media; // all atoms which are no index and no padding
    std::vector<std::string> moov; // children except tracks and user data
    std::vector<std::string> tracks;
    std::string udta; // children except tags
    std::vector<mp4ref::Field> fields;
    unsigned metas = 0;
    size_t moovStart = 0, mediaStart = std::string::npos, mediaEnd = 0, gap = 0; // size of the padding directly in front of the media data
};
inline std::string leaf(const std::string &s, const mp4ref::Atom &a) { return a.id + ":" + a.content(s) + ";"; }
inline std::string version(const std::string &v, bool track)
{
    // times as 64-bit integers
    if (v.size() < 20) return v;
    const bool wide = v[0] == 1;
    const unsigned w = wide ? 8 : 4;
    std::string r = v.substr(1, 3) + be(rdbe(v, 4, w), 8) + be(rdbe(v, 4 + w, w), 8) + v.substr(4 + 2 * w, track ? 8 : 4);
    const unsigned d = 4 + 2 * w + (track ? 8 : 4);
    sx_assert(v.size() >= d + w, "header is complete");
    return r + be(rdbe(v, d, w), 8) + v.substr(d + w);
}
inline std::string sampleTable(const std::string &s, const mp4ref::Atom &stbl)
{
    const auto c = mp4ref::children(s, stbl);
    std::string r, chunks;
    const auto stsz = mp4ref::byId(c, "stsz"), stsc = mp4ref::byId(c, "stsc");
    for (const auto &a : c) {
        if (a.id != "stco" && a.id != "co64") {
            r += leaf(s, a);
            continue;
        }
        const auto v = a.content(s);
        const unsigned w = a.id == "co64" ? 8 : 4;
        const auto n = static_cast<size_t>(rdbe(v, 4, 4));
        sx_assert(v.size() == 8 + n * w, "chunk offset table is complete");
        r += "offsets;";
        const auto sz = stsz.at(0).content(s), sc = stsc.at(0).content(s);
        const auto per = static_cast<size_t>(rdbe(sc, 12, 4));
        for (size_t i = 0, sample = 0; i < n; ++i) {
            const auto o = rdbe(v, 8 + i * w, w);
            size_t size = 0;
            for (size_t k = 0; k < per && sample < rdbe(sz, 8, 4); ++k, ++sample) size += static_cast<size_t>(rdbe(sz, 12 + 4 * sample, 4));
            sx_assert(o <= s.size() && size <= s.size() - o, "chunk is within the file");
            chunks += "chunk:" + s.substr(static_cast<size_t>(o), size) + ";";
        }
    }
    return "stbl(" + r + chunks + ")";
}
inline std::string track(const std::string &s, const mp4ref::Atom &trak)
{
    std::string head, mid, mdia;
    for (const auto &a : mp4ref::children(s, trak)) {
        if (a.id == "tkhd") head += "tkhd:" + version(a.content(s), true) + ";";
        else if (a.id == "mdia") {
            std::string h, x, m;
            for (const auto &b : mp4ref::children(s, a)) {
                if (b.id == "mdhd") h = "mdhd:" + version(b.content(s), false) + ";" + h;
                else if (b.id == "hdlr") h += leaf(s, b);
                else if (b.id == "minf") {
                    m += "minf(";
                    for (const auto &c : mp4ref::children(s, b)) m += c.id == "stbl" ? sampleTable(s, c) : leaf(s, c);
                    m += ")";
                } else x += leaf(s, b);
            }
            mdia += "mdia(" + h + x + m + ")";
        } else mid += leaf(s, a);
    }
    return head + mid + mdia;
}
inline std::string fragment(const std::string &s, const mp4ref::Atom &moof)
{
    std::string r = "moof(";
    for (const auto &a : mp4ref::children(s, moof)) {
        if (a.id != "traf") {
            r += leaf(s, a);
            continue;
        }
        for (const auto &b : mp4ref::children(s, a)) {
            auto v = b.content(s);
            if (b.id == "tfhd" && (v[3] & 1)) {
                const auto o = rdbe(v, 8, 8);
                sx_assert(o <= s.size() && s.size() - o >= 5, "base data offset is within the file");
                v.replace(8, 8, s.substr(static_cast<size_t>(o), 5));
            }
            r += b.id + ":" + v + ";";
        }
    }
    return r + ")";
}
// foreign: tags may consist of anything
inline Model read(const std::string &s, bool foreign = false)
{
    Model m;
    unsigned moovs = 0;
    size_t gap = 0;
    for (const auto &a : mp4ref::children(s, 0, s.size())) {
        if (a.id == "free" || a.id == "skip") {
            gap += a.end - a.start;
            continue;
        }
        if (a.id == "ftyp" || a.id == "pdin") m.head.push_back(a.all(s));
        else if (a.id == "moov") {
            ++moovs;
            m.moovStart = a.start;
            for (const auto &b : mp4ref::children(s, a)) {
                if (b.id == "trak") m.tracks.push_back(track(s, b));
                else if (b.id != "udta") m.moov.push_back(leaf(s, b));
                else
                    for (size_t o = b.data; o < b.end;) {
                        if (foreign && b.end - o == 4) break; // optional terminator
                        const auto c = mp4ref::read(s, o, b.end);
                        o = c.end;
                        if (c.id != "meta") {
                            m.udta += leaf(s, c);
                            continue;
                        }
                        ++m.metas;
                        if (!foreign) m.fields = mp4ref::fields(s, c);
                    }
            }
        } else {
            if (m.mediaStart == std::string::npos) {
                m.mediaStart = a.start;
                m.gap = gap;
            }
            m.mediaEnd = a.end;
            m.media.push_back(a.id == "moof" ? fragment(s, a) : leaf(s, a));
            gap = 0;
        }
        if (m.mediaStart == std::string::npos) gap = 0;
    }
    sx_assert(moovs == 1, "one movie atom");
    return m;
}
inline void sameList(const std::vector<std::string> &a, const std::vector<std::string> &b, const char *what)
{
    sx_assert(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size(); ++i) sx_assert_eq(a[i], b[i], what);
}
inline void sameContent(const Model &a, const Model &b)
{
    sameList(a.head, b.head, "file type");
    sameList(a.media, b.media, "media data is kept");
    sameList(a.moov, b.moov, "movie header and other children of the movie are kept");
    sameList(a.tracks, b.tracks, "tracks and their chunks are kept");
    sx_assert_eq(a.udta, b.udta, "other user data is kept");
}
} // namespace mp4file
