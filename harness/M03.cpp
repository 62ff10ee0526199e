// Information about tracks of MP4 files as specified (ISO/IEC 14496-1, -3, -12).
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "media.h"
#include <algorithm>
#include <limits>
#include <sys/resource.h>
#include <tagparser/exceptions.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/mp4/mp4track.h>
#include <tagparser/progressfeedback.h>
using namespace TagParser;
using namespace CppUtilities;
using mp4::atom;
//! bound: files with one or two tracks and up to two fragments; every header field, every table entry and every bit of the audio configuration is arbitrary; tables of up to four entries which are complete, too short or too long; damage of one arbitrary byte or truncation at every position of the movie atom
//! outside: sample tables of more than four entries, AVC/HEVC/AV1 configuration, MPEG-4 Visual user data, sample descriptions of QuickTime version 2 (beyond their size), pixel aspect ratio and clean aperture, bitrate

struct Parts {
    std::string tkhd = atom("tkhd", be(7, 4) + be(1, 4) + be(2, 4) + be(1, 4) + be(0, 4) + be(3000, 4) + std::string(60, '\1'));
    std::string mdhd = atom("mdhd", be(0, 4) + be(1, 4) + be(2, 4) + be(44100, 4) + be(88200, 4) + be(0x15c7, 2) + be(0, 2));
    std::string hdlr = mp4::hdlr("soun", "H");
    std::string stsd = atom("stsd", be(0, 4) + be(0, 4));
    std::string stsc = atom("stsc", be(0, 4) + be(0, 4));
    std::string stsz = atom("stsz", be(0, 4) + be(0, 4) + be(0, 4));
    std::string stco = atom("stco", be(0, 4) + be(0, 4));
    std::string make() const
    {
        const auto stbl = atom("stbl", stsd + atom("stts", be(0, 4) + be(0, 4)) + stsc + stsz + stco);
        const auto minf = atom("minf", atom("smhd", std::string(8, '\0')) + atom("dinf", atom("dref", be(0, 4) + be(1, 4) + atom("url ", be(1, 4)))) + stbl);
        return atom("trak", tkhd + atom("mdia", mdhd + hdlr + minf));
    }
};
static std::string other()
{
    Parts p;
    p.tkhd = atom("tkhd", be(7, 4) + be(1, 4) + be(2, 4) + be(77, 4) + be(0, 4) + be(3000, 4) + std::string(60, '\1'));
    p.stsz = atom("stsz", be(0, 4) + be(6, 4) + be(4, 4));
    return p.make();
}
static void checkOther(const AbstractTrack &t)
{
    sx_assert(t.isHeaderValid(), "other track is valid");
    sx_assert(t.id() == 77 && t.size() == 24 && t.sampleCount() == 4 && t.mediaType() == MediaType::Audio && t.timeScale() == 44100, "other track is read");
    sx_assert_eq(t.name(), "H", "name of other track");
    sx_assert(t.duration().totalTicks() == 20000000, "duration of other track");
}
struct Parsed {
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info;
    std::vector<AbstractTrack *> tracks;
    bool failed = false;
    explicit Parsed(const std::string &bytes)
        : info(std::string("f.mp4"))
    {
        fs_put("f.mp4", bytes);
        info.open(true);
        info.parseContainerFormat(diag, progress);
        sx_assert(info.containerFormat() == ContainerFormat::Mp4, "format");
        info.parseTracks(diag, progress);
        tracks = info.tracks();
    }
    Mp4Track &track(size_t i = 0)
    {
        sx_assert(tracks.size() > i && tracks[i]->type() == TrackType::Mp4Track, "track is present");
        return static_cast<Mp4Track &>(*tracks[i]);
    }
    void complain()
    {
        for (const auto &m : diag)
            if (m.level() >= DiagLevel::Warning) sx_note("%s: %s", m.context().c_str(), m.message().c_str());
    }
};
static std::string file(const std::string &tracks, const std::string &extra = std::string()) { return mp4::ftyp() + atom("moov", mp4::mvhd() + tracks) + extra; }
static void noProblems(Parsed &p)
{
    p.complain();
    sx_assert(!hasWarning(p.diag), "no problems");
}
static std::int64_t seconds(std::uint64_t s) { return static_cast<std::int64_t>(s) * 10000000; }
static const std::uint32_t scales[] = { 0, 1, 600, 1000, 44100, 48000, 90000, 10000000, 0xFFFFFFFF };

// flags, ID, times, language and duration
//@ quick=60 thorough=300 threads=6 reach=v0,v1,unsupported,maximum
SX_HARNESS(header)
{
    const unsigned tv = sx_choice(3, "version of tkhd"), mv = sx_choice(3, "version of mdhd");
    sx_assume(tv == 2 || mv == 2 || tv == mv || SX_THOROUGH);
    const auto flags = sx_string(3, "flags"), id = sx_string(4, "id"), lang = sx_string(2, "language");
    sx_assume_((lang[0] & 0x80) == 0);
    const auto times = sx_string(8, "times");
    const auto scale = scales[sx_choice(std::size(scales), "time scale")];
    std::string duration = be(0, 4);
    // one arbitrary byte
    const unsigned where = sx_choice(5, "position");
    const auto db = sx_string(1, "duration");
    std::uint64_t d = static_cast<unsigned char>(db[0]);
    if (where == 1) d = d << 8 | 0x12340056;
    else if (where == 2) d = (mv == 1 ? d << 40 : d << 24) | 0x123456;
    else if (where == 3) d = mv == 1 ? d << 56 | 0x7654321 : d << 16;
    else if (where == 4) d = mv == 1 ? std::numeric_limits<std::uint64_t>::max() : 0xFFFFFFFF;
    Parts p;
    const auto w = [](unsigned v) { return v == 1 ? 8u : 4u; };
    const auto wide = [](unsigned v, const std::string &four) { return v == 1 ? std::string("\0\0\0\1", 4) + four : four; };
    const auto tk = static_cast<char>(tv) + flags + wide(tv, "abcd") + wide(tv, "efgh") + id + be(0, 4) + be(5, w(tv)) + std::string(60, '\1');
    p.tkhd = atom("tkhd", tk);
    p.mdhd = atom("mdhd", static_cast<char>(mv) + be(0, 3) + wide(mv, times.substr(0, 4)) + wide(mv, times.substr(4)) + be(scale, 4) + be(d, w(mv)) + lang + be(0, 2));
    Parsed r(file(p.make() + other()));
    auto &t = r.track();
    if (tv == 2 || mv == 2) {
        sx_assert(hasWarning(r.diag), "unsupported version is reported");
        sx_reach("unsupported");
    } else
        noProblems(r);
    sx_assert(t.isHeaderValid(), "track is valid");
    const auto f = rdbe(flags, 0, 3);
    sx_assert(t.isEnabled() == ((f & 1) != 0), "enabled");
    sx_assert(static_cast<bool>(t.flags() & TrackFlags::UsedInPresentation) == ((f & 2) != 0), "used in presentation");
    sx_assert(static_cast<bool>(t.flags() & TrackFlags::UsedWhenPreviewing) == ((f & 4) != 0), "used when previewing");
    sx_assert(t.id() == (tv == 2 ? 0 : rdbe(id, 0, 4)), "ID");
    if (mv != 2) {
        const auto hi = mv == 1 ? 0x100000000ull : 0ull;
        sx_assert((t.creationTime() - Mp4Container::epoch).totalTicks() == seconds(hi + rdbe(times, 0, 4)), "creation time");
        sx_assert((t.modificationTime() - Mp4Container::epoch).totalTicks() == seconds(hi + rdbe(times, 4, 4)), "modification time");
        sx_assert(t.timeScale() == scale, "time scale");
        const auto ticks = t.duration().totalTicks();
        if (!scale) sx_assert(ticks == 0, "duration without time scale");
        else if (d / scale >= 922337203685ull) {
            sx_assert(ticks > seconds(922337203684ll), "longest duration");
            sx_reach("maximum");
        } else {
            const auto s = d / scale;
            sx_assert(ticks >= seconds(s) && ticks < seconds(s + 1), "seconds of duration");
            const auto rest = (d - s * scale) * 10000000, got = static_cast<std::uint64_t>(ticks - seconds(s));
            sx_assert(got * scale <= rest && rest - got * scale < scale, "fraction of duration");
        }
        const auto l = rdbe(lang, 0, 2);
        if (l) {
            sx_assert(t.locale().size() == 1 && t.locale().front().format == LocaleFormat::ISO_639_2_T, "language is present");
            const char code[] = { static_cast<char>(0x60 + (l >> 10 & 31)), static_cast<char>(0x60 + (l >> 5 & 31)), static_cast<char>(0x60 + (l & 31)) };
            sx_assert_eq(t.locale().front(), std::string_view(code, 3), "language");
        } else
            sx_assert(t.locale().empty(), "no language");
        sx_reach(mv ? "v1" : "v0");
    }
    checkOther(r.track(1));
}
// header of the whole file
//@ quick=40 thorough=120 threads=6 reach=v0,v1,fragments,short
SX_HARNESS(movie)
{
    const unsigned v = sx_choice(2, "version"), w = v ? 8 : 4;
    const auto scale = scales[sx_choice(std::size(scales), "time scale")];
    const auto times = sx_string(4, "times"), db = sx_string(1, "duration");
    const auto d = static_cast<std::uint64_t>(rdbe(db, 0, 1)) << (v ? 28 : 16) | 0x1234;
    auto mvhd = static_cast<char>(v) + be(0, 3) + std::string(w - 4, '\0') + times + be(9, w) + be(scale, 4) + be(d, w) + be(0x10000, 4) + std::string(76, '\0') + be(3, 4);
    const bool fragments = sx_flag("fragments"), cut = !fragments && sx_flag("short");
    if (cut) mvhd.resize(v ? 31 : 19);
    std::string mvex;
    if (fragments) mvex = atom("mvex", atom("mehd", static_cast<char>(v) + be(0, 3) + be(d, w)) + atom("trex", be(0, 4) + be(77, 4) + be(1, 4) + be(0, 12)));
    if (fragments) mvhd.replace(8 + 2 * w, w, std::string(w, '\0'));
    Parsed r(mp4::ftyp() + atom("moov", atom("mvhd", mvhd) + mvex + other()));
    checkOther(r.track());
    auto *const c = r.info.container();
    if (cut) {
        sx_assert(hasWarning(r.diag), "too short header is reported");
        sx_reach("short");
        return;
    }
    noProblems(r);
    sx_assert(c->timeScale() == scale, "time scale");
    sx_assert((c->creationTime() - Mp4Container::epoch).totalTicks() == seconds(rdbe(times, 0, 4)), "creation time");
    sx_assert((c->modificationTime() - Mp4Container::epoch).totalTicks() == seconds(9), "modification time");
    const auto ticks = c->duration().totalTicks();
    if (!scale || d * 10000000 < scale) sx_assert(ticks == 20000000, "duration is determined from tracks if not denoted");
    else {
        const auto s = d / scale;
        sx_assert(ticks >= seconds(s) && ticks < seconds(s + 1), "seconds of duration");
        const auto rest = (d - s * scale) * 10000000, got = static_cast<std::uint64_t>(ticks - seconds(s));
        sx_assert(got * scale <= rest && rest - got * scale < scale, "fraction of duration");
    }
    sx_reach(v ? "v1" : "v0");
    sx_assert(static_cast<Mp4Container *>(c)->isFragmented() == fragments, "fragmented");
    if (fragments) sx_reach("fragments");
}
// type and name of the handler
//@ quick=40 thorough=120 threads=6 reach=terminated,prefixed,plain,empty,short
SX_HARNESS(handler)
{
    static const char *const types[] = { "vide", "soun", "hint", "meta", "text", "subp" };
    static const MediaType expected[] = { MediaType::Video, MediaType::Audio, MediaType::Hint, MediaType::Meta, MediaType::Text, MediaType::Unknown };
    const unsigned type = sx_choice(6, "type"), kind = sx_choice(5, "kind"), n = sx_choice(SX_THOROUGH ? 6 : 4, "size");
    sx_assume(type < 2 || n < 2);
    const auto name = sx_string(n, "name");
    for (const char c : name) sx_assume_(c != 0);
    std::string s = std::string(8, '\0') + types[type] + std::string(12, '\0');
    std::string want = name;
    switch (kind) {
    case 0:
        s += name + '\0';
        sx_reach("terminated");
        break;
    case 1: // as in QuickTime files
        s += static_cast<char>(n) + name;
        sx_reach("prefixed");
        break;
    case 2: // terminator missing
        if (n) sx_assume_(static_cast<unsigned char>(name[0]) != n - 1);
        s += name;
        sx_reach("plain");
        break;
    case 3: // junk after terminator
        s += name + std::string("\0zz", 3);
        if (n) sx_assume_(static_cast<unsigned char>(name[0]) != n + 2);
        else sx_reach("empty");
        break;
    default:
        s.resize(8 + n);
        want.clear();
        sx_reach("short");
        break;
    }
    Parts p;
    p.hdlr = atom("hdlr", s);
    Parsed r(file(p.make() + other()));
    auto &t = r.track();
    checkOther(r.track(1));
    if (kind == 4 && n < 4) {
        sx_assert(hasWarning(r.diag), "too short handler is reported");
        sx_assert(t.mediaType() == MediaType::Unknown, "unknown type");
    } else {
        noProblems(r);
        sx_assert(t.mediaType() == expected[type], "type");
    }
    sx_assert_eq(t.name(), want, "name");
}
// sizes of samples
//@ quick=60 thorough=300 threads=6 reach=constant,4,8,16,32,less,more,unsupported
SX_HARNESS(samples)
{
    static const unsigned sizes[] = { 32, 4, 8, 16, 0, 3, 64 };
    const unsigned bits = sizes[sx_choice(std::size(sizes), "field size")], n = sx_choice(5, "entries"), kind = sx_choice(4, "kind");
    const bool compact = bits != 32;
    const bool constant = !compact && sx_flag("constant");
    // denoted number of entries
    std::uint64_t count = n;
    if (kind == 1) count = n ? n - 1 : 0;
    else if (kind == 2) count = n + 1;
    else if (kind == 3) count = 0xFFFFFFFF;
    const auto data = sx_string((n * bits + 7) / 8, "entries");
    const auto size = sx_string(4, "constant size");
    if (constant) sx_assume_(rdbe(size, 0, 4) != 0);
    const auto head = compact ? be(0, 3) + static_cast<char>(bits) : constant ? size : be(0, 4);
    Parts p;
    p.stsz = atom(compact ? "stz2" : "stsz", be(0, 4) + head + be(count, 4) + (constant ? std::string() : data));
    Parsed r(file(p.make() + other()));
    auto &t = r.track();
    checkOther(r.track(1));
    sx_assert(t.sampleCount() == count, "number of samples");
    if (constant) {
        noProblems(r);
        sx_assert(t.sampleSizes().size() == 1 && t.sampleSizes()[0] == rdbe(size, 0, 4), "constant size");
        sx_assert(t.size() == rdbe(size, 0, 4) * count, "size of track");
        sx_reach("constant");
        return;
    }
    if (bits != 4 && bits != 8 && bits != 16 && bits != 32) {
        sx_assert(hasWarning(r.diag), "unsupported field size is reported");
        sx_assert(t.sampleSizes().empty() && t.size() == 0, "no sizes");
        sx_reach("unsupported");
        return;
    }
    const auto present = data.size() * 8 / bits; // including padding of 4-bit entries
    const auto expected = std::min<std::uint64_t>(count, present);
    if (count > present) {
        sx_assert(hasWarning(r.diag), "missing sizes are reported");
        sx_reach("less");
    } else if ((count * bits + 7) / 8 < data.size()) {
        sx_assert(hasWarning(r.diag), "additional sizes are reported");
        sx_reach("more");
    } else
        noProblems(r);
    sx_assert(t.sampleSizes().size() == expected, "number of sizes");
    std::uint64_t total = 0;
    for (size_t i = 0; i < expected; ++i) {
        std::uint64_t want;
        if (bits == 4) want = i % 2 ? data[i / 2] & 0xF : (data[i / 2] >> 4) & 0xF;
        else want = rdbe(data, i * bits / 8, bits / 8);
        sx_assert(t.sampleSizes()[i] == want, "size of sample");
        total += want;
    }
    sx_assert(t.size() == total, "size of track");
    sx_reach(bits == 4 ? "4" : bits == 8 ? "8" : bits == 16 ? "16" : "32");
}
// offsets and sizes of chunks
//@ quick=90 thorough=300 threads=8 reach=complete,damaged,empty,64,first,more
SX_HARNESS(chunks)
{
    const bool wide = sx_flag("64-bit");
    const unsigned w = wide ? 8 : 4, n = sx_choice(4, "chunks"), delta = sx_choice(4, "kind"), entries = sx_choice(4, "entries");
    std::uint64_t count = n;
    if (delta == 1) count = n ? n - 1 : 0;
    else if (delta == 2) count = n + 1;
    else if (delta == 3) count = 0xFFFFFFFF;
    const auto offsets = sx_string(n * w, "offsets");
    std::vector<unsigned> first, per;
    std::string stsc;
    sx_assume(SX_THOROUGH || delta == 0 || entries < 2);
    for (unsigned i = 0; i < entries; ++i) {
        first.push_back(sx_choice(3, "first chunk") + i + !i - (i > 1));
        per.push_back(sx_choice(3, "samples"));
        stsc += be(first[i], 4) + be(per[i], 4) + be(1, 4);
    }
    const auto sizes = sx_string(4 * 2, "sizes");
    const bool constant = sx_flag("constant");
    if (constant) sx_assume_(rdbe(sizes, 0, 2) != 0);
    std::string stsz = be(0, 4);
    if (constant) stsz += be(0, 2) + sizes.substr(0, 2) + be(4, 4);
    else {
        stsz += be(0, 4) + be(4, 4);
        for (unsigned i = 0; i < 4; ++i) stsz += be(0, 2) + sizes.substr(2 * i, 2);
    }
    Parts p;
    p.stco = atom(wide ? "co64" : "stco", be(0, 4) + be(count, 4) + offsets);
    p.stsc = atom("stsc", be(0, 4) + be(entries, 4) + stsc);
    p.stsz = atom("stsz", stsz);
    Parsed r(file(p.make() + other()));
    auto &t = r.track();
    checkOther(r.track(1));
    noProblems(r);
    sx_assert(t.chunkCount() == count && t.chunkOffsetSize() == w && t.sampleToChunkEntryCount() == entries, "denoted number of chunks");
    const auto present = static_cast<unsigned>(std::min<std::uint64_t>(count, n));
    bool failed = false;
    std::vector<std::uint64_t> got;
    Diagnostics diag;
    try {
        got = t.readChunkOffsets(false, diag);
    } catch (const InvalidDataException &) {
        failed = true;
    }
    if (count && !n) sx_assert(failed, "missing offsets");
    else {
        sx_assert(!failed && got.size() == present, "number of offsets");
        for (unsigned i = 0; i < present; ++i) sx_assert(got[i] == rdbe(offsets, i * w, w), "offset");
    }
    sx_assert((count != n) == hasWarning(diag), "damaged offsets are reported");
    diag.clear();
    const auto table = t.readSampleToChunkTable(diag);
    sx_assert(!hasWarning(diag) && table.size() == entries, "entries of samples per chunk");
    for (unsigned i = 0; i < entries; ++i) sx_assert(std::get<0>(table[i]) == first[i] && std::get<1>(table[i]) == per[i] && std::get<2>(table[i]) == 1, "entry of samples per chunk");
    // sizes of chunks
    bool valid = entries == 0 || first[0] == 1;
    for (unsigned i = 1; i < entries; ++i) valid = valid && first[i] > first[i - 1] && first[i] <= present;
    std::vector<std::uint64_t> want;
    unsigned sample = 0;
    if (valid && entries)
        for (unsigned c = 1, e = 0; c <= present; ++c) {
            while (e + 1 < entries && first[e + 1] <= c) ++e;
            std::uint64_t sum = 0;
            for (unsigned k = 0; k < per[e]; ++k, ++sample) sum += rdbe(sizes, constant || sample > 3 ? 0 : 2 * sample, 2);
            want.push_back(sum);
        }
    if (sample > 4) valid = false; // more samples than denoted
    got.clear();
    diag.clear();
    failed = false;
    try {
        got = t.readChunkSizes(diag);
    } catch (const InvalidDataException &) {
        failed = true;
    }
    if (!valid) {
        sx_reach("damaged");
        if (sample > 4 && constant) return;
        sx_assert(hasWarning(diag), "damaged table is reported");
        return;
    }
    sx_assert(!failed && got.size() == want.size(), "number of chunk sizes");
    for (size_t i = 0; i < want.size(); ++i) sx_assert(got[i] == want[i], "size of chunk");
    if (!entries) sx_reach("empty");
    if (wide) sx_reach("64");
    if (entries > 1) sx_reach("more");
    if (present) sx_reach("complete");
    if (present && entries == 1) sx_reach("first");
}

// samples of fragments
//@ quick=60 thorough=300 threads=8 reach=defaults,entries,foreign,short,duration,two
SX_HARNESS(fragments)
{
    // which fields are present
    const unsigned fields = sx_choice(32, "fields");
    const unsigned few[] = { 0, 12, 31 };
    const bool most = SX_THOROUGH || fields == 0 || fields == 2 || fields == 31;
    const unsigned defaults = most ? sx_choice(32, "defaults") : few[sx_choice(3, "defaults")];
    const unsigned count = sx_choice(3, "samples"), kind = sx_choice(5, "kind");
    sx_assume(SX_THOROUGH || !most || defaults % 3 == 0 || kind == 0);
    const bool present = sx_flag("sample sizes"), foreign = sx_flag("foreign"), durationKnown = sx_flag("duration"), two = sx_flag("two");
    sx_assume((!foreign && !two) || kind == 0);
    sx_assume(kind == 0 || count == 2);
    sx_assume((!present && !durationKnown) || (kind == 0 && !foreign && !two));
    if (!SX_THOROUGH) sx_assume((kind == 0 && !foreign && !two) || defaults == 0 || defaults == 12 || defaults == 31);
    if (!SX_THOROUGH) sx_assume(count == 2 || fields == 0 || fields == 31);
    static const unsigned tfhdFlags[] = { 1, 2, 8, 0x10, 0x20 }, trunFlags[] = { 0x100, 0x200, 0x400, 0x800, 1 };
    const auto size = be(0, 2) + sx_string(2, "default size"), duration = be(300, 2), sizes = sx_string(4 * 2, "sizes"), durations = be(5, 2) + be(0x1100, 2);
    unsigned f = 0;
    std::string tfhd;
    std::uint64_t defaultSize = 0, defaultDuration = 0;
    for (unsigned i = 0; i < 5; ++i) {
        if (!(defaults & (1 << i))) continue;
        f |= tfhdFlags[i];
        if (i == 3) defaultSize = rdbe(size, 0, 4);
        if (i == 2) defaultDuration = rdbe(duration, 0, 2);
        tfhd += i == 0 ? be(100, 8) : i == 3 ? size : i == 2 ? be(0, 2) + duration : be(0x01020304, 4);
    }
    tfhd = be(f, 4) + be(foreign ? 5 : 1, 4) + tfhd;
    f = 0;
    std::string trun;
    if (fields & 16) {
        f |= 5; // also flags of first sample
        trun += be(50, 4) + be(60, 4);
    }
    std::uint64_t total = 0, ticks = 0;
    std::vector<std::uint64_t> want;
    for (unsigned i = 0; i < 4; ++i)
        if (fields & (1 << i)) f |= trunFlags[i];
    for (unsigned s = 0; s < count; ++s) {
        if (fields & 1) {
            trun += be(0, 2) + durations.substr(2 * s, 2);
            ticks += rdbe(durations, 2 * s, 2);
        } else
            ticks += defaultDuration;
        if (fields & 2) {
            trun += sizes.substr(4 * s, 4);
            want.push_back(rdbe(sizes, 4 * s, 4));
            total += want.back();
        } else
            total += defaultSize;
        if (fields & 4) trun += be(0x11223344, 4);
        if (fields & 8) trun += be(0x55667788, 4);
    }
    std::uint64_t n = count;
    bool damaged = false;
    trun = be(f, 4) + be(n, 4) + trun;
    const unsigned entry = 4 * ((fields & 1) + (fields >> 1 & 1) + (fields >> 2 & 1) + (fields >> 3 & 1));
    switch (kind) {
    case 1:
        trun.resize(trun.size() - 1);
        damaged = true;
        break;
    case 2: // more samples than present
        sx_assume(entry != 0);
        n = 0xFFFFFFFF;
        trun.replace(4, 4, be(n, 4));
        damaged = true;
        break;
    case 3: // all samples have default size and duration
        sx_assume(entry == 0);
        n = 0xFFFFFFFF;
        trun.replace(4, 4, be(n, 4));
        total = defaultSize * n;
        ticks = defaultDuration * n;
        break;
    case 4:
        tfhd.resize(tfhd.size() - 1);
        damaged = true;
        break;
    default:;
    }
    Parts p;
    if (!durationKnown) p.mdhd = atom("mdhd", be(0, 4) + be(1, 4) + be(2, 4) + be(1, 4) + be(0, 4) + be(0x15c7, 2) + be(0, 2));
    const auto ownSize = sx_string(2, "size");
    if (present) p.stsz = atom("stsz", be(0, 4) + be(0, 4) + be(1, 4) + be(0, 2) + ownSize);
    const auto traf = atom("traf", atom("tfhd", tfhd) + atom("trun", trun));
    auto moof = atom("moof", atom("mfhd", be(0, 4) + be(1, 4)) + (two ? traf + traf : traf));
    Parsed r(file(p.make() + other(), moof + atom("mdat", "abcdef")));
    checkOther(r.track(1));
    auto &t = r.track();
    sx_assert(t.isHeaderValid(), "track is valid");
    const auto own = present ? rdbe(ownSize, 0, 2) : 0;
    if (damaged) {
        sx_assert(foreign || hasWarning(r.diag), "damaged fragment is reported");
        sx_reach("short");
        return;
    }
    noProblems(r);
    const unsigned times = foreign ? 0 : two ? 2 : 1;
    const auto repeat = [times](std::uint64_t v) { return times == 2 ? v + v : times ? v : 0; };
    total = repeat(total), ticks = repeat(ticks);
    sx_assert(t.sampleCount() == present + n * times, "number of samples");
    sx_assert(t.size() == own + total, "size of track");
    if (foreign) {
        sx_assert(t.sampleSizes().size() == present, "samples of other tracks are ignored");
        sx_reach("foreign");
        return;
    }
    if (fields & 2) {
        sx_assert(t.sampleSizes().size() >= present + count * times, "number of sizes");
        for (unsigned i = 0; i < times; ++i)
            for (unsigned s = 0; s < count; ++s) sx_assert(t.sampleSizes()[present + i * count + s] == want[s], "size of sample");
        sx_reach("entries");
    } else if (defaultSize && !present) {
        sx_assert(t.sampleSizes().size() == 1 && t.sampleSizes()[0] == defaultSize, "default size");
        sx_reach("defaults");
    }
    if (two) sx_reach("two");
    if (durationKnown) sx_assert(t.duration().totalTicks() == 20000000, "denoted duration");
    else {
        if (ticks >= 922337203685ull) sx_assert(t.duration().totalTicks() > seconds(922337203684ll), "longest duration");
        else sx_assert(t.duration().totalTicks() == static_cast<std::int64_t>(ticks) * 10000000, "duration of fragments");
        sx_reach("duration");
    }
}
static std::string entry(const char *id, const std::string &content) { return atom("stsd", be(0, 4) + be(1, 4) + atom(id, content)); }
static std::string sound(unsigned version, const std::string &channels, const std::string &bits, const std::string &rate)
{
    auto s = std::string(6, '\0') + be(1, 2) + be(version, 2) + std::string(6, '\0') + channels + bits + be(0, 4) + rate;
    if (version == 1) s += std::string(16, '\3');
    if (version == 2) s += std::string(36, '\3');
    return s;
}
// descriptor with size of 1 to 4 byte
static std::string descriptor(unsigned id, const std::string &content, unsigned sizeBytes = 1)
{
    std::string s(1, static_cast<char>(id));
    for (unsigned i = sizeBytes; i > 0; --i) s += static_cast<char>((content.size() >> (7 * (i - 1)) & 0x7F) | (i > 1 ? 0x80 : 0));
    return s + content;
}
static std::string esds(unsigned objectType, const std::string &specific, unsigned sizeBytes, unsigned flags, const std::string &rates, const std::string &id)
{
    const auto config = std::string(1, static_cast<char>(objectType)) + '\x15' + be(0x010203, 3) + rates;
    std::string es = id + static_cast<char>(flags);
    if (flags & 0x80) es += be(0x1234, 2);
    if (flags & 0x40) es += "\3url";
    if (flags & 0x20) es += be(0x5678, 2);
    es += descriptor(4, config + (specific.empty() ? std::string() : descriptor(5, specific, sizeBytes)), sizeBytes) + descriptor(6, "\2", sizeBytes);
    return atom("esds", be(0, 4) + descriptor(3, es, sizeBytes));
}
// sample entries of audio tracks
//@ quick=40 thorough=120 threads=6 reach=v0,v1,v2,mlp,format
SX_HARNESS(audio)
{
    static const char *const ids[] = { "mp4a", "samr", "ac-3", "ec-3", "alac", "mlpa", "dtsl", "dtsh", "dtse", "fLaC", "Opus" };
    static const GeneralMediaFormat formats[] = { GeneralMediaFormat::Aac, GeneralMediaFormat::Amr, GeneralMediaFormat::Ac3, GeneralMediaFormat::EAc3, GeneralMediaFormat::Alac, GeneralMediaFormat::DolbyMlp,
        GeneralMediaFormat::Dts, GeneralMediaFormat::Dts, GeneralMediaFormat::Dts, GeneralMediaFormat::Flac, GeneralMediaFormat::Opus };
    const unsigned i = sx_choice(std::size(ids), "format"), version = sx_choice(3, "version");
    const bool esds = i == 0 && sx_flag("esds");
    const auto channels = sx_string(2, "channels"), bits = sx_string(2, "bits"), rate = sx_string(4, "rate"), rates = sx_string(8, "bit rates"), id = sx_string(2, "id");
    Parts p;
    p.stsd = entry(ids[i], sound(version, channels, bits, rate) + (esds ? ::esds(0x69, std::string(), 1, 0, rates, id) : std::string()));
    if (esds) p.stsd = entry(ids[i], sound(version, channels, bits, rate) + ::esds(0xA5, std::string(), 1, 0, rates, id));
    Parsed r(file(p.make() + other()));
    checkOther(r.track(1));
    auto &t = r.track();
    noProblems(r);
    sx_assert_eq(t.formatId(), ids[i], "format ID");
    sx_assert(t.channelCount() == rdbe(channels, 0, 2), "number of channels");
    sx_assert(t.bitsPerSample() == rdbe(bits, 0, 2), "bits per sample");
    sx_assert(t.samplingFrequency() == (i == 5 ? rdbe(rate, 0, 4) : rdbe(rate, 0, 2)), "sampling frequency");
    if (esds) {
        const auto *const e = t.mpeg4ElementaryStreamInfo();
        sx_assert(e && e->objectTypeId == 0xA5 && e->id == rdbe(id, 0, 2), "elementary stream descriptor is found");
        sx_assert(e->maxBitrate == rdbe(rates, 0, 4) && e->averageBitrate == rdbe(rates, 4, 4) && e->bufferSize == 0x010203, "bit rates");
        sx_assert(t.format().general == GeneralMediaFormat::Ac3, "format of elementary stream");
    } else {
        sx_assert(!t.mpeg4ElementaryStreamInfo(), "no elementary stream descriptor");
        sx_assert(t.format().general == formats[i], "format");
    }
    sx_reach(version == 0 ? "v0" : version == 1 ? "v1" : "v2");
    if (i == 5) sx_reach("mlp");
    if (esds) sx_reach("format");
}
// sample entries of video tracks
//@ quick=40 thorough=120 threads=6 reach=name,empty,long
SX_HARNESS(video)
{
    static const char *const ids[] = { "mp4v", "s263", "hev1", "vp09", "avc1" };
    static const GeneralMediaFormat formats[] = { GeneralMediaFormat::Mpeg4Video, GeneralMediaFormat::Unknown, GeneralMediaFormat::Hevc, GeneralMediaFormat::Vp9, GeneralMediaFormat::Avc };
    const unsigned i = sx_choice(std::size(ids), "format");
    const auto size = sx_string(4, "size"), res = sx_string(4, "resolution"), depth = sx_string(2, "depth"), length = sx_string(1, "length"), name = sx_string(2, "name");
    const auto n = static_cast<unsigned char>(length[0]);
    sx_assume_(n < 4 || n > 30);
    const auto all = name + std::string(29, 'n');
    Parts p;
    p.hdlr = mp4::hdlr("vide", "V");
    p.stsd = entry(ids[i], std::string(6, '\0') + be(1, 2) + std::string(16, '\0') + size + res.substr(0, 2) + be(0x1234, 2) + res.substr(2) + be(0x5678, 2) + be(0, 4) + be(1, 2) + length + all + depth + be(0xFFFF, 2));
    Parsed r(file(p.make() + other()));
    checkOther(r.track(1));
    auto &t = r.track();
    noProblems(r);
    sx_assert_eq(t.formatId(), ids[i], "format ID");
    if (i != 1) sx_assert(t.format().general == formats[i], "format");
    sx_assert(t.pixelSize().width() == rdbe(size, 0, 2) && t.pixelSize().height() == rdbe(size, 2, 2), "size");
    sx_assert(t.resolution().width() == rdbe(res, 0, 2) && t.resolution().height() == rdbe(res, 2, 2), "resolution");
    sx_assert(t.depth() == rdbe(depth, 0, 2), "depth");
    const unsigned want = sx_concretize(n < 32 ? n : 31);
    sx_assert_eq(t.compressorName(), std::string_view(all).substr(0, want), "compressor");
    sx_reach(n == 0 ? "empty" : n < 31 ? "name" : "long");
}

// reads bits from the most to the least significant one
struct Bits {
    const std::string &s;
    size_t at = 0;
    bool truncated = false;
    std::uint32_t get(unsigned n)
    {
        std::uint32_t v = 0;
        if (truncated || s.size() * 8 - at < n) {
            truncated = true;
            return 0;
        }
        for (; n; --n, ++at) v = v << 1 | ((static_cast<unsigned char>(s[at / 8]) >> (7 - at % 8)) & 1);
        return v;
    }
    size_t left() const { return s.size() * 8 - at; }
};
struct AudioConfig {
    unsigned type = 0, index = 15, rate = 0, channels = 0, extType = 0, extIndex = 15, extRate = 0, extChannels = 0;
    bool sbr = false, ps = false, supported = true, truncated = false;
    static unsigned objectType(Bits &b)
    {
        const auto t = b.get(5);
        return t == 31 ? 32 + b.get(6) : t;
    }
    explicit AudioConfig(const std::string &s)
    {
        Bits b{ s };
        read(b);
        truncated = b.truncated;
    }
    void read(Bits &b)
    {
        type = objectType(b);
        index = b.get(4);
        if (index == 15) rate = b.get(24);
        channels = b.get(4);
        if (b.truncated) return;
        if (type == 5 || type == 29) {
            extType = type;
            sbr = true;
            ps = type == 29;
            extIndex = b.get(4);
            if (extIndex == 15) extRate = b.get(24);
            type = objectType(b);
            if (type == 22) extChannels = b.get(4);
        }
        if (b.truncated) return;
        switch (type) {
        case 1: case 2: case 3: case 4: case 6: case 7: case 17: case 19: case 20: case 21: case 22: case 23: break;
        default: supported = false; return;
        }
        // 3 is not supported
        if (type == 3) {
            supported = false;
            return;
        }
        b.get(1);
        if (b.get(1)) b.get(14);
        const bool ext = b.get(1);
        if (b.truncated) return;
        if (!channels) {
            supported = false; // program config
            return;
        }
        if (type == 6 || type == 20) b.get(3);
        if (ext) {
            if (type == 22) b.get(16);
            if (type == 17 || type == 19 || type == 20 || type == 23) b.get(3);
            if (b.get(1)) {
                supported = false;
                return;
            }
        }
        if (type >= 17) {
            if (b.get(2) > 1) {
                supported = false;
                return;
            }
        }
        if (b.truncated) return;
        if (extType != 5 && extType != 29 && b.left() >= 16) {
            const auto sync = b.get(11);
            if (sync == 0x2B7) {
                extType = objectType(b);
                if (extType == 5 || extType == 22) {
                    sbr = b.get(1);
                    if (sbr) {
                        extIndex = b.get(4);
                        if (extIndex == 15) extRate = b.get(24);
                        if (extType == 5 && !b.truncated && b.left() >= 12 && b.get(11) == 0x548) ps = b.get(1);
                    }
                    if (extType == 22) extChannels = b.get(4);
                }
            } else if (sync == 0x548)
                ps = b.get(1);
        }
    }
};
static const unsigned rates[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
static void checkAudio(Mp4Track &t, const AudioConfig &want, const Mpeg4AudioSpecificConfig &got)
{
    sx_assert(got.audioObjectType == want.type, "object type");
    sx_assert(got.sampleFrequencyIndex == want.index && got.sampleFrequency == want.rate, "sampling frequency of config");
    sx_assert(got.channelConfiguration == want.channels, "channels of config");
    sx_assert(got.sbrPresent == want.sbr, "spectral band replication");
    sx_assert(got.psPresent == want.ps, "parametric stereo");
    sx_assert(got.extensionSampleFrequencyIndex == want.extIndex && got.extensionSampleFrequency == want.extRate, "extension sampling frequency of config");
    const auto rate = [](unsigned index, unsigned rate) { return index == 15 ? rate : index < std::size(rates) ? rates[index] : 0; };
    if (want.index < 13 || want.index == 15) sx_assert(t.samplingFrequency() == rate(want.index, want.rate), "sampling frequency");
    sx_assert(t.extensionSamplingFrequency() == rate(want.extIndex, want.extRate), "extension sampling frequency");
    sx_assert(t.channelConfig() == want.channels, "channels");
}
// audio configuration of elementary streams
//@ quick=90 thorough=400 threads=8 reach=plain,sbr,ps,truncated,unsupported,sync
SX_HARNESS(config)
{
    const unsigned n = sx_choice(SX_THOROUGH ? 8 : 7, "size") + 1;
    const auto specific = sx_string(n, "config");
    const AudioConfig want(specific);
    Parts p;
    p.stsd = entry("mp4a", sound(0, be(2, 2), be(16, 2), be(44100, 2) + be(0, 2)) + esds(0x40, specific, 1, 0, be(0, 8), be(1, 2)));
    Parsed r(file(p.make()));
    auto &t = r.track();
    sx_assert(t.isHeaderValid(), "track is valid");
    const auto *const e = t.mpeg4ElementaryStreamInfo();
    sx_assert(e && e->audioSpecificConfig, "config is present");
    if (want.truncated) {
        sx_assert(hasWarning(r.diag), "truncated config is reported");
        sx_reach("truncated");
        return;
    }
    sx_assert(hasWarning(r.diag) == (want.index == 13 || want.index == 14 || want.extIndex == 13 || want.extIndex == 14), "problems");
    if (!want.supported) sx_reach("unsupported");
    checkAudio(t, want, *e->audioSpecificConfig);
    if (want.sbr && want.extType == want.type) sx_reach("sync");
    sx_reach(want.ps ? "ps" : want.sbr ? "sbr" : "plain");
}
// usual configurations with backward compatible extension
//@ quick=60 thorough=200 threads=8 reach=sbr,ps,none
SX_HARNESS(extension)
{
    static const unsigned types[] = { 1, 2, 4, 17, 19, 23 };
    const unsigned type = types[sx_choice(std::size(types), "type")];
    const auto tail = sx_string(SX_THOROUGH ? 9 : 6, "extension"), head = sx_string(1, "frequency and channels");
    sx_assume_((head[0] & 0xF) != 0);
    // type, index, channels, three flags of GASpecificConfig, epConfig
    const auto x = static_cast<unsigned char>(head[0]);
    std::uint32_t bits = type;
    bits = bits << 8 | x;
    unsigned have = 13;
    if (x >> 4 == 15) return;
    bits <<= 3, have += 3;
    if (type >= 17) bits <<= 2, have += 2;
    // sync extension and its type are aligned within the following
    bits = bits << 11 | 0x2B7, have += 11;
    const unsigned rest = (8 - have % 8) % 8;
    std::string specific = be(static_cast<std::uint64_t>(bits) << rest, (have + rest) / 8);
    if (rest) specific.back() = static_cast<char>(specific.back() | (static_cast<unsigned char>(tail[0]) & ((1 << rest) - 1)));
    specific += tail.substr(1);
    const AudioConfig want(specific);
    Parts p;
    p.stsd = entry("mp4a", sound(0, be(2, 2), be(16, 2), be(44100, 2) + be(0, 2)) + esds(0x40, specific, 1, 0, be(0, 8), be(1, 2)));
    Parsed r(file(p.make()));
    auto &t = r.track();
    const auto *const e = t.mpeg4ElementaryStreamInfo();
    sx_assert(e && e->audioSpecificConfig, "config is present");
    if (want.truncated) return;
    checkAudio(t, want, *e->audioSpecificConfig);
    sx_reach(want.ps ? "ps" : want.sbr ? "sbr" : "none");
}
// structure of elementary stream descriptors
//@ quick=60 thorough=200 threads=8 reach=complete,damaged
SX_HARNESS(descriptors)
{
    const unsigned sizeBytes = sx_choice(4, "size bytes") + 1, flags = sx_choice(8, "flags") << 5;
    const bool video = sx_flag("video");
    const auto specific = video ? std::string("\0\0\1\xB0\5\0\0\1\xB2ud\0\0\1\x20zz", 17) : std::string("\x12\x10", 2);
    const auto bitRates = sx_string(8, "bit rates"), id = sx_string(2, "id");
    auto atom = esds(video ? 0x20 : 0x40, specific, sizeBytes, flags, bitRates, id);
    const bool damage = sx_flag("damage");
    size_t at = 0;
    if (damage) {
        sx_assume(flags == (video ? 0xE0 : 0x80) && (sizeBytes == 1 || SX_THOROUGH) && (!video || SX_THOROUGH));
        at = 12 + sx_choice(static_cast<unsigned>(atom.size()) - 12, "position");
        const auto byte = sx_string(1, "byte");
        atom[at] = byte[0];
    }
    Parts p;
    p.stsd = video ? entry("mp4v", std::string(6, '\0') + be(1, 2) + std::string(70, '\0') + atom) : entry("mp4a", sound(0, be(2, 2), be(16, 2), be(44100, 2) + be(0, 2)) + atom);
    Parsed r(file(p.make() + other()));
    checkOther(r.track(1));
    auto &t = r.track();
    sx_assert(t.isHeaderValid(), "track is valid");
    if (damage) {
        sx_reach("damaged");
        return;
    }
    noProblems(r);
    const auto *const e = t.mpeg4ElementaryStreamInfo();
    sx_assert(e != nullptr, "elementary stream descriptor is present");
    sx_assert(e->id == rdbe(id, 0, 2) && e->esDescFlags == flags, "ID and flags");
    sx_assert(e->maxBitrate == rdbe(bitRates, 0, 4) && e->averageBitrate == rdbe(bitRates, 4, 4) && e->bufferSize == 0x010203, "bit rates");
    sx_assert(e->objectTypeId == (video ? 0x20 : 0x40) && e->decCfgDescFlags == 0x15, "object type");
    sx_assert(e->dependsOnId == (flags & 0x80 ? 0x1234 : 0) && e->ocrId == (flags & 0x20 ? 0x5678 : 0), "further IDs");
    sx_assert_eq(e->url, flags & 0x40 ? "url" : "", "URL");
    if (video) {
        sx_assert(e->videoSpecificConfig && e->videoSpecificConfig->profile == 5, "profile");
        sx_assert_eq(e->videoSpecificConfig->userData, "ud", "user data");
        sx_assert(t.format().general == GeneralMediaFormat::Mpeg4Video && t.format().sub == 5, "format");
    } else {
        sx_assert(e->audioSpecificConfig && e->audioSpecificConfig->audioObjectType == 2 && e->audioSpecificConfig->sampleFrequencyIndex == 4 && e->audioSpecificConfig->channelConfiguration == 2, "audio config");
        sx_assert(t.format().general == GeneralMediaFormat::Aac && t.samplingFrequency() == 44100 && t.channelConfig() == 2, "format");
    }
    sx_reach("complete");
}

// damaged tracks affect neither other tracks nor the program
//@ quick=90 thorough=600 threads=8 reach=valid,invalid
SX_HARNESS(damage)
{
    Parts p;
    p.stsd = entry("mp4a", sound(0, be(2, 2), be(16, 2), be(44100, 2) + be(0, 2)) + esds(0x6B, "\x12\x10", 1, 0, be(0, 8), be(1, 2)));
    p.stsc = atom("stsc", be(0, 4) + be(1, 4) + be(1, 4) + be(1, 4) + be(1, 4));
    p.stsz = atom(sx_flag("compact") ? "stz2" : "stsz", be(8, 4) + be(2, 4) + be(0x0304, 4) + be(5, 4));
    p.stco = atom("stco", be(0, 4) + be(2, 4) + be(40, 4) + be(50, 4));
    auto trak = p.make();
    // every position except those of the size of the track itself
    const auto at = sx_choice(static_cast<unsigned>(trak.size()) - 8, "position") + 8;
    // text and padding are not of interest
    const auto mdhd = trak.find("mdhd"), tkhd = trak.find("tkhd");
    sx_assume(!(at > tkhd + 4 + 24 && at < tkhd + 4 + 80));
    const auto byte = sx_string(1, "byte");
    (void)mdhd;
    trak[at] = byte[0];
    const bool last = sx_flag("last");
    Parsed r(file(last ? other() + trak : trak + other()));
    checkOther(r.track(last ? 0 : 1));
    auto &t = r.track(last ? 1 : 0);
    if (!t.isHeaderValid()) {
        sx_assert(hasWarning(r.diag), "invalid track is reported");
        sx_reach("invalid");
        return;
    }
    for (unsigned i = 0; i < 2; ++i) {
        try {
            if (i) t.readChunkSizes(r.diag);
            else t.readChunkOffsets(false, r.diag);
        } catch (const InvalidDataException &) {
            sx_assert(hasWarning(r.diag), "problem is reported");
        }
    }
    sx_reach("valid");
}
// truncated files
//@ quick=60 thorough=200 threads=8 reach=cut
SX_HARNESS(truncation)
{
    Parts p;
    const bool video = sx_flag("video");
    if (video) {
        p.hdlr = mp4::hdlr("vide", "V");
        p.stsd = entry("mp4v", std::string(6, '\0') + be(1, 2) + std::string(70, '\0') + esds(0x20, std::string("\0\0\1\xB0\5\0\0\1\xB2ud\0\0\1\x20zz", 17), 1, 0xE0, be(0, 8), be(1, 2)));
    } else
        p.stsd = entry("mp4a", sound(1, be(2, 2), be(16, 2), be(44100, 2) + be(0, 2)) + esds(0x6B, "\x12\x10", 2, 0, be(0, 8), be(1, 2)));
    p.stsc = atom("stsc", be(0, 4) + be(1, 4) + be(1, 4) + be(1, 4) + be(1, 4));
    p.stsz = atom(sx_flag("compact") ? "stz2" : "stsz", be(8, 4) + be(8, 4) + be(4, 4) + be(0x01020304, 4));
    p.stco = atom("stco", be(0, 4) + be(2, 4) + be(40, 4) + be(50, 4));
    const auto moof = atom("moof", atom("mfhd", be(0, 4) + be(1, 4)) + atom("traf", atom("tfhd", be(0x3B, 4) + be(1, 4) + be(0, 8) + be(0, 16)) + atom("trun", be(0xF05, 4) + be(1, 4) + be(0, 8) + be(5, 16))));
    auto bytes = file(other() + p.make(), moof);
    const auto start = static_cast<unsigned>(file(other()).size());
    bytes.resize(start + sx_choice(static_cast<unsigned>(bytes.size()) - start, "size"));
    Parsed r(bytes);
    checkOther(r.track(0));
    sx_assert(hasWarning(r.diag) || bytes.size() == file(other() + p.make()).size(), "truncation is reported");
    sx_reach("cut");
}

//@ quick=60 thorough=200 threads=4 runto=60 reach=siblings,children,nested
SX_HARNESS(many)
{
    // number and nesting of atoms must not exhaust the stack
    rlimit limit;
    getrlimit(RLIMIT_STACK, &limit);
    limit.rlim_cur = 512 * 1024;
    setrlimit(RLIMIT_STACK, &limit);
    const auto kind = sx_choice(4, "kind");
    const unsigned count = SX_THOROUGH ? 60000 : 30000;
    const auto x = sx_string(1, "content");
    std::string before, inside;
    const auto many = [&](const std::string &data) {
        std::string r;
        r.reserve(data.size() * count);
        for (unsigned i = 0; i < count; ++i) r += data;
        return r;
    };
    if (kind == 0) before = many(atom("free", "")), sx_reach("siblings");
    else if (kind == 1) inside = many(atom("free", "")), sx_reach("children");
    else if (kind == 2) inside = many(atom("udta", "")), sx_reach("children");
    else {
        inside.reserve(8 * count);
        for (unsigned i = 0; i < count; ++i) inside += be(8 * (count - i), 4) + "meco";
        for (unsigned i = 0; i < count; ++i) inside.replace(8 * i + 4, 4, "udta");
        sx_reach("nested");
    }
    {
        Parsed r(mp4::ftyp() + before + atom("moov", mp4::mvhd() + other() + inside) + atom("mdat", x));
        r.info.parseTags(r.diag, r.progress);
        r.info.parseChapters(r.diag, r.progress);
        static_cast<Mp4Container *>(r.info.container())->validateElementStructure(r.diag, r.progress);
        sx_assert(r.tracks.size() == 1, "number of tracks");
        checkOther(*r.tracks[0]);
    }
}
