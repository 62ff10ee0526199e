// Information about segments, tracks, chapters and attachments of Matroska files as specified (RFC 9559).
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "media.h"
#include "mkvfile.h"
#include <algorithm>
#include <cstring>
#include <sys/resource.h>
#include <limits>
#include <tagparser/exceptions.h>
#include <tagparser/matroska/matroskaattachment.h>
#include <tagparser/matroska/matroskachapter.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskaeditionentry.h>
#include <tagparser/matroska/matroskatrack.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
using namespace TagParser;
using namespace CppUtilities;
using mkv::el;
using mkv::num;
//! bound: files with up to two segments, tracks, editions and attachments and up to three levels of chapters; elements in three orders; numbers of 1..8 arbitrary bytes, floating-point numbers of 4 or 8 arbitrary bytes, texts of up to 3 arbitrary bytes; damage of one arbitrary byte at every position
//! outside: codec-specific data except for the WAVE and bitmap headers, content of unknown codecs, stereo and projection information, values of empty elements

struct Parsed {
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info;
    explicit Parsed(const std::string &bytes)
        : info(std::string("f.mkv"))
    {
        fs_put("f.mkv", bytes);
        info.open(true);
        info.parseEverything(diag, progress);
        sx_assert(info.containerFormat() == ContainerFormat::Matroska, "format");
    }
    MatroskaContainer &container() { return *static_cast<MatroskaContainer *>(info.container()); }
    MatroskaTrack &track(unsigned i = 0)
    {
        auto &t = container().tracks();
        sx_assert(t.size() > i, "track is present");
        return *t[i];
    }
};
static std::string file(const std::string &segment) { return mkv::header() + el(0x18538067, segment, 4) ; }
static std::string tracks(const std::string &entries) { return el(0x1654AE6B, entries); }
static void noProblems(const Parsed &r) { sx_assert(!hasWarning(r.diag), "no problems reported"); }
static std::string join(std::vector<std::string> parts, unsigned order)
{
    if (order == 1) std::reverse(parts.begin(), parts.end());
    if (order == 2) std::rotate(parts.begin(), parts.begin() + static_cast<std::ptrdiff_t>(parts.size() / 2), parts.end());
    std::string s;
    for (const auto &p : parts) s += p;
    return s;
}
// symbolic number of n bytes which is at most 32 bits wide
static std::uint64_t value(unsigned n, std::string &bytes, const char *name)
{
    const auto low = sx_string(std::min(n, 4u), name);
    bytes = std::string(n - low.size(), '\0') + low;
    return rdbe(low, 0, static_cast<unsigned>(low.size()));
}

//@ quick=60 thorough=300 threads=4 reach=video,audio,other
SX_HARNESS(track)
{
    static const unsigned widths[] = { 1, 2, 3, 4, 8 };
    const auto w = widths[sx_choice(5, "width")];
    const auto order = sx_choice(3, "order");
    const auto type = sx_val<std::uint8_t>("type");
    const auto uid = sx_string(8, "uid");
    std::string b[12];
    std::uint64_t v[12];
    const bool audio = sx_flag("audio"), video = sx_flag("video");
    v[0] = value(w, b[0], "number");
    for (unsigned i = 1; i < 5; ++i) {
        v[i] = sx_range<std::uint8_t>(0, 1, "flag");
        b[i] = be(v[i], w);
    }
    std::vector<std::string> parts = { num(0x83, type, w), el(0xD7, b[0]), el(0x73C5, uid), el(0xB9, b[1]), el(0x88, b[2]), el(0x55AA, b[3]), el(0x9C, b[4]), el(0x536E, "name"), el(0x86, "A_VORBIS"), el(0x258688, "codec"), el(0xEC, "void"), num(0x56AA, 5, w) };
    for (unsigned i = 5; i < 12; ++i) v[i] = value(w, b[i], "value");
    unsigned interlaced = 0;
    if (video) {
        interlaced = sx_choice(3, "interlaced");
        parts.push_back(el(0xE0, join({ el(0xB0, b[5]), el(0xBA, b[6]), el(0x54AA, b[7]), el(0x54BB, b[8]), el(0x54CC, b[9]), el(0x54DD, b[10]), num(0x9A, interlaced, w), el(0xEC, "x"), num(0x53B8, 1) }, order)));
    }
    if (audio) parts.push_back(el(0xE1, join({ num(0x6264, 24, w), el(0x9F, b[11]), el(0xEC, "x") }, order)));
    Parsed p(file(mkv::info() + tracks(el(0xAE, join(parts, order)) + mkv::track(7))));
    auto &t = p.track();
    noProblems(p);
    sx_assert(p.container().tracks().size() == 2 && p.track(1).id() == 17 && p.track(1).trackNumber() == 7, "next track");
    const auto expected = type == 1 ? MediaType::Video : type == 2 ? MediaType::Audio : type == 17 ? MediaType::Text : type == 18 ? MediaType::Buttons : type == 32 ? MediaType::Control : MediaType::Unknown;
    sx_assert(t.mediaType() == expected, "type");
    sx_assert(t.id() == rdbe(uid, 0, 8), "UID");
    sx_assert(t.trackNumber() == v[0], "number");
    sx_assert(t.isEnabled() == (v[1] == 1), "enabled");
    sx_assert(t.isDefault() == (v[2] == 1), "default");
    sx_assert(t.isForced() == (v[3] == 1), "forced");
    sx_assert(t.hasLacing() == (v[4] == 1), "lacing");
    sx_assert_eq(t.name(), "name", "name");
    sx_assert(t.format() == GeneralMediaFormat::Vorbis, "format");
    sx_assert_eq(t.formatId(), "A_VORBIS", "format ID");
    if (video) {
        sx_assert(t.pixelSize().width() == v[5] && t.pixelSize().height() == v[6], "pixel size");
        sx_assert(t.displaySize().width() == v[5] && t.displaySize().height() == v[6], "display size is pixel size by default");
        sx_assert(t.cropping().bottom() == v[7] && t.cropping().top() == v[8] && t.cropping().left() == v[9] && t.cropping().right() == v[10], "cropping");
        sx_assert(t.isInterlaced() == (interlaced == 1), "interlaced");
        sx_reach("video");
    }
    if (audio) {
        sx_assert(t.bitsPerSample() == 24, "bits per sample");
        sx_assert(w > 2 || t.channelCount() == v[11], "channels");
        sx_reach("audio");
    }
    if (!audio && !video) sx_reach("other");
}
//@ quick=40 thorough=120 threads=3 reach=default,duration,explicit
SX_HARNESS(defaults)
{
    const auto order = sx_choice(3, "order");
    const auto kind = sx_choice(3, "kind");
    const auto language = sx_choice(4, "language");
    std::vector<std::string> parts = { num(0xD7, 1), num(0x73C5, 11), num(0x83, 1), el(0x86, "V_VP9") };
    std::vector<std::string> video = { num(0xB0, 640, 2), num(0xBA, 480, 2) };
    const auto l = sx_string(3, "language"), i = sx_string(2, "IETF");
    sx_assume(SX_THOROUGH || kind == 1 || language != 2);
    for (const char c : l + i) sx_assume_((c >= 'a') & (c <= 'm'));
    if (language & 1) parts.push_back(el(0x22B59C, l));
    if (language & 2) parts.push_back(el(0x22B59D, i));
    unsigned duration = 0, rate = 0;
    if (kind) {
        static const unsigned durations[] = { 1, 1000, 20000000, 33366667, 41666666, 40000000, 999999999, 1000000000, 1000000001, 4294967295 };
        duration = durations[sx_choice(10, "duration")];
        parts.push_back(num(0x23E383, duration, 4));
    }
    if (kind == 2) {
        static const unsigned rates[] = { 1, 24, 25, 30, 60, 120, 1000 };
        rate = rates[sx_choice(7, "rate")];
        const auto f = static_cast<float>(rate);
        std::uint32_t bits;
        std::memcpy(&bits, &f, 4);
        video.push_back(el(0x2383E3, be(bits, 4)));
        video.push_back(num(0x54B0, 1000, 2));
        video.push_back(num(0x54BA, 500, 2));
    }
    parts.push_back(el(0xE0, join(video, order)));
    Parsed p(file(mkv::info() + tracks(el(0xAE, join(parts, order)))));
    auto &t = p.track();
    noProblems(p);
    sx_assert(t.isEnabled() && t.isDefault() && !t.isForced() && t.hasLacing(), "defaults of flags");
    sx_assert_eq(t.name(), "", "no name");
    sx_assert(t.displaySize().width() == (kind == 2 ? 1000 : 640) && t.displaySize().height() == (kind == 2 ? 500 : 480), "display size");
    if (kind == 0) {
        sx_assert(t.fps() == 0, "no frame rate");
        sx_reach("default");
    } else if (kind == 1) {
        const auto exact = 1000000000u / duration;
        sx_assert(t.fps() == exact || (t.fps() == exact + 1 && duration > 1000), "frame rate computed from duration");
        sx_reach("duration");
    } else {
        sx_assert(t.fps() == rate, "explicit frame rate");
        sx_reach("explicit");
    }
    const auto &iso = t.locale().abbreviatedName(LocaleFormat::ISO_639_2_B);
    const auto &bcp = t.locale().abbreviatedName(LocaleFormat::BCP_47);
    sx_assert_eq(iso, language & 1 ? l : std::string("eng"), "language");
    sx_assert_eq(bcp, language & 2 ? i : std::string(), "IETF language");
}
//@ quick=60 thorough=200 threads=3 reach=32,64,other qto=8000
SX_HARNESS(floats)
{
    const auto which = sx_choice(3, "which");
    static const unsigned sizes[] = { 4, 8, 3 };
    const auto n = sizes[sx_choice(3, "size")];
    auto data = sx_string(n, "float");
    static const std::uint32_t ids[] = { 0xB5, 0x78B5, 0x2383E3 };
    const auto e = el(ids[which], data);
    const auto s = num(0x9F, 3), x = num(0xB0, 320, 2);
    const auto sub = which == 2 ? el(0xE0, e + x) : el(0xE1, e + s);
    Parsed p(file(mkv::info() + tracks(el(0xAE, num(0xD7, 1) + num(0x73C5, 11) + num(0x83, which == 2 ? 1 : 2) + el(0x86, "X") + sub + el(0x536E, "name")))));
    auto &t = p.track();
    noProblems(p);
    sx_assert_eq(t.name(), "name", "name");
    sx_assert(which == 2 ? t.pixelSize().width() == 320 : t.channelCount() == 3, "other properties");
    const std::uint64_t got = which == 0 ? t.samplingFrequency() : which == 1 ? t.extensionSamplingFrequency() : t.fps();
    std::uint64_t expected = 0;
    if (n == 3) {
        sx_reach("other");
        sx_assert(got == 0, "invalid size");
        return;
    }
    sx_reach(n == 4 ? "32" : "64");
    const unsigned mantissaBits = n == 4 ? 23 : 52, bias = n == 4 ? 127 : 1023;
    const auto raw = rdbe(data, 0, n);
    const auto mantissa = raw & ((1ull << mantissaBits) - 1);
    const auto exponent = static_cast<unsigned>((raw >> mantissaBits) & (n == 4 ? 0xFF : 0x7FF));
    if (raw >> (n * 8 - 1) || exponent >= bias + 32) {
        sx_assert((got == 0) | (got == 0xFFFFFFFF), "numbers which can not be represented");
        return;
    }
    if (exponent >= bias) {
        const auto shift = exponent - bias; // 0..31
        const auto full = mantissa | (1ull << mantissaBits);
        expected = shift <= mantissaBits ? full >> (mantissaBits - shift) : full << (shift - mantissaBits);
    }
    sx_assert(got == expected, "number");
}
//@ quick=40 thorough=100 threads=2 reach=wave,extensible,bitmap,short,aac
SX_HARNESS(codec)
{
    const auto kind = sx_choice(4, "kind");
    const auto x = sx_string(8, "values");
    std::string priv;
    if (kind == 3) { // audio-specific config
        const auto index = sx_choice(15, "index"), channels = sx_choice(8, "channels");
        priv = be((2u << 11) | (index << 7) | (channels << 3), 2);
        Parsed p(file(mkv::info() + tracks(el(0xAE, num(0xD7, 1) + num(0x73C5, 11) + num(0x83, 2) + el(0x86, "A_AAC") + el(0x63A2, priv) + el(0xE1, el(0xB5, be(0x472c4400, 4))) + el(0x536E, "name")))));
        auto &t = p.track();
        sx_assert_eq(t.name(), "name", "name");
        sx_assert(t.format() == GeneralMediaFormat::Aac && t.format().sub == SubFormats::AacMpeg4LowComplexityProfile, "format according to audio-specific config");
        sx_assert(t.channelConfig() == channels, "channel config");
        sx_assert(t.samplingFrequency() == 44100, "sampling frequency");
        sx_assert(hasWarning(p.diag) == (index > 12), "reserved sampling frequency is reported");
        sx_reach("aac");
        return;
    }
    const unsigned cut = sx_flag("short") ? sx_choice(16, "size") : 100;
    if (kind == 0) { // WAVE header
        const auto ext = sx_choice(3, "extension");
        priv = le(0x55, 2) + x.substr(0, 2) + x.substr(2, 4) + le(1000, 4) + le(1, 2) + x.substr(6, 2);
        if (ext == 1) priv += le(0, 2);
        if (ext == 2) priv += le(4, 2) + "abcd";
        sx_assume(cut == 100 || ext == 0);
        sx_assume(ext || cut != 100);
    } else if (kind == 1) {
        priv = le(0xFFFE, 2) + x.substr(0, 2) + x.substr(2, 4) + le(1000, 4) + le(1, 2) + le(9, 2) + le(22, 2) + x.substr(6, 2) + le(63, 4) + std::string("\1\0\0\0\0\0\x10\0\x80\0\0\xaa\0\x38\x9b\x71", 16);
    } else {
        priv = le(40, 4) + le(320, 4) + le(240, 4) + le(1, 2) + le(24, 2) + "XVID" + std::string(20, '\0');
    }
    if (cut != 100) priv.resize(cut);
    Parsed p(file(mkv::info() + tracks(el(0xAE, num(0xD7, 1) + num(0x73C5, 11) + num(0x83, kind == 2 ? 1 : 2) + el(0x86, kind == 2 ? "V_MS/VFW/FOURCC" : "A_MS/ACM") + el(0x63A2, priv) + el(0x536E, "name")) + mkv::track(7))));
    auto &t = p.track();
    sx_assert_eq(t.name(), "name", "name");
    sx_assert(p.container().tracks().size() == 2 && p.track(1).id() == 17 && p.track(1).trackNumber() == 7, "next track");
    if (cut != 100) {
        sx_assert(hasWarning(p.diag), "truncated header is reported");
        sx_reach("short");
        return;
    }
    noProblems(p);
    if (kind == 2) {
        sx_assert(t.format() == GeneralMediaFormat::Mpeg4Video, "format according to bitmap header");
        sx_assert(t.formatId().find("XVID") != std::string::npos, "format ID according to bitmap header");
        sx_reach("bitmap");
        return;
    }
    sx_assert(t.channelCount() == rdle(x, 0, 2), "channels");
    sx_assert(t.samplingFrequency() == rdle(x, 2, 4), "sampling frequency");
    sx_assert(t.bitsPerSample() == rdle(x, 6, 2), "bits per sample");
    if (kind == 0) {
        sx_assert(t.format() == GeneralMediaFormat::Mpeg1Audio && t.format().sub == SubFormats::Mpeg1Layer3, "format according to WAVE header");
        sx_reach("wave");
    } else {
        sx_assert(t.format() == GeneralMediaFormat::Pcm, "format according to extensible WAVE header");
        sx_reach("extensible");
    }
}
static std::string stat(const std::string &target, const std::string &fields) { return el(0x7373, el(0x63C0, target) + fields); }
static std::string simple(const std::string &name, const std::string &value) { return el(0x67C8, el(0x45A3, name) + el(0x4487, value)); }
//@ quick=60 thorough=200 threads=3 reach=before,after,other,invalid
SX_HARNESS(statistics)
{
    const auto where = sx_choice(2, "position"), mode = sx_choice(3, "mode");
    const auto d = sx_string(4, "digits");
    if (mode == 2) {
        // value which isn't a number is ignored
        sx_assume_((d[0] > '9') & (d[0] < 127));
    } else
        for (const char c : d) sx_assume_((c >= '0') & (c <= '9'));
    const auto digit = [&](unsigned i) { return static_cast<unsigned>(d[i] - '0'); };
    const auto two = [&](unsigned i) { return d.substr(i, 2); };
    std::string fields = mode == 2 ? simple("NUMBER_OF_BYTES", d) + simple("NUMBER_OF_FRAMES", d) + simple("BPS", d) + simple("DURATION", d)
                                   : simple("BPS", d + "000") + simple("DURATION", "1" + d.substr(0, 1) + ":0" + d.substr(1, 1) + ":0" + d.substr(2, 1) + ".500000000") + simple("NUMBER_OF_FRAMES", two(0)) + simple("NUMBER_OF_BYTES", d)
            + simple("_STATISTICS_WRITING_DATE_UTC", "2016-02-0" + d.substr(3, 1) + " 16:51:28") + simple("_STATISTICS_WRITING_APP", "x");
    if (mode != 2) sx_assume_(d[3] != '0');
    const auto target = num(0x63C5, mode == 1 ? 99 : 17);
    const auto tags = el(0x1254C367, stat(num(0x68CA, 50) + num(0x63C5, 18), simple("NUMBER_OF_BYTES", "77")) + stat(target, fields) + stat("", simple("NUMBER_OF_FRAMES", "88")));
    const auto t = tracks(mkv::track(7) + mkv::track(8));
    Parsed p(file(mkv::info() + (where ? t + tags : tags + t)));
    auto &a = p.track(0), &b = p.track(1);
    sx_assert(b.size() == 77 && b.sampleCount() == 0, "statistics of the other track");
    if (mode == 1) {
        sx_assert(a.size() == 0 && a.sampleCount() == 0 && a.bitrate() == 0.0 && a.duration().isNull() && a.creationTime().isNull(), "statistics of another track are not considered");
        sx_reach("other");
        return;
    }
    if (mode == 2) {
        sx_assert(a.size() == 0 && a.sampleCount() == 0 && a.bitrate() == 0.0 && a.duration().isNull(), "invalid statistics are not considered");
        sx_assert(hasWarning(p.diag), "invalid statistics are reported");
        sx_reach("invalid");
        return;
    }
    noProblems(p);
    sx_assert(a.size() == digit(0) * 1000 + digit(1) * 100 + digit(2) * 10 + digit(3), "number of bytes");
    sx_assert(a.sampleCount() == digit(0) * 10 + digit(1), "number of frames");
    sx_assert(static_cast<std::int64_t>(a.bitrate()) == digit(0) * 1000 + digit(1) * 100 + digit(2) * 10 + digit(3), "bitrate");
    const auto seconds = (10 + digit(0)) * 3600 + digit(1) * 60 + digit(2);
    sx_assert(a.duration().totalTicks() == static_cast<std::int64_t>(seconds) * 10000000 + 5000000, "duration");
    sx_assert(a.modificationTime() == DateTime::fromDateAndTime(2016, 2, static_cast<int>(sx_concretize(digit(3))), 16, 51, 28), "time");
    sx_assert(a.creationTime() == a.modificationTime(), "creation time");
    sx_reach(where ? "after" : "before");
}

struct Display {
    std::string name;
    std::vector<std::string> languages, ietf, countries;
};
static std::string display(const Display &d)
{
    auto r = el(0x85, d.name);
    for (const auto &l : d.languages) r += el(0x437C, l);
    for (const auto &l : d.ietf) r += el(0x437D, l);
    for (const auto &l : d.countries) r += el(0x437E, l);
    return el(0x80, r);
}
//@ quick=60 thorough=300 threads=4 reach=nested,flat,default
SX_HARNESS(chapters)
{
    static const unsigned widths[] = { 1, 4, 8 };
    const auto w = widths[sx_choice(3, "width")];
    const auto order = sx_choice(3, "order");
    const auto depth = sx_choice(3, "depth"), trackCount = sx_choice(3, "tracks");
    std::string start, end, uid, t[2], edition, level[3];
    const auto startTime = value(w, start, "start"), endTime = value(w, end, "end"), id = value(w, uid, "UID"), track0 = value(w, t[0], "track"), track1 = value(w, t[1], "track"), editionId = value(w, edition, "edition");
    const auto hidden = sx_range<std::uint8_t>(0, 1, "hidden"), enabled = sx_range<std::uint8_t>(0, 1, "enabled"), def = sx_range<std::uint8_t>(0, 1, "default"), ordered = sx_range<std::uint8_t>(0, 1, "ordered");
    const auto name = sx_string(3, "name");
    for (const char c : name) sx_assume_(c != 0);
    const auto l = sx_string(3, "language");
    for (const char c : l) sx_assume_((c >= 'a') & (c <= 'm')); // excluding "und"
    std::string tr;
    for (unsigned i = 0; i < trackCount; ++i) tr += el(0x89, t[i]);
    std::vector<std::string> parts = { el(0x73C4, uid), el(0x91, start), el(0x92, end), num(0x98, hidden), num(0x4598, enabled), el(0xEC, "x"), num(0x63C3, 20), el(0x5654, "id") };
    if (trackCount) parts.push_back(el(0x8F, tr + el(0xEC, "")));
    parts.push_back(el(0x80, join({ el(0x85, name), el(0x437C, l), el(0x437E, "us") }, order)));
    parts.push_back(el(0x80, el(0x85, "second")));
    if (depth) parts.push_back(el(0xB6, num(0x73C4, 21) + num(0x91, 100) + (depth > 1 ? el(0xB6, num(0x73C4, 22)) + el(0xB6, num(0x73C4, 23)) : std::string()) + el(0x80, el(0x85, "nested"))));
    const auto atom = el(0xB6, join(parts, order));
    const auto first = el(0x45B9, join({ el(0x45BC, edition), num(0x45BD, hidden), num(0x45DB, def), num(0x45DD, ordered), el(0xEC, "y"), atom, el(0xB6, num(0x73C4, 31)) }, order));
    Parsed p(file(mkv::info() + el(0x1043A770, first + el(0x45B9, num(0x45BC, 41) + el(0xB6, num(0x73C4, 42) + num(0x91, 200) + display({ "x", { "ger" }, {}, { "de" } }))))));
    noProblems(p);
    auto &editions = p.container().editionEntires();
    sx_assert(editions.size() == 2, "editions");
    const auto &e = *editions[0];
    sx_assert(e.id() == editionId && e.isHidden() == (hidden == 1) && e.isDefault() == (def == 1) && e.isOrdered() == (ordered == 1), "edition");
    sx_assert(e.chapters().size() == 2, "chapters of edition");
    // position of the atom depends on the order
    const unsigned index = order == 1 ? 1 : 0;
    auto &c = *e.chapters()[index];
    auto &o = *e.chapters()[1 - index];
    sx_assert(c.id() == id, "UID");
    sx_assert(c.startTime().totalTicks() == static_cast<std::int64_t>(startTime / 100), "start");
    sx_assert(c.endTime().totalTicks() == static_cast<std::int64_t>(endTime / 100), "end");
    sx_assert(c.isHidden() == (hidden == 1) && c.isEnabled() == (enabled == 1), "flags");
    sx_assert(c.tracks().size() == trackCount, "number of tracks");
    if (trackCount) sx_assert(c.tracks()[0] == track0, "first track");
    if (trackCount > 1) sx_assert(c.tracks()[1] == track1, "second track");
    sx_assert(c.names().size() == 2, "names");
    const auto &n = c.names()[order == 1 ? 1 : 0], &n2 = c.names()[order == 1 ? 0 : 1];
    sx_assert_eq(n, name, "name");
    sx_assert_eq(n.locale().abbreviatedName(LocaleFormat::ISO_639_2_B), l, "language");
    sx_assert_eq(n.locale().abbreviatedName(LocaleFormat::DomainCountry), "us", "country");
    sx_assert_eq(n2, "second", "second name");
    sx_assert_eq(n2.locale().abbreviatedName(LocaleFormat::ISO_639_2_B), "eng", "default language");
    sx_assert(o.id() == 31 && o.names().empty() && o.tracks().empty() && !o.isHidden() && o.isEnabled() && o.nestedChapterCount() == 0, "other chapter");
    sx_assert(c.nestedChapterCount() == (depth ? 1 : 0), "nested chapters");
    if (depth) {
        auto &x = *c.nestedChapter(0);
        sx_assert(x.id() == 21 && x.startTime().totalTicks() == 1 && x.names().size() == 1, "nested chapter");
        sx_assert_eq(x.names()[0], "nested", "name of nested chapter");
        sx_assert(x.nestedChapterCount() == (depth > 1 ? 2 : 0), "chapters nested twice");
        if (depth > 1) sx_assert(x.nestedChapter(0)->id() == 22 && x.nestedChapter(1)->id() == 23, "chapters nested twice");
        sx_reach("nested");
    } else
        sx_reach("flat");
    const auto &e2 = *editions[1];
    sx_assert(e2.id() == 41 && !e2.isHidden() && !e2.isDefault() && !e2.isOrdered() && e2.chapters().size() == 1, "next edition");
    auto &c2 = *e2.chapters()[0];
    sx_assert(c2.id() == 42 && c2.startTime().totalTicks() == 2 && c2.names().size() == 1, "chapter of next edition");
    sx_assert_eq(c2.names()[0].locale().abbreviatedName(LocaleFormat::ISO_639_2_B), "ger", "language of chapter of next edition");
    // chapters are also provided by the file
    const auto all = p.info.chapters();
    sx_assert(all.size() == 3 && all[index]->id() == id && all[2]->id() == 42, "chapters of file");
    if (!trackCount) sx_reach("default");
}
static void checkData(const AbstractAttachment &a, const std::string &expected)
{
    sx_assert(a.data() && static_cast<size_t>(a.data()->size()) == expected.size(), "size of data");
    Mem m;
    a.data()->copyTo(m);
    sx_assert_eq(m.str(), expected, "data");
}
//@ quick=60 thorough=200 threads=3 reach=one,two
SX_HARNESS(attachments)
{
    const auto order = sx_choice(3, "order"), count = sx_choice(2, "count") + 1;
    const auto n = sx_choice(4, "size") + 1;
    const auto name = sx_string(2, "name"), description = sx_string(2, "description"), mime = sx_string(2, "MIME type"), data = sx_string(n, "data"), uid = sx_string(8, "UID");
    for (const char c : name + description + mime) sx_assume_(c != 0);
    sx_assume_(rdbe(uid, 0, 8) != 0);
    sx_assume_(uid[0] != 'A'); // not the signature of an APE tag at the end of the file
    auto a = el(0x61A7, join({ el(0x466E, name), el(0x467E, description), el(0x4660, mime), el(0x465C, data), el(0x46AE, uid), el(0x4675, "ref"), el(0xEC, "x") }, order));
    if (count == 2) a += el(0x61A7, el(0x466E, "other") + el(0x4660, "b/c") + el(0x465C, "12345") + num(0x46AE, 78, 2)) + el(0xEC, "");
    Parsed p(file(mkv::info() + el(0x1941A469, a)));
    noProblems(p);
    const auto as = p.info.attachments();
    sx_assert(as.size() == count && p.container().attachmentCount() == count, "number of attachments");
    sx_assert_eq(as[0]->name(), name, "name");
    sx_assert_eq(as[0]->description(), description, "description");
    sx_assert_eq(as[0]->mimeType(), mime, "MIME type");
    sx_assert(as[0]->id() == rdbe(uid, 0, 8), "UID");
    checkData(*as[0], data);
    if (count == 2) {
        sx_assert_eq(as[1]->name(), "other", "name of other attachment");
        sx_assert_eq(as[1]->mimeType(), "b/c", "MIME type of other attachment");
        sx_assert_eq(as[1]->description(), "", "no description");
        sx_assert(as[1]->id() == 78, "UID of other attachment");
        checkData(*as[1], "12345");
    }
    sx_reach(count == 2 ? "two" : "one");
}
struct Attached {
    std::string name, description, mime, data, referral;
    std::uint64_t uid = 0;
};
static std::vector<Attached> readAttachments(const std::string &s)
{
    std::vector<Attached> r;
    unsigned elements = 0;
    for (const auto &top : mkvref::children(s, 0, s.size())) {
        if (top.id != 0x18538067) continue;
        for (const auto &l1 : mkvref::children(s, top)) {
            if (l1.id != 0x1941A469) continue;
            ++elements;
            for (const auto &a : mkvref::children(s, l1)) {
                if (a.id == 0xEC || a.id == 0xBF) continue;
                sx_assert(a.id == 0x61A7, "AttachedFile");
                Attached x;
                unsigned names = 0, mimes = 0, datas = 0, uids = 0;
                for (const auto &c : mkvref::children(s, a)) {
                    switch (c.id) {
                    case 0x466E: x.name = c.content(s), ++names; break;
                    case 0x467E: x.description = c.content(s); break;
                    case 0x4660: x.mime = c.content(s), ++mimes; break;
                    case 0x465C: x.data = c.content(s), ++datas; break;
                    case 0x4675: x.referral = c.content(s); break;
                    case 0x46AE:
                        sx_assert(c.end - c.data >= 1 && c.end - c.data <= 8, "size of UID");
                        x.uid = rdbe(s, c.data, static_cast<unsigned>(c.end - c.data)), ++uids;
                        break;
                    case 0xEC: break;
                    default: sx_assert(false, "unexpected element");
                    }
                }
                sx_assert(names == 1 && mimes == 1 && datas == 1 && uids == 1, "mandatory elements are present");
                r.push_back(x);
            }
        }
    }
    sx_assert(elements <= 1, "attachments are stored in one place");
    return r;
}
//@ quick=80 thorough=300 threads=4 reach=added,removed,changed,file
SX_HARNESS(save_attachments)
{
    const auto mode = sx_choice(5, "mode");
    const bool inPlace = sx_flag("padding");
    static const unsigned sizes[] = { 1, 3, 126, 127, 128, 16382, 16383, 16384 };
    const auto data = sx_string(3, "data"), name = sx_string(2, "name");
    for (const char c : name) sx_assume_(c != 0);
    const auto size = sx_choice(8, "size"), width = sx_choice(8, "width") + 1;
    sx_assume(SX_THOROUGH || size == 0 || width == 8);
    const auto uid = sx_string(width, "UID");
    sx_assume_(uid[0] != 0);
    const auto id = rdbe(uid, 0, static_cast<unsigned>(uid.size()));
    sx_assume_(id != 78);
    const auto n = sizes[size];
    const auto content = data.substr(0, std::min(n, 3u)) + std::string(n > 3 ? n - 3 : 0, 'z');
    const auto other = el(0x61A7, el(0x466E, "other") + el(0x4660, "b/c") + el(0x465C, "12345") + num(0x46AE, 78, 2) + el(0x4675, "ref"));
    const auto before = el(0x61A7, el(0x466E, name) + el(0x467E, "text") + el(0x4660, "x/y") + el(0x465C, content) + el(0x46AE, uid));
    std::string attachments;
    if (mode != 0) attachments = el(0x1941A469, (mode == 1 ? std::string() : before) + other);
    Parsed p(file(mkv::info() + tracks(mkv::track(7)) + attachments + mkvfile::voidEl(inPlace ? 500 + 2 * n : 0) + mkv::cluster(0, mkv::block(7, 0, "abc"))));
    noProblems(p);
    std::vector<Attached> expected;
    const Attached old{ "other", "", "b/c", "12345", "ref", 78 }, added{ name, "desc", "m/n", content, "", id };
    auto &c = p.container();
    switch (mode) {
    case 0: // first one
    case 1: { // one more
        auto *const a = c.createAttachment();
        sx_assert(a->id() != 78, "ID is unique");
        a->setName(name);
        a->setDescription("desc");
        a->setMimeType("m/n");
        a->setId(id);
        if (mode) expected.push_back(old);
        if (sx_flag("file")) {
            fs_put("source.bin", content);
            Diagnostics other; // about the format of the attached file
            a->setFile("source.bin", other, p.progress);
            a->setName(name);
            a->setMimeType("m/n");
            sx_reach("file");
        } else {
            auto stream = std::make_shared<Mem>(content);
            a->setData(std::make_unique<StreamDataBlock>([stream]() -> std::iostream & { return *stream; }, 0, std::ios_base::beg, 0, std::ios_base::end));
        }
        expected.push_back(added);
        sx_reach("added");
        break;
    }
    case 2: // one less
        c.attachment(0)->setIgnored(true);
        expected.push_back(old);
        sx_reach("removed");
        break;
    case 3: // the other one less
        c.attachment(1)->setIgnored(true);
        expected.push_back({ name, "text", "x/y", content, "", id });
        sx_reach("removed");
        break;
    default: // another description
        c.attachment(0)->setDescription("another text which is longer");
        expected.push_back({ name, "another text which is longer", "x/y", content, "", id });
        expected.push_back(old);
        sx_reach("changed");
    }
    p.info.setForceRewrite(false);
    p.info.applyChanges(p.diag, p.progress);
    sx_assert(!hasWarning(p.diag), "no problems when saving");
    const auto s = fs_get("f.mkv");
    const auto got = readAttachments(s);
    sx_assert(got.size() == expected.size(), "number of attachments");
    for (size_t i = 0; i < got.size(); ++i) {
        sx_assert_eq(got[i].name, expected[i].name, "name");
        sx_assert_eq(got[i].description, expected[i].description, "description");
        sx_assert_eq(got[i].mime, expected[i].mime, "MIME type");
        sx_assert(got[i].uid == expected[i].uid, "UID");
        sx_assert_eq(got[i].referral, expected[i].referral, "referral");
        sx_assert_eq(got[i].data, expected[i].data, "data");
    }
}
//@ quick=60 thorough=200 threads=3 reach=one,two,absurd qto=8000
SX_HARNESS(segments)
{
    const auto count = sx_choice(2, "segments") + 1, order = sx_choice(3, "order");
    const bool title = sx_flag("title"), scale = sx_flag("scale");
    const auto t = sx_string(2, "title"), m = sx_string(2, "muxer"), w = sx_string(2, "writer");
    for (const char c : t + m + w) sx_assume_(c != 0);
    // durations
    const auto kind = sx_choice(3, "duration");
    static const std::uint64_t special[] = { 0x7FF8000000000000, 0x7FF0000000000000, 0xFFF0000000000000, 0xC08F400000000000, 0x7FEFFFFFFFFFFFFF, 0, 0x43E0000000000000 };
    const auto bits = special[sx_choice(kind == 2 ? 7 : 1, "special")];
    std::string duration;
    if (kind == 1) duration = el(0x4489, be(0x447A0000, 4)); // 1000.0
    else if (kind == 2) duration = el(0x4489, be(bits, 8));
    std::vector<std::string> parts = { el(0x4D80, m), el(0x5741, w), el(0xEC, "x"), el(0x7384, "name") };
    if (title) parts.push_back(el(0x7BA9, t));
    if (scale) parts.push_back(num(0x2AD7B1, 2000000, 3));
    parts.push_back(duration);
    auto s = file(el(0x1549A966, join(parts, order)) + tracks(mkv::track(7)));
    if (count == 2) s += el(0x18538067, el(0x1549A966, el(0x4489, be(0x43fa0000, 4)) + el(0x7BA9, "second") + el(0x4D80, "m2") + num(0x2AD7B1, 1000000, 3)), 4);
    Parsed p(s);
    auto &c = p.container();
    sx_assert(c.segmentCount() == count, "number of segments");
    sx_assert(c.titles().size() == count, "number of titles");
    sx_assert_eq(c.titles()[0], title ? t : std::string(), "title");
    sx_assert(std::as_const(c).muxingApplications().size() == count && std::as_const(c).writingApplications().size() == 1, "number of applications");
    sx_assert_eq(std::as_const(c).muxingApplications()[0], m, "muxing application");
    sx_assert_eq(std::as_const(c).writingApplications()[0], w, "writing application");
    sx_assert(c.tracks().size() == 1 && c.tracks()[0]->id() == 17, "track");
    if (count == 2) {
        sx_assert_eq(c.titles()[1], "second", "second title");
        sx_assert_eq(std::as_const(c).muxingApplications()[1], "m2", "second muxing application");
    }
    noProblems(p);
    const auto ticks = c.duration().totalTicks();
    sx_assert(ticks >= 0, "duration is not negative");
    const std::int64_t rest = count == 2 ? 5000000 : 0;
    if (kind < 2) sx_assert(ticks == rest + (kind ? (scale ? 20000000 : 10000000) : 0), "duration");
    else {
        sx_reach("absurd");
        if (bits == 0 || bits == 0xFFF0000000000000 || bits == 0xC08F400000000000 || bits == 0x7FF8000000000000) sx_assert(ticks == rest, "invalid duration");
    }
    sx_reach(count == 2 ? "two" : "one");
}
//@ quick=100 thorough=600 threads=8 reach=reported,silent
SX_HARNESS(damage)
{
    // damage within an element doesn't affect other elements
    const auto where = sx_choice(3, "element");
    auto first = where == 0 ? el(0xAE, num(0xD7, 1) + num(0x73C5, 11) + num(0x83, 2) + el(0x86, "A_VORBIS") + el(0xE1, el(0xB5, be(0x472c4400, 4)) + num(0x9F, 2)))
        : where == 1 ? el(0x45B9, num(0x45BC, 40) + el(0xB6, num(0x73C4, 41) + num(0x91, 1) + el(0x8F, num(0x89, 1)) + el(0x80, el(0x85, "x"))))
                     : el(0x61A7, el(0x466E, "n") + el(0x4660, "b/c") + el(0x465C, "1234") + num(0x46AE, 77, 2));
    const auto header = where == 0 ? 2u : 3u;
    const auto pos = header + sx_choice(static_cast<unsigned>(first.size()) - header, "position");
    first[pos] = static_cast<char>(sx_val<std::uint8_t>("byte"));
    std::string l1[3] = { mkv::track(7), el(0x45B9, num(0x45BC, 41) + el(0xB6, num(0x73C4, 42) + num(0x91, 200) + display({ "x", { "ger" }, {}, { "de" } }))), el(0x61A7, el(0x466E, "other") + el(0x4660, "b/c") + el(0x465C, "12345") + num(0x46AE, 78, 2)) };
    l1[where] = first + l1[where];
    Parsed p(file(mkv::info() + tracks(l1[0]) + el(0x1043A770, l1[1]) + el(0x1941A469, l1[2]) + el(0x1254C367, mkv::tag("TITLE", "ab"))));
    auto &c = p.container();
    sx_assert(!c.tracks().empty() && c.tracks().size() <= 2, "number of tracks");
    sx_assert(c.tracks().back()->id() == 17 && c.tracks().back()->format() == GeneralMediaFormat::Vorbis && c.tracks().back()->samplingFrequency() == 44100, "undamaged track");
    auto &e = c.editionEntires();
    sx_assert(!e.empty() && e.size() <= 2 && e.back()->id() == 41 && e.back()->chapters().size() == 1 && e.back()->chapters()[0]->id() == 42 && e.back()->chapters()[0]->names().size() == 1, "undamaged chapter");
    const auto a = p.info.attachments();
    sx_assert(!a.empty() && a.size() <= 2 && a.back()->id() == 78, "undamaged attachment");
    sx_assert_eq(a.back()->name(), "other", "name of undamaged attachment");
    checkData(*a.back(), "12345");
    sx_assert(c.tags().size() == 1, "tag");
    sx_assert_eq(c.tags()[0]->value(KnownField::Title).toString(), "ab", "undamaged tag");
    sx_assert_eq(std::as_const(c).muxingApplications().at(0), "m", "segment info");
    sx_reach(hasWarning(p.diag) ? "reported" : "silent");
}

//@ quick=60 thorough=200 threads=4 runto=60 reach=siblings,children,chapters,fields
SX_HARNESS(many)
{
    // number and nesting of elements must not exhaust the stack
    rlimit limit;
    getrlimit(RLIMIT_STACK, &limit);
    limit.rlim_cur = 512 * 1024;
    setrlimit(RLIMIT_STACK, &limit);
    const auto kind = sx_choice(4, "kind");
    const unsigned count = SX_THOROUGH ? 60000 : 30000;
    std::string s;
    const auto nest = [&](std::uint32_t id, const std::string &data) {
        std::string r = data;
        std::vector<std::string> heads;
        size_t size = data.size();
        for (unsigned i = 0; i < count; ++i) {
            heads.push_back(mkv::id(id) + mkv::size(size, 4));
            size += heads.back().size();
        }
        std::string all;
        all.reserve(size);
        for (auto i = heads.rbegin(); i != heads.rend(); ++i) all += *i;
        return all + data;
    };
    const auto repeat = [&](const std::string &data) {
        std::string r;
        r.reserve(data.size() * count);
        for (unsigned i = 0; i < count; ++i) r += data;
        return r;
    };
    switch (kind) {
    case 0: s = repeat(el(0xEC, "")), sx_reach("siblings"); break;
    case 1: s = tracks(repeat(el(0xEC, "x")) + mkv::track(3)), sx_reach("children"); break;
    case 2: s = el(0x1043A770, el(0x45B9, nest(0xB6, ""))), sx_reach("chapters"); break;
    default: s = el(0x1254C367, el(0x7373, el(0x63C0, "") + nest(0x67C8, ""))), sx_reach("fields");
    }
    const auto title = sx_string(1, "title");
    sx_assume_(title[0] != 0);
    {
        Parsed p(file(mkv::info() + s + tracks(mkv::track(7)) + el(0x1254C367, mkv::tag("TITLE", title))));
        auto &c = p.container();
        c.validateElementStructure(p.diag, p.progress);
        sx_assert(c.tracks().size() == (kind == 1 ? 2 : 1) && c.tracks().back()->id() == 17, "track");
        sx_assert(!c.tags().empty(), "tag");
        sx_assert_eq(c.tags().back()->value(KnownField::Title).toString(), title, "title");
    }
}
