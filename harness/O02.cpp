// Applying changes to Ogg files: comments are as requested, all other packets and their timing stay as they were.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "ogg.h"
#include <tagparser/exceptions.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/ogg/oggcontainer.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tagtarget.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <set>
using namespace TagParser;
using namespace CppUtilities;
//! bound: Vorbis, Opus and FLAC streams of ten layouts (comments and setup headers on common and separate pages, spanning pages anywhere, ending exactly at page boundaries), audio packets spanning pages, empty pages, one or two streams multiplexed in three ways, comments growing and shrinking to every size around the page and segment limits, kept, removed and created; titles with one arbitrary character; two arbitrary bytes of audio data; truncated files, files with one (thorough: two) arbitrary bytes anywhere and with five arbitrary trailing bytes
//! outside: files of more than 100 MiB of which only parts are read, FLAC comments of more than 16 MiB

enum Kind { Vorbis, Opus, Flac };
static std::string vorbisId(std::uint32_t rate, std::uint32_t nominal)
{
    return "\1vorbis" + le(0, 4) + '\2' + le(rate, 4) + le(0, 4) + le(nominal, 4) + le(0, 4) + '\xb8' + '\1';
}
static std::string opusId(unsigned preskip, std::uint32_t rate) { return std::string("OpusHead\1\1") + le(preskip, 2) + le(rate, 4) + le(0, 2) + '\0'; }
static std::string flacId(std::uint64_t samples)
{
    return std::string("\x7f" "FLAC\1\0\0\1fLaC", 13) + std::string("\0\0\0\x22", 4) + be(4096, 2) + be(4096, 2) + be(0, 6) + be((static_cast<std::uint64_t>(44100) << 44) | (1ull << 41) | (15ull << 36) | samples, 8)
        + std::string(16, 'm');
}
static std::string comment(Kind k, const std::string &title, size_t pad = 0)
{
    const auto body = le(1, 4) + "v" + le(2, 4) + le(5, 4) + "KEY=v" + le(6 + title.size(), 4) + "TITLE=" + title;
    if (k == Vorbis) return "\3vorbis" + body + '\1' + std::string(pad, '\0');
    if (k == Opus) return "OpusTags" + body + std::string(pad, '\0');
    return std::string("\x84") + be(body.size(), 3) + body + std::string(pad, '\0');
}
static void checkComment(Kind k, const std::string &p, const std::string &title, size_t pad, bool cleared)
{
    const std::string head = k == Vorbis ? std::string("\3vorbis") : k == Opus ? std::string("OpusTags") : std::string("\x84") + be(p.size() - 4 - pad, 3);
    sx_assert(p.size() >= head.size() + 9 && p.compare(0, head.size(), head) == 0, "header of comment");
    sx_assert(p.compare(head.size(), 5, le(1, 4) + "v") == 0, "vendor");
    size_t o = head.size() + 5;
    sx_assert(rdle(p, o, 4) == (cleared ? 0 : 2), "number of fields");
    o += 4;
    bool t = false, key = false;
    for (unsigned i = 0; i < 2 && !cleared; ++i) {
        const auto n = rdle(p, o, 4);
        sx_assert(n <= p.size() - o - 4, "field within the comment");
        if (p.compare(o + 4, 4, "KEY=") == 0) {
            key = true;
            sx_assert_eq(p.substr(o + 8, n - 4), "v", "other field");
        } else {
            t = true;
            sx_assert_eq(p.substr(o + 4, n), "TITLE=" + title, "title");
        }
        o += 4 + n;
    }
    sx_assert((t && key) || cleared, "fields");
    if (k == Vorbis) sx_assert(p[o++] == 1, "framing bit");
    sx_assert(p.size() == o + pad, "size of comment with padding");
}
// splits packets into pages as specified by the number of lacing values per page
struct Src {
    Kind kind;
    std::uint32_t serial;
    std::string title;
    std::vector<std::string> packets;
    std::vector<std::string> pages;
    bool cleared = false; // whether all fields have been removed
};
static void paginate(Src &src, const std::vector<unsigned> &counts, std::uint32_t seq, const std::vector<std::uint64_t> &granules, bool emptyLast, bool eos)
{
    struct L {
        unsigned value;
        size_t packet, offset;
    };
    std::vector<L> l;
    for (size_t i = 0; i < src.packets.size(); ++i) {
        size_t o = 0;
        for (const auto v : ogg::lace({ src.packets[i].size() })) {
            l.push_back({ v, i, o });
            o += v;
        }
    }
    size_t at = 0;
    bool open = false;
    for (size_t page = 0; at < l.size(); ++page) {
        const size_t n = page < counts.size() ? counts[page] : l.size() - at;
        std::vector<unsigned> lacing;
        std::string data;
        auto granule = ~std::uint64_t();
        const bool continued = open;
        for (size_t i = 0; i < n; ++i, ++at) {
            lacing.push_back(l[at].value);
            data += src.packets[l[at].packet].substr(l[at].offset, l[at].value);
            open = l[at].value == 255;
            if (!open) granule = granules[l[at].packet];
        }
        const bool last = at == l.size() && eos && !emptyLast;
        src.pages.push_back(ogg::page((continued ? 1 : 0) | (page ? 0 : 2) | (last ? 4 : 0), granule, src.serial, seq++, lacing, data));
    }
    if (emptyLast) src.pages.push_back(ogg::page(eos ? 4 : 0, ~std::uint64_t(), src.serial, seq, {}, ""));
}
static unsigned laces(size_t size) { return static_cast<unsigned>(size / 255 + 1); }
static std::string sized(const char *name, Kind k, size_t packet, bool symbolic, size_t pad = 0)
{
    const auto fix = comment(k, "", pad).size();
    auto t = std::string(packet > fix ? packet - fix : 1, 't');
    if (symbolic) {
        t[0] = sx_val<char>(name);
        sx_assume_((t[0] > 0x20) & (t[0] < 0x7F));
    }
    return t;
}
static Src stream(Kind kind, std::uint32_t serial, unsigned layout, unsigned empty, std::uint32_t seq, bool symbolic)
{
    Src s;
    s.kind = kind, s.serial = serial;
    s.packets.push_back(kind == Vorbis ? vorbisId(44100, 128000) : kind == Opus ? opusId(10, 44100) : flacId(300));
    static const size_t sizes[] = { 60, 60, 600, 60, 700, 510, 255, 700, 600, 60 };
    s.title = sized("title", kind, sizes[layout], symbolic);
    s.packets.push_back(comment(kind, s.title));
    const std::string setup = (kind == Vorbis ? "\5vorbis" : kind == Opus ? "audio.." : "\x81....." ) + std::string(600, 's');
    if (layout != 6 || kind == Vorbis) s.packets.push_back(setup);
    const auto nc = laces(s.packets[1].size()), ns = s.packets.size() > 2 ? laces(s.packets[2].size()) : 0;
    for (const auto size : { 5, 255, 600, 0, 7 }) s.packets.push_back(std::string(size, static_cast<char>('a' + size % 26)));
    if (symbolic) s.packets.back()[0] = sx_val<char>("audio");
    std::vector<std::uint64_t> granules(s.packets.size(), 0);
    for (size_t i = s.packets.size() - 5; i < s.packets.size(); ++i) granules[i] = 1000 + i;
    granules.back() = kind == Flac ? 300 : 44110;
    std::vector<unsigned> counts{ 1 };
    switch (layout) {
    case 0: // common page
    case 6:
        counts.push_back(nc + ns);
        break;
    case 1: // separate pages
        counts.push_back(nc);
        counts.push_back(ns);
        break;
    case 2: // comment spans two pages
        counts.push_back(1);
        counts.push_back(nc - 1 + ns);
        break;
    case 3: // setup spans two pages
        counts.push_back(nc + 1);
        counts.push_back(ns - 1);
        break;
    case 4: // both span several pages
        counts.push_back(1);
        counts.push_back(1);
        counts.push_back(nc - 2 + 1);
        counts.push_back(ns - 1);
        break;
    case 5: // the zero-sized end of the comment is on the next page
        counts.push_back(nc - 1);
        counts.push_back(1 + ns);
        break;
    case 8: // comment starts on the page of the identification header
        counts[0] = 2;
        counts.push_back(nc - 1 + ns);
        break;
    case 9: // all headers on the first page
        counts[0] = 1 + nc + ns;
        break;
    case 7: // comment spans two pages, setup starts a new one
        counts.push_back(2);
        counts.push_back(nc - 2);
        counts.push_back(ns);
        break;
    }
    counts.push_back(1 + 2 + 2); // two packets and the start of the third
    counts.push_back(1);
    paginate(s, counts, seq, granules, empty == 1, true);
    if (empty == 2) {
        // an empty page in the middle
        std::vector<std::string> pages;
        std::uint32_t n = seq;
        for (size_t i = 0; i < s.pages.size(); ++i) {
            auto p = s.pages[i];
            p.replace(18, 4, le(n++, 4));
            p.replace(22, 4, le(ogg::crc(p), 4));
            pages.push_back(p);
            if (i == s.pages.size() - 3) pages.push_back(ogg::page(0, ~std::uint64_t(), serial, n++, {}, ""));
        }
        s.pages = pages;
    }
    return s;
}
static void noProblems(const Diagnostics &diag)
{
    for (const auto &m : diag) {
        if (m.level() >= DiagLevel::Warning) sx_note("%s", m.message().c_str());
        sx_assert(m.level() < DiagLevel::Warning, "no problems");
    }
}
// compares what's in the file before and after
static void compare(const std::string &before, const std::string &after, std::vector<Src> &srcs, const std::vector<bool> &removed, const std::vector<bool> &hadComment, size_t pad)
{
    std::vector<ogg::Page> p1, p2;
    auto s1 = ogg::demux(before, p1), s2 = ogg::demux(after, p2);
    sx_assert(s1.size() == s2.size(), "number of streams");
    size_t first = 0;
    for (auto &src : srcs) {
        auto &a = s1[src.serial].packets, &b = s2[src.serial].packets;
        const size_t index = static_cast<size_t>(&src - &srcs[0]);
        size_t i = 0, k = 0;
        sx_assert(b.size() == a.size() - (hadComment[index] ? 1 : 0) + (removed[index] ? 0 : 1), "number of packets");
        sx_assert(s2[src.serial].pages.front() == s1[src.serial].pages.front(), "streams start in the same order at the beginning");
        while (k < b.size()) {
            if (k == 1 && !removed[index]) {
                checkComment(src.kind, b[1].data, src.title, pad, src.cleared);
                sx_assert(b[1].granule == 0, "granule position of comment");
                ++k;
                if (hadComment[index]) ++i;
                continue;
            }
            if (i == 1 && removed[index] && hadComment[index]) {
                ++i;
                continue;
            }
            sx_assert_eq(b[k].data, a[i].data, "packets other than the comment are kept");
            sx_assert(b[k].granule == a[i].granule, "granule position of packet");
            if (k > 2 && i > 2) sx_assert(b[k].lastOfPage == a[i].lastOfPage, "pages are kept");
            ++k, ++i;
        }
        ++first;
    }
    // the packets of different streams stay in the same order
    std::vector<std::pair<size_t, std::uint32_t>> o1, o2;
    for (size_t page = 0; page < p1.size(); ++page) for (const auto &s : s1) for (size_t i = 2; i < s.second.packets.size(); ++i) if (s.second.packets[i].lastPage == page) o1.emplace_back(0, s.first);
    for (size_t page = 0; page < p2.size(); ++page) for (const auto &s : s2) for (size_t i = 2; i < s.second.packets.size(); ++i) if (s.second.packets[i].lastPage == page) o2.emplace_back(0, s.first);
    bool all = true;
    for (size_t i = 0; i < srcs.size(); ++i) all = all && !removed[i] && hadComment[i];
    if (all) sx_assert(o1 == o2, "order of packets of different streams");
}
static std::string readBack(const std::string &path, std::vector<Src> &srcs, const std::vector<bool> &removed)
{
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(path);
    info.open();
    info.parseEverything(diag, progress);
    sx_assert(info.containerFormat() == ContainerFormat::Ogg, "format");
    bool incomplete = false;
    for (size_t i = 0; i < srcs.size(); ++i) incomplete = incomplete || (removed[i] && srcs[i].kind == Flac);
    if (!incomplete) noProblems(diag); // FLAC streams are supposed to have a comment
    auto *const c = static_cast<OggContainer *>(info.container());
    sx_assert(c->trackCount() == srcs.size(), "number of tracks");
    size_t tags = 0;
    for (size_t i = 0; i < srcs.size(); ++i) {
        const auto *const t = c->trackById(srcs[i].serial);
        sx_assert(t != nullptr, "track");
        sx_assert(t->format().general == (srcs[i].kind == Vorbis ? GeneralMediaFormat::Vorbis : srcs[i].kind == Opus ? GeneralMediaFormat::Opus : GeneralMediaFormat::Flac), "format of track");
        sx_assert(t->samplingFrequency() == 44100, "sampling frequency");
        sx_assert(t->channelCount() == (srcs[i].kind == Opus ? 1 : 2), "channels");
        const auto ms = t->duration().totalMicroseconds();
        const double expected = srcs[i].kind == Vorbis ? 44110e6 / 44100 : srcs[i].kind == Opus ? 44100e6 / 48000 : 300e6 / 44100;
        sx_assert(ms > expected - 10 && ms < expected + 10, "duration");
        if (removed[i]) continue;
        ++tags;
        VorbisComment *tag = nullptr;
        for (size_t k = 0; k < c->tagCount(); ++k)
            if (c->tag(k)->target().tracks().size() == 1 && c->tag(k)->target().tracks()[0] == srcs[i].serial) tag = c->tag(k);
        sx_assert(tag != nullptr, "tag of track");
        sx_assert_eq(tag->value(KnownField::Title).toString(TagTextEncoding::Utf8), srcs[i].cleared ? std::string() : srcs[i].title, "title");
        sx_assert(tag->fieldCount() == (srcs[i].cleared ? 0 : 2), "number of fields");
    }
    sx_assert(c->tagCount() == tags, "number of tags");
    return std::string();
}
static VorbisComment *tagOf(MediaFileInfo &info, std::uint32_t serial)
{
    TagTarget target;
    target.tracks().push_back(serial);
    return static_cast<VorbisComment *>(info.container()->createTag(target));
}
static void edit(MediaFileInfo &info, Src &src, std::vector<bool>::reference removed, unsigned what, size_t pad)
{
    auto *const tag = tagOf(info, src.serial);
    sx_assert(tag != nullptr, "tag");
    static const size_t sizes[] = { 100, 254, 255, 256, 510, 65024, 65025, 65026, 65280, 65025 + 255 * 255 };
    if (what == 1) {
        info.container()->removeTag(tag);
        removed = true;
        return;
    }
    if (what == 12) {
        tag->removeAllFields();
        src.cleared = true;
        return;
    }
    if (what >= 2) {
        const auto old = src.title;
        src.title = sized("newtitle", src.kind, sizes[what - 2], what < 6, pad);
        tag->setValue(KnownField::Title, TagValue(src.title, TagTextEncoding::Utf8));
    }
}
//@ quick=150 thorough=900 threads=6 reach=kept,removed,large,split runto=300
SX_HARNESS(single_stream)
{
    const auto kind = static_cast<Kind>(sx_choice(3, "kind"));
    const auto layout = sx_choice(10, "layout");
    const auto what = sx_choice(13, "what");
    const auto empty = what < 4 ? sx_choice(3, "empty") : 0;
    const size_t pad = what < 5 && sx_flag("padding") ? 200 : 0;
    std::vector<Src> srcs{ stream(kind, 0x1234, layout, empty, empty == 1 ? 7 : 0, what < 6) };
    std::vector<bool> removed{ false };
    std::string bytes;
    for (const auto &p : srcs[0].pages) bytes += p;
    fs_put("f.ogg", bytes);
    readBack("f.ogg", srcs, removed);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.ogg"));
    info.open();
    info.parseEverything(diag, progress);
    info.setPreferredPadding(pad);
    edit(info, srcs[0], removed[0], what, pad);
    const bool saveAs = what == 2 && sx_flag("saveas");
    if (saveAs) info.setSaveFilePath(std::string("g.ogg"));
    info.applyChanges(diag, progress);
    info.close();
    noProblems(diag);
    if (saveAs) sx_assert_eq(fs_get("f.ogg"), bytes, "the original file is kept");
    else sx_assert_eq(fs_get("f.ogg.bak"), bytes, "backup");
    compare(bytes, fs_get(saveAs ? "g.ogg" : "f.ogg"), srcs, removed, { true }, pad);
    readBack(saveAs ? "g.ogg" : "f.ogg", srcs, removed);
    if (removed[0]) sx_reach("removed");
    else if (!what) sx_reach("kept");
    else if (what > 6) sx_reach("large");
    if (layout == 4) sx_reach("split");
}
//@ quick=150 thorough=900 threads=6 reach=both,first,interleaved,created runto=300
SX_HARNESS(two_streams)
{
    const auto order = sx_choice(3, "order"), layout = sx_choice(10, "layout"), layout2 = sx_choice(2, "layout2") * 2;
    const auto kind = static_cast<Kind>(SX_THOROUGH ? sx_choice(3, "kind") : (layout + order) % 3);
    const auto what = sx_choice(4, "what"), what2 = sx_choice(3, "what2");
    const auto empty = order == 2 ? sx_choice(3, "empty") : 0;
    std::vector<Src> srcs{ stream(kind, 1, layout, empty, 0, true), stream(Vorbis, 2, layout2, 0, 0, false) };
    std::vector<bool> removed{ false, false };
    auto bytes = srcs[0].pages[0] + srcs[1].pages[0];
    const auto n1 = srcs[0].pages.size(), n2 = srcs[1].pages.size();
    size_t i = 1, k = 1;
    while (i < n1 || k < n2) {
        const bool firstStream = order == 0 ? i < n1 : order == 1 ? k >= n2 : (k >= n2 || (i < n1 && i <= k));
        bytes += firstStream ? srcs[0].pages[i++] : srcs[1].pages[k++];
    }
    fs_put("f.ogg", bytes);
    readBack("f.ogg", srcs, removed);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.ogg"));
    info.open();
    info.parseEverything(diag, progress);
    static const unsigned whats[] = { 0, 1, 2, 6 };
    edit(info, srcs[0], removed[0], whats[what], 0);
    edit(info, srcs[1], removed[1], whats[what2 ? what2 + 1 : 0], 0);
    info.setPreferredPadding(0);
    info.applyChanges(diag, progress);
    info.close();
    noProblems(diag);
    compare(bytes, fs_get("f.ogg"), srcs, removed, { true, true }, 0);
    readBack("f.ogg", srcs, removed);
    if (order == 2) sx_reach("interleaved");
    if (what > 1 && what2) sx_reach("both");
    else if (what > 1) sx_reach("first");
    // what has been removed can be created again
    if (removed[0] && sx_flag("create")) {
        const auto current = fs_get("f.ogg");
        Diagnostics diag2;
        MediaFileInfo again(std::string("f.ogg"));
        again.open();
        again.parseEverything(diag2, progress);
        auto *const tag = tagOf(again, 1);
        if (kind == Flac) {
            sx_assert(tag == nullptr, "no comments can be added to FLAC streams in Ogg files");
            return;
        }
        sx_assert(tag != nullptr, "tag is created");
        srcs[0].title = "new";
        removed[0] = false;
        tag->setVendor(TagValue("v", TagTextEncoding::Utf8));
        tag->setValue("KEY", TagValue("v", TagTextEncoding::Utf8));
        tag->setValue(KnownField::Title, TagValue("new", TagTextEncoding::Utf8));
        again.applyChanges(diag2, progress);
        again.close();
        noProblems(diag2);
        compare(current, fs_get("f.ogg"), srcs, removed, { false, true }, 0);
        readBack("f.ogg", srcs, removed);
        sx_reach("created");
    }
}
//@ quick=60 thorough=900 threads=6 reach=ok,truncated,applied runto=300
SX_HARNESS(damaged)
{
    const auto kind = static_cast<Kind>(sx_choice(3, "kind"));
    Src s;
    s.kind = kind, s.serial = 5;
    s.packets = { kind == Vorbis ? vorbisId(44100, 128000) : kind == Opus ? opusId(10, 44100) : flacId(300), comment(kind, "title"), "rest" };
    const auto layout = sx_choice(2, "layout");
    paginate(s, layout ? std::vector<unsigned>{ 1, 1 } : std::vector<unsigned>{ 1 }, 0, { 0, 0, 300 }, false, true);
    std::string bytes;
    for (const auto &p : s.pages) bytes += p;
    const auto mode = sx_choice(3, "mode");
    if (mode == 0) {
        bytes.resize(30 + sx_choice(static_cast<unsigned>(bytes.size() - 30), "size"));
        sx_reach("truncated");
    } else if (mode == 1) {
        const unsigned n = SX_THOROUGH ? 2 : 1;
        const size_t at = 4 + sx_choice(static_cast<unsigned>(bytes.size() - 4 - n), "at");
        sx_sym(bytes.data() + at, n, "bytes");
    } else
        bytes += sx_string(5, "trailing");
    fs_put("f.ogg", bytes);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    try {
        MediaFileInfo info(std::string("f.ogg"));
        info.open();
        info.parseEverything(diag, progress);
        sx_reach("ok");
        if (mode != 1) return;
        info.applyChanges(diag, progress);
        sx_reach("applied");
    } catch (const Failure &) {
    } catch (const std::ios_base::failure &) {
    }
}
