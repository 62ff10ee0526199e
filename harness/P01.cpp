// Parsing yields the same results regardless of the order of calls, repetitions, aborts and what has been parsed before.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "mkvfile.h"
#include <tagparser/abstractattachment.h>
#include <tagparser/abstractchapter.h>
#include <tagparser/abstractcontainer.h>
#include <tagparser/abstracttrack.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/ogg/oggcontainer.h>
#include <tagparser/progressfeedback.h>
#include <streambuf>
using namespace TagParser;
using namespace CppUtilities;
//! bound: 14 small files: MP3 with ID3v1 and/or up to two ID3v2 tags with padding, FLAC, Ogg (one or two streams), MP4, Matroska (with editions, nested chapters, attachments, index and padding), ADTS and WAVE, also with ID3v2 tags in front; every sequence of four calls of the parsing functions; the operation aborted before any operation on the stream, possibly a second time, with and without forcing a full parse; re-using an object for any other file
//! outside: aborting between two checks of the flag without an operation on the stream in between; damaged files; files above the maximum size to be fully parsed
//! assume: the values of getters compared (format, offsets, sizes, durations, tags, tracks, editions, chapters, attachments, status) represent the result of parsing

static std::string id3(const std::string &title, unsigned padding, unsigned version = 4)
{
    const auto f = "TIT2" + be(title.size() + 1, 4) + std::string(2, '\0') + '\0' + title;
    return std::string("ID3") + static_cast<char>(version) + std::string(2, '\0') + be(f.size() + padding, 4) + f + std::string(padding, '\0');
}
static std::string wave(const std::string &data)
{
    const auto fmt = le(1, 2) + le(2, 2) + le(44100, 4) + le(176400, 4) + le(4, 2) + le(16, 2);
    const auto c = "WAVEfmt " + le(fmt.size(), 4) + fmt + "data" + le(data.size(), 4) + data;
    return "RIFF" + le(c.size(), 4) + c;
}
static std::string ogg2()
{
    std::string s;
    const auto head = [](unsigned serial) {
        const auto id = "\1vorbis" + le(0, 4) + '\2' + le(44100, 4) + le(0, 4) + le(128000, 4) + le(0, 4) + '\xb8' + '\1';
        return ogg::page(2, 0, serial, 0, ogg::lace({ id.size() }), id);
    };
    const auto rest = [](unsigned serial, const std::string &title) {
        const auto c = "\3vorbis" + le(1, 4) + "v" + le(1, 4) + le(6 + title.size(), 4) + "TITLE=" + title + '\1' + std::string(3, '\0');
        const auto setup = "\5vorbis" + std::string(9, 's');
        return ogg::page(0, 0, serial, 1, ogg::lace({ c.size(), setup.size() }), c + setup);
    };
    s = head(7) + head(9) + rest(7, "ab") + rest(9, "cde");
    for (unsigned i = 0; i < 3; ++i)
        for (unsigned serial = 7; serial < 11; serial += 2) s += ogg::page(i == 2 ? 4 : 0, (i + serial) * 44100, serial, i + 2, ogg::lace({ 20 + serial }), std::string(20 + serial, 'd'));
    return s;
}
static std::string mkvAll()
{
    using mkv::el;
    using mkv::num;
    mkvfile::Segment s;
    const auto chapter = [](unsigned id, const std::string &nested) { return el(0xB6, num(0x73C4, id) + num(0x91, id * 100, 2) + el(0x80, el(0x85, "n" + std::string(1, static_cast<char>('a' + id)))) + nested); };
    s.order = { mkvfile::SeekHead, mkvfile::Info, mkvfile::Tracks, mkvfile::Void, mkvfile::Chapters, mkvfile::Cues, mkvfile::Clusters, mkvfile::Attachments, mkvfile::Tags };
    s.seek = { mkvfile::Info, mkvfile::Tracks, mkvfile::Chapters, mkvfile::Attachments, mkvfile::Tags };
    s.parts[mkvfile::Info] = mkv::info();
    s.parts[mkvfile::Tracks] = el(0x1654AE6B, mkv::track(1) + mkv::track(2));
    s.parts[mkvfile::Chapters] = el(0x1043A770, el(0x45B9, num(0x45BC, 41) + chapter(1, chapter(2, chapter(3, "")) + chapter(4, ""))) + el(0x45B9, num(0x45BC, 42) + chapter(5, "") + chapter(6, chapter(7, ""))));
    s.parts[mkvfile::Attachments] = el(0x1941A469, el(0x61A7, el(0x466E, "a.txt") + el(0x4660, "text/plain") + el(0x465C, "abc") + num(0x46AE, 77)) + el(0x61A7, el(0x466E, "b.txt") + el(0x4660, "text/plain") + el(0x465C, "defg") + num(0x46AE, 78)));
    s.parts[mkvfile::Tags] = el(0x1254C367, mkv::tag("TITLE", "ab") + el(0x7373, el(0x63C0, num(0x63C5, 11)) + el(0x67C8, el(0x45A3, "BPS") + el(0x4487, "1234"))));
    s.voidSize = 20;
    for (unsigned i = 0; i < 2; ++i) {
        mkvfile::Cluster c;
        c.blocks = { mkv::block(1, 0, "data" + std::string(i + 1, 'b')) };
        s.clusters.push_back(c);
        mkvfile::Cue cue;
        cue.time = i * 100;
        cue.positions.emplace_back();
        cue.positions.back().cluster = static_cast<int>(i);
        s.cues.push_back(cue);
    }
    return mkv::header() + mkvfile::build(s);
}
static std::string mp4All()
{
    const auto moov = [](std::uint64_t o) {
        return mp4::atom("moov", mp4::mvhd() + mp4::trak(1, "soun", { o, o + 60 }, { 30, 30, 30, 30 }, 2) + mp4::trak(2, "soun", { o + 60 }, { 10, 20 }, 2) + mp4::udta(mp4::ilst("ab")) + mp4::atom("free", "1234")) + mp4::atom("free", std::string(10, '\0'));
    };
    const auto head = mp4::ftyp().size() + moov(0).size();
    return mp4::ftyp() + moov(head + 8) + mp4::atom("mdat", std::string(120, 'm')) + mp4::atom("free", "12");
}
static std::string flac()
{
    const auto c = le(1, 4) + "v" + le(1, 4) + le(8, 4) + "TITLE=ab";
    return std::string("fLaC\0\0\0\x22", 8) + be(4096, 2) + be(4096, 2) + be(0, 6) + be((static_cast<std::uint64_t>(44100) << 44) | (1ull << 41) | (15ull << 36) | 300, 8) + std::string(16, 'm') + '\4' + be(c.size(), 3) + c + '\x81' + be(10, 3)
        + std::string(10, '\0') + "\xff\xf8" + std::string(50, 'f');
}
enum { FileCount = 14 };
static std::string makeFile(unsigned k)
{
    const auto id3v1 = "TAGtitle" + std::string(119, '\0') + '\x11';
    const auto mpeg = "\xff\xfb\x90\x40" + std::string(417, 'a');
    switch (k) {
    case 0: return mpeg + mpeg + id3v1;
    case 1: return id3("first", 7) + id3("second", 12, 3) + std::string(5, '\0') + mpeg + mpeg + id3v1;
    case 2: return id3("only", 9) + mpeg;
    case 3: return flac();
    case 4: return id3("id3", 6) + flac() + id3v1;
    case 5: return ogg2();
    case 6: return id3("id3", 6) + ogg2();
    case 7: return mp4All();
    case 8: return id3("id3", 6) + mp4::ftyp() + mp4::atom("moov", mp4::mvhd() + mp4::udta(mp4::ilst("ab"))) + mp4::atom("mdat", "m");
    case 9: return mkvAll();
    case 10: return id3("id3", 6) + id3("x", 4) + mkv::header() + mkv::el(0x18538067, mkv::info() + mkv::el(0x1654AE6B, mkv::track(1)) + mkv::el(0x1254C367, mkv::tag("TITLE", "ab")) + mkv::cluster(0, mkv::block(1, 0, "data")), 4);
    case 11: return "\xff\xf1\x50\x80\x02\x1f\xfc" + std::string(9, 'a') + std::string("\xff\xf1\x50\x80\x02\x1f\xfc", 7) + std::string(9, 'a');
    case 12: return wave("datadatadata");
    default: return "something unknown which is at least a few bytes long";
    }
}
static void chapters(std::string &r, AbstractChapter &c)
{
    r += '<' + std::to_string(c.id()) + ' ' + std::to_string(c.startTime().totalTicks()) + ' ';
    for (const auto &n : c.names()) r += n + '/';
    for (size_t i = 0; i < c.nestedChapterCount(); ++i) chapters(r, *c.nestedChapter(i));
    r += '>';
}
static std::string fingerprint(MediaFileInfo &i)
{
    std::string r;
    const auto n = [&r](auto v) { r += std::to_string(v) + ' '; };
    n(static_cast<unsigned>(i.containerFormat())), n(i.containerOffset()), n(i.paddingSize()), n(i.effectiveSize()), n(i.duration().totalTicks()), n(static_cast<long long>(i.overallAverageBitrate()));
    r += "\nstatus ";
    n(static_cast<unsigned>(i.containerParsingStatus())), n(static_cast<unsigned>(i.tracksParsingStatus())), n(static_cast<unsigned>(i.tagsParsingStatus())), n(static_cast<unsigned>(i.chaptersParsingStatus())), n(static_cast<unsigned>(i.attachmentsParsingStatus()));
    n(i.hasAnyTag()), n(i.hasId3v1Tag()), n(i.hasId3v2Tag()), n(i.trackCount());
    r += "\n";
    for (const auto *t : i.tags()) {
        r += std::string(t->typeName()) + ' ' + t->target().toString(TagTargetLevel::Unspecified) + ' ' + std::to_string(t->fieldCount()) + ' ' + t->value(KnownField::Title).toString(TagTextEncoding::Utf8) + '\n';
    }
    for (const auto *t : i.tracks()) {
        r += "track ";
        n(t->id()), n(t->startOffset()), n(static_cast<unsigned>(t->format().general)), n(t->format().sub), n(t->size()), n(t->duration().totalTicks()), n(static_cast<long long>(t->bitrate() * 100)), n(t->sampleCount()), n(t->samplingFrequency()), n(t->channelCount()), n(t->isHeaderValid()), n(t->trackNumber()), n(t->timeScale()), n(t->bitsPerSample());
        r += t->name() + ' ' + t->formatId() + '\n';
    }
    for (const auto *a : i.attachments()) r += "attachment " + a->name() + ' ' + a->mimeType() + ' ' + std::to_string(a->data() ? a->data()->size() : 0) + '\n';
    if (auto *const c = i.container()) {
        r += c->documentType() + ' ' + std::to_string(c->version()) + ' ' + std::to_string(c->timeScale()) + ' ' + std::to_string(c->segmentCount()) + ' ' + std::to_string(c->chapterCount()) + ' ' + std::to_string(c->attachmentCount());
        for (const auto &t : c->titles()) r += " t" + t;
        for (const auto &t : std::as_const(*c).muxingApplications()) r += " m" + t;
        for (const auto &t : std::as_const(*c).writingApplications()) r += " w" + t;
        for (size_t k = 0; k < c->chapterCount(); ++k) chapters(r, *c->chapter(k));
    } else {
        for (auto *const c2 : i.chapters()) chapters(r, *c2);
    }
    return r;
}
static std::string reference(const std::string &path, bool full)
{
    MediaFileInfo info{ std::string_view(path) };
    info.setForceFullParse(full);
    Diagnostics diag;
    AbortableProgressFeedback p;
    info.parseEverything(diag, p);
    return fingerprint(info);
}
static void call(MediaFileInfo &info, unsigned what, Diagnostics &diag, AbortableProgressFeedback &p)
{
    switch (what) {
    case 0: info.parseTracks(diag, p); break;
    case 1: info.parseTags(diag, p); break;
    case 2: info.parseChapters(diag, p); break;
    case 3: info.parseAttachments(diag, p); break;
    case 4: info.parseContainerFormat(diag, p); break;
    default: info.parseEverything(diag, p);
    }
}
//@ quick=60 thorough=200 threads=8 reach=flac,container,repeated
SX_HARNESS(order)
{
    const auto k = sx_choice(FileCount, "file");
    const bool full = sx_flag("full parse");
    fs_put("f", makeFile(k));
    const auto expected = reference("f", full);
    MediaFileInfo info{ std::string_view("f") };
    info.setForceFullParse(full);
    Diagnostics diag;
    AbortableProgressFeedback p;
    call(info, 4, diag, p);
    const bool relevant = k == 5 || k == 6 || k == 9; // all functions may have an effect
    unsigned done = 0;
    for (unsigned i = 0; i < 4; ++i) {
        unsigned what = sx_choice(relevant ? 5 : 3, "what");
        if (!relevant && what == 2) what = 4;
        if (what < 4 && (done & (1u << what))) sx_reach("repeated");
        done |= 1u << what;
        call(info, what, diag, p);
        if (!info.container()) continue;
        sx_reach("container");
        sx_assert((info.container()->areTracksParsed() ? 1 : 0) == ((done & 1) || ((k == 5 || k == 6) && (done & 2)) ? 1 : 0), "tracks are parsed when requested");
    }
    if (k == 3) sx_reach("flac");
    call(info, 5, diag, p);
    sx_assert_eq(fingerprint(info), expected, "results do not depend on the order");
    call(info, 5, diag, p);
    sx_assert_eq(fingerprint(info), expected, "parsing again has no effect");
}

// Sets the flag as if another thread did so right before the operation on the stream.
struct AbortingBuffer : std::streambuf {
    std::streambuf *real = nullptr;
    AbortableProgressFeedback *progress = nullptr;
    unsigned at = 0, count = 0;
    void tick()
    {
        if (progress && !progress->isAborted() && count++ >= at) progress->tryToAbort();
    }
    void readTick()
    {
        tick();
    }
    int_type underflow() override { return readTick(), real->sgetc(); }
    int_type uflow() override { return readTick(), real->sbumpc(); }
    std::streamsize xsgetn(char *s, std::streamsize n) override { return readTick(), real->sgetn(s, n); }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override { return tick(), real->pubseekoff(o, d, m); }
    pos_type seekpos(pos_type o, std::ios_base::openmode m) override { return tick(), real->pubseekpos(o, m); }
    int sync() override { return real->pubsync(); }
};
static void checkStatus(ParsingStatus s) { sx_assert(s != ParsingStatus::CriticalFailure, "aborting is no failure"); }
//@ quick=150 thorough=600 threads=8 reach=aborted,completed,partially,tracks_first,twice
SX_HARNESS(aborted)
{
    const auto k = sx_choice(FileCount - 1, "file");
    const bool full = sx_flag("full parse");
    fs_put("f", makeFile(k));
    const auto expected = reference("f", full);
    MediaFileInfo info{ std::string_view("f") };
    info.setForceFullParse(full);
    info.open(true);
    AbortingBuffer buffer;
    std::ios &ios = info.stream();
    buffer.real = info.stream().rdbuf();
    ios.rdbuf(&buffer);
    Diagnostics diag;
    const unsigned order = sx_choice(4, "order");
    const unsigned times = 1 + (order == 1);
    for (unsigned t = 0; t < times; ++t) {
        AbortableProgressFeedback p;
        buffer.progress = &p;
        buffer.count = 0;
        buffer.at = sx_range<unsigned>(0, 100000, "point of abort");
        if (t) sx_assume(buffer.at < 3);
        if (order < 2) {
            call(info, 5, diag, p);
        } else {
            static const char *const orders[] = { "43210", "40321" };
            for (const auto *o = orders[order - 2]; *o && !p.isAborted(); ++o) call(info, static_cast<unsigned>(*o - '0'), diag, p);
            if (order == 3) sx_reach("tracks_first");
        }
        buffer.progress = nullptr;
        checkStatus(info.containerParsingStatus()), checkStatus(info.tracksParsingStatus()), checkStatus(info.tagsParsingStatus()), checkStatus(info.chaptersParsingStatus()), checkStatus(info.attachmentsParsingStatus());
        if (!p.isAborted()) {
            sx_reach("completed");
            break;
        }
        sx_reach("aborted");
        if (info.containerParsingStatus() == ParsingStatus::Ok && info.tracksParsingStatus() == ParsingStatus::NotParsedYet) sx_reach("partially");
        if (t) sx_reach("twice");
    }
    AbortableProgressFeedback p;
    call(info, 5, diag, p);
    sx_assert_eq(fingerprint(info), expected, "parsing can be completed after it has been aborted");
    ios.rdbuf(buffer.real);
}

//@ quick=30 thorough=100 threads=8 reach=same,other,reopened
SX_HARNESS(another_file)
{
    const auto k1 = sx_choice(FileCount, "first file"), k2 = sx_choice(FileCount, "second file");
    fs_put("f", makeFile(k1));
    fs_put("g", makeFile(k2));
    const auto expected = reference("g", false);
    MediaFileInfo info{ std::string_view("f") };
    Diagnostics diag;
    AbortableProgressFeedback p;
    call(info, 5, diag, p);
    const bool keepOpen = sx_flag("keep open");
    if (!keepOpen) info.close();
    if (k1 == k2) {
        sx_reach("same");
        if (sx_flag("reopen")) {
            sx_reach("reopened");
            info.reopen(true);
        } else {
            info.clearParsingResults();
        }
    } else {
        sx_reach("other");
        info.setPath(std::string_view("g"));
    }
    sx_assert(info.containerParsingStatus() == ParsingStatus::NotParsedYet && info.tagsParsingStatus() == ParsingStatus::NotParsedYet && info.tracksParsingStatus() == ParsingStatus::NotParsedYet
            && info.chaptersParsingStatus() == ParsingStatus::NotParsedYet && info.attachmentsParsingStatus() == ParsingStatus::NotParsedYet,
        "nothing has been parsed yet");
    sx_assert(info.tags().empty() && info.tracks().empty() && info.chapters().empty() && info.attachments().empty() && !info.hasAnyTag() && !info.paddingSize(), "no results of the previous file");
    call(info, 5, diag, p);
    sx_assert_eq(fingerprint(info), expected, "results of previous file have no effect");
}
