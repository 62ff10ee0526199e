// FLAC: metadata blocks are read and written as the format demands, editing tags leaves everything else alone.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "txt.h"
#include <tagparser/exceptions.h>
#include <tagparser/flac/flacmetadata.h>
#include <tagparser/flac/flacstream.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/vorbis/vorbiscommentids.h>
#include <c++utilities/conversion/conversionexception.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: every stream info block and block header; pictures of up to three bytes; FLAC files with up to two (thorough: three) further metadata blocks of every kind in any order, optionally preceded by an ID3v2 tag and followed by an ID3v1 tag, with arbitrary content of application blocks, covers, titles and frames; padding of all sizes around the limits
//! outside: metadata blocks of more than 16 MiB

struct Block {
    unsigned type;
    bool last;
    std::string data;
};
static std::string block(unsigned type, bool last, const std::string &data) { return std::string(1, static_cast<char>((last ? 0x80 : 0) | type)) + be(data.size(), 3) + data; }
// splits the metadata as the format defines it, returns offset of the first frame
static size_t blocks(const std::string &s, size_t o, std::vector<Block> &r)
{
    sx_assert(s.compare(o, 4, "fLaC") == 0, "signature");
    o += 4;
    for (bool last = false; !last;) {
        sx_assert(s.size() >= o + 4, "block header present");
        const auto b = static_cast<unsigned char>(sx_concretize(static_cast<unsigned char>(s[o])));
        const auto n = sx_concretize(rdbe(s, o + 1, 3));
        last = b & 0x80;
        sx_assert(n <= s.size() - o - 4, "block within the file");
        r.push_back({ b & 0x7Fu, last, s.substr(o + 4, n) });
        o += 4 + n;
    }
    return o;
}
static std::string picture(const std::string &data) { return be(3, 4) + be(1, 4) + "m" + be(1, 4) + "d" + std::string(16, '\0') + be(data.size(), 4) + data; }
static std::string comment(const std::string &title) { return le(1, 4) + "v" + le(2, 4) + le(6 + title.size(), 4) + "TITLE=" + title + le(5, 4) + "KEY=v"; }

//@ quick=20 thorough=60 threads=1 reach=info,header
SX_HARNESS(stream_info_and_headers)
{
    if (sx_flag("header")) {
        const auto b = sx_string(4, "bytes");
        FlacMetaDataBlockHeader h;
        h.parseHeader(b);
        sx_assert(!!h.isLast() == !!(b[0] & 0x80), "last flag");
        sx_assert(h.type() == (b[0] & 0x7F), "type");
        sx_assert(h.dataSize() == rdbe(b, 1, 3), "size");
        FlacMetaDataBlockHeader h2;
        h2.setLast(h.isLast());
        h2.setType(static_cast<FlacMetaDataBlockType>(h.type()));
        h2.setDataSize(h.dataSize());
        Mem m;
        h2.makeHeader(m);
        sx_assert_eq(m.str(), b, "header is written as read");
        sx_reach("header");
        return;
    }
    const auto b = sx_string(34, "info");
    FlacMetaDataBlockStreamInfo i;
    i.parse(b);
    sx_assert(i.minBlockSize() == rdbe(b, 0, 2), "minimum block size");
    sx_assert(i.maxBlockSize() == rdbe(b, 2, 2), "maximum block size");
    sx_assert(i.minFrameSize() == rdbe(b, 4, 3), "minimum frame size");
    sx_assert(i.maxFrameSize() == rdbe(b, 7, 3), "maximum frame size");
    const auto v = rdbe(b, 10, 8);
    sx_assert(i.samplingFrequency() == (v >> 44), "sampling frequency");
    sx_assert(i.channelCount() == ((v >> 41) & 7) + 1, "channel count");
    sx_assert(i.bitsPerSample() == ((v >> 36) & 31) + 1, "bits per sample");
    sx_assert(i.totalSampleCount() == (v & 0xFFFFFFFFFull), "sample count");
    sx_assert_eq(std::string_view(i.md5Sum(), 16), std::string_view(b).substr(18), "MD5 sum");
    sx_reach("info");
}

//@ quick=30 thorough=60 threads=2 reach=read,truncated,empty
SX_HARNESS(pictures)
{
    const auto mime = sx_string(sx_choice(3, "nm"), "mime"), desc = sx_string(sx_choice(3, "nd"), "desc"), data = sx_string(sx_choice(4, "n"), "data");
    const auto type = sx_val<std::uint32_t>("type");
    if (sx_flag("intact")) {
        TagValue v(data.data(), data.size(), TagDataType::Picture);
        v.setMimeType(mime);
        v.setDescription(desc, TagTextEncoding::Utf8);
        FlacMetaDataBlockPicture p(v);
        p.setPictureType(type);
        Mem m;
        p.make(m);
        sx_assert(p.requiredSize() == m.str().size(), "as many bytes as announced are written");
        sx_assert_eq(m.str(), be(type, 4) + be(mime.size(), 4) + mime + be(desc.size(), 4) + desc + std::string(16, '\0') + be(data.size(), 4) + data, "structure of picture");
    }
    // read it back, with wrong sizes as well
    std::uint32_t nm = static_cast<std::uint32_t>(mime.size()), nd = static_cast<std::uint32_t>(desc.size()), n = static_cast<std::uint32_t>(data.size());
    switch (sx_choice(4, "wrong")) {
    case 1: nm = sx_val<std::uint32_t>("wrong nm"); break;
    case 2: nd = sx_val<std::uint32_t>("wrong nd"); break;
    case 3: n = sx_val<std::uint32_t>("wrong n"); break;
    default:;
    }
    const auto s = be(type, 4) + be(nm, 4) + mime + be(nd, 4) + desc + sx_string(16, "dimensions") + be(n, 4) + data;
    const auto size = sx_range<std::uint32_t>(0, static_cast<std::uint32_t>(s.size()), "size");
    Mem m(s);
    TagValue v("old", 3, TagTextEncoding::Utf8);
    FlacMetaDataBlockPicture p(v);
    sx_alloc_limit(4096);
    try {
        p.parse(m, size);
    } catch (const TruncatedDataException &) {
        sx_reach("truncated");
        return;
    }
    sx_assert(static_cast<std::uint32_t>(m.tellg()) <= size, "nothing is read beyond the structure");
    if ((nm != mime.size()) | (nd != desc.size()) | (n != data.size())) return;
    sx_assert(size == s.size(), "truncated structures are rejected");
    sx_assert(p.pictureType() == type, "type");
    sx_assert_eq(v.mimeType(), mime, "MIME type");
    sx_assert_eq(v.description(), desc, "description");
    sx_assert_eq(std::string_view(v.dataPointer(), v.dataSize()), data, "data");
    sx_reach(data.empty() ? "empty" : "read");
}

struct File {
    std::string info, frames, app, seek, title, cover;
    std::vector<unsigned> kinds;
    unsigned id3v2 = 0; // size of ID3v2 tag
    bool id3v1 = false, hasComment = false, hasCover = false;
    std::string bytes;
};
static std::string id3v2(unsigned padding)
{
    const std::string frame = std::string("TIT2") + be(2, 4) + std::string(2, '\0') + std::string(1, '\3') + "i";
    return std::string("ID3\4\0\0", 6) + be(frame.size() + padding, 4) + frame + std::string(padding, '\0');
}
static std::string id3v1() { return "TAGi" + std::string(123, '\0') + '\xff'; }
static File file(unsigned maxBlocks, unsigned padding, bool withId3)
{
    File f;
    f.info = be(4096, 2) + be(4096, 2) + std::string(6, '\0') + be((44100ull << 44) | (1ull << 41) | (15ull << 36) | 88200, 8) + sx_string(16, "md5");
    for (char c : f.info.substr(18)) sx_assume_(c != 'T'); // (nothing which looks like an ID3v1 tag)
    f.frames = sx_string(3, "frames");
    f.frames[0] = '\xff';
    const auto n = sx_choice(maxBlocks + 1, "blocks");
    if (withId3 && (n < 2 || SX_THOROUGH)) {
        const auto k = sx_choice(4, "id3");
        f.id3v2 = k & 1;
        f.id3v1 = k & 2;
    }
    for (unsigned i = 0; i < n; ++i) f.kinds.push_back(sx_choice(5, "kind"));
    if (f.id3v2) f.bytes = id3v2(11);
    f.bytes += "fLaC" + block(0, !n, f.info);
    for (unsigned i = 0; i < n; ++i) {
        switch (f.kinds[i]) {
        case 0:
            f.app += "A" + sx_string(2, "app") + "pp";
            f.bytes += block(2, i + 1 == n, f.app.substr(f.app.size() - 5));
            break;
        case 1: {
            auto t = sx_string(1, "title");
            sx_assume_((t[0] > 0x20) & (t[0] < 0x7F));
            if (!f.hasComment) f.title = t;
            f.hasComment = true;
            f.bytes += block(4, i + 1 == n, comment(t));
            break;
        }
        case 2: {
            auto c = sx_string(2, "cover");
            f.cover += c;
            f.hasCover = true;
            f.bytes += block(6, i + 1 == n, picture(c));
            break;
        }
        case 3: f.bytes += block(1, i + 1 == n, std::string(padding, '\0')); break;
        case 4: {
            // blocks of other kinds, longer than the buffer of the copying routine
            const auto seek = std::string(i ? 59 : 300, 's') + sx_string(1, "seek") + std::string(i ? 300 : 259, 't');
            f.seek += seek;
            f.bytes += block(i ? 5 : 3, i + 1 == n, seek);
            break;
        }
        }
    }
    f.bytes += f.frames;
    if (f.id3v1) f.bytes += id3v1();
    return f;
}

//@ quick=100 thorough=900 threads=6 reach=rewritten,inplace,removed
SX_HARNESS(edit)
{
    const auto padding = sx_choice(3, "padding") * 40;
    File f = file(SX_THOROUGH ? 3 : 2, padding, true);
    fs_put("f.flac", f.bytes);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.flac"));
    info.open();
    info.parseEverything(diag, progress);
    sx_assert(info.containerFormat() == ContainerFormat::Flac, "format");
    sx_assert(info.tracksParsingStatus() == ParsingStatus::Ok && info.tagsParsingStatus() == ParsingStatus::Ok, "parsing is successful");
    auto *track = static_cast<FlacStream *>(info.tracks().front());
    sx_assert(track->channelCount() == 2 && track->bitsPerSample() == 16 && track->samplingFrequency() == 44100 && track->sampleCount() == 88200, "stream info");
    sx_assert(track->duration() == TimeSpan::fromSeconds(2.0), "duration");
    sx_assert(track->streamOffset() == f.bytes.size() - f.frames.size() - (f.id3v1 ? 128 : 0), "offset of the first frame");
    auto *vc = info.vorbisComment();
    sx_assert(!!vc == (f.hasComment || f.hasCover), "comment is read");
    if (f.hasComment) sx_assert_eq(vc->value(KnownField::Title).toString(), f.title, "title is read");
    if (vc) {
        std::string covers;
        for (const auto *v : vc->values(KnownField::Cover)) covers += std::string(v->dataPointer(), v->dataSize());
        sx_assert_eq(covers, f.cover, "covers are read");
    }
    // edit
    const bool force = sx_flag("force");
    info.setForceRewrite(force);
    const auto action = sx_choice(4, "action");
    if (action == 0) {
        info.removeVorbisComment();
        f.hasComment = f.hasCover = false;
        f.cover.clear();
        sx_reach("removed");
    } else {
        vc = info.createVorbisComment();
        f.title = sx_string(1 + 5 * sx_choice(2, "newsize"), "newtitle");
        for (auto c : f.title) sx_assume_((c > 0x20) & (c < 0x7F));
        vc->setValue(KnownField::Title, TagValue(f.title, TagTextEncoding::Utf8));
        f.hasComment = true;
        if (action == 2) {
            vc->setValues(KnownField::Cover, { });
            f.hasCover = false;
            f.cover.clear();
        }
        if (action == 3) {
            f.hasCover = true;
            f.cover = sx_string(2, "newcover");
            vc->setValues(KnownField::Cover, { TagValue(f.cover.data(), f.cover.size(), TagDataType::Picture) });
        }
    }
    if (sx_flag("removeid3v2")) info.removeAllId3v2Tags(), f.id3v2 = 0;
    info.setMinPadding(0);
    info.setMaxPadding(sx_choice(2, "maxpadding") * 200);
    const auto preferred = sx_choice(3, "preferred") * 5;
    info.setPreferredPadding(preferred);
    info.applyChanges(diag, progress);
    for (const auto &m : diag) sx_assert(m.level() < DiagLevel::Critical, "no critical problems");
    info.close();
    // check the result
    const auto s = fs_get("f.flac");
    sx_assert(s.size() >= f.frames.size() + (f.id3v1 ? 128u : 0u) + 42, "file is not truncated");
    if (f.id3v1) sx_assert(s.compare(s.size() - 128, 4, "TAGi") == 0, "ID3v1 tag is kept");
    size_t o = 0;
    if (f.id3v2) {
        sx_assert(s.compare(0, 3, "ID3") == 0, "ID3v2 tag is kept");
        o = 10 + rdbe(s, 6, 4);
    }
    std::vector<Block> b;
    o = blocks(s, o, b);
    sx_assert_eq(s.substr(o, s.size() - o - (f.id3v1 ? 128 : 0)), f.frames, "frames are kept");
    sx_assert(b[0].type == 0, "stream info comes first");
    sx_assert_eq(b[0].data, f.info, "stream info is kept");
    std::string app, seek, covers;
    size_t comments = 0;
    for (const auto &x : b) {
        if (x.type == 2) app += x.data;
        if (x.type == 3 || x.type == 5) seek += x.data;
        if (x.type == 4) ++comments;
        if (x.type == 6) covers += x.data.substr(x.data.size() - 2);
    }
    sx_assert_eq(app, f.app, "unrelated blocks are kept");
    sx_assert_eq(seek, f.seek, "unrelated blocks are kept");
    sx_assert(comments == (f.hasComment ? 1u : 0u) || (comments == 1 && f.hasCover), "one comment");
    sx_assert_eq(covers, f.cover, "covers are written");
    if (force) sx_reach("rewritten"); else if (s.size() == f.bytes.size()) sx_reach("inplace");
    // read it again
    Diagnostics diag2;
    MediaFileInfo info2(std::string("f.flac"));
    info2.open();
    info2.parseEverything(diag2, progress);
    sx_assert(!hasWarning(diag2), "nothing to complain about");
    sx_assert(info2.tracksParsingStatus() == ParsingStatus::Ok && info2.tagsParsingStatus() == ParsingStatus::Ok, "parsing is successful");
    vc = info2.vorbisComment();
    if (f.hasComment) sx_assert(vc && vc->value(KnownField::Title).toString() == f.title, "title is read back");
    sx_assert(info2.hasId3v2Tag() == !!f.id3v2 && info2.hasId3v1Tag() == f.id3v1, "ID3 tags");
}

//@ quick=60 thorough=60 threads=1 reach=large
SX_HARNESS(large_cover)
{
    // covers which don't fit are left out and reported
    const auto frames = sx_string(2, "frames");
    fs_put("f.flac", "fLaC" + block(0, true, be(4096, 2) + be(4096, 2) + std::string(6, '\0') + be((44100ull << 44) | (1ull << 41) | (15ull << 36) | 88200, 8) + std::string(16, '\0')) + frames);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.flac"));
    info.open();
    info.parseEverything(diag, progress);
    auto *vc = info.createVorbisComment();
    const unsigned over = sx_choice(3, "over");
    for (unsigned i = 0; i < 3; ++i) {
        const std::string data(i == over ? (1u << 24) : 2, static_cast<char>('a' + i));
        vc->fields().emplace("METADATA_BLOCK_PICTURE", VorbisCommentField("METADATA_BLOCK_PICTURE", TagValue(data.data(), data.size(), TagDataType::Picture)));
    }
    info.applyChanges(diag, progress);
    info.close();
    const auto s = fs_get("f.flac");
    std::vector<Block> b;
    const auto o = blocks(s, 0, b);
    sx_assert_eq(s.substr(o), frames, "frames are kept");
    sx_assert(diag.has(DiagLevel::Critical), "too large covers are reported");
    std::string covers;
    for (const auto &x : b)
        if (x.type == 6) covers += x.data.substr(x.data.size() - 2);
    sx_assert_eq(covers, over == 0 ? "bbcc" : over == 1 ? "aacc" : "aabb", "other covers are written");
    sx_reach("large");
}
