// Applying changes to Matroska files: the tags are as requested, everything else stays as it was and all references stay valid.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "mkvfile.h"
#include <tagparser/exceptions.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tagvalue.h>
using namespace TagParser;
using namespace CppUtilities;
using namespace mkvfile;
//! bound: files of one or two segments with up to three clusters of one or two blocks (about 1 KiB, one block with two arbitrary bytes), the elements of a segment in the usual orders, known and unknown sizes
//! outside: elements of level 1 the library does not know, live streams without information about tracks

static std::string frames(unsigned n, bool arbitrary = false)
{
    std::string s;
    for (unsigned i = 0; i < n; ++i) s += static_cast<char>('a' + i * i % 23);
    if (arbitrary && n > 2) s.replace(n / 2, 2, sx_string(2, "frame"));
    return s;
}
static std::string letters(unsigned n)
{
    auto s = std::string(n, 'x');
    if (n) {
        const auto c = sx_string(1, "title");
        sx_assume_((c[0] > 0x20) & (c[0] < 0x7F));
        s[0] = c[0];
    }
    return s;
}
static std::string info(const std::string &title = std::string())
{
    return el(0x1549A966, num(0x2AD7B1, 1000000, 3) + el(0x4489, be(0x447a0000, 4)) + (title.empty() ? std::string() : el(0x7BA9, title)) + el(0x4D80, "m") + el(0x5741, "w") + el(0x73A4, std::string(16, 'u')));
}
static std::string chapters() { return el(0x1043A770, el(0x45B9, num(0x45BC, 9) + el(0xB6, num(0x73C4, 1) + num(0x91, 0) + num(0x92, 1000000, 4) + el(0x80, el(0x85, "intro") + el(0x437C, "eng"))))); }
static std::string attachments() { return el(0x1941A469, el(0x61A7, el(0x466E, "a.txt") + el(0x4660, "text/plain") + el(0x465C, frames(20)) + num(0x46AE, 77))); }
static std::string tags(const std::string &title) { return el(0x1254C367, mkv::tag("TITLE", title)); }
static Segment segment()
{
    Segment s;
    s.order = { SeekHead, Info, Tracks, Chapters, Tags, Attachments, Cues, Void, Clusters };
    s.seek = { Info, Tracks, Chapters, Tags, Attachments, Cues };
    s.parts[Info] = info();
    s.parts[Tracks] = el(0x1654AE6B, mkv::track(1) + mkv::track(2));
    s.parts[Chapters] = chapters();
    s.parts[Attachments] = attachments();
    s.parts[Tags] = tags("ab");
    for (unsigned i = 0; i < 2; ++i) {
        Cluster c;
        c.blocks = { mkv::block(1, 0, frames(30, !i)), mkv::block(2, 5, frames(40)) };
        s.clusters.push_back(c);
        Cue cue;
        cue.time = i * 100;
        TrackPos t;
        t.cluster = static_cast<int>(i);
        t.block = 1;
        cue.positions = { t };
        s.cues.push_back(cue);
    }
    return s;
}
static void without(Segment &s, Part p)
{
    s.order.erase(std::remove(s.order.begin(), s.order.end(), p), s.order.end());
    s.seek.erase(std::remove(s.seek.begin(), s.seek.end(), p), s.seek.end());
    s.seek2.erase(std::remove(s.seek2.begin(), s.seek2.end(), p), s.seek2.end());
}
static void move(Segment &s, Part p, Part after)
{
    s.order.erase(std::remove(s.order.begin(), s.order.end(), p), s.order.end());
    s.order.insert(std::find(s.order.begin(), s.order.end(), after) + 1, p);
}
struct Save {
    bool force = false, saveAs = false;
    size_t min = 0, max = 1000, preferred = 0;
    ElementPosition tagPos = ElementPosition::Keep, indexPos = ElementPosition::Keep;
    bool forceTagPos = true, forceIndexPos = true;
    bool remove = false; // whether to remove all tags
    std::string title;
};
static void noProblems(const Diagnostics &diag)
{
    for (const auto &m : diag) {
        if (m.level() >= DiagLevel::Critical) sx_note("%s: %s", m.context().c_str(), m.message().c_str());
        sx_assert(m.level() < DiagLevel::Critical, "no critical problems");
    }
}
static std::vector<std::string> withoutIds(const std::vector<std::string> &in, std::initializer_list<std::uint32_t> ids)
{
    std::vector<std::string> out;
    for (const auto &raw : in)
        if (std::find(ids.begin(), ids.end(), mkvref::read(raw, 0, raw.size()).id) == ids.end()) out.push_back(raw);
    return out;
}
static std::vector<std::string> sorted(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end(), [](const std::string &a, const std::string &b) { return a.substr(0, 3) < b.substr(0, 3); });
    return v;
}
struct Result {
    std::string bytes;
    File file;
};
static Result change(const std::string &bytes, const Save &save)
{
    const auto before = readFile(bytes);
    fs_put("f.mkv", bytes);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.mkv"));
    info.open();
    info.parseEverything(diag, progress);
    noProblems(diag);
    sx_assert(info.containerFormat() == ContainerFormat::Matroska, "format");
    if (save.remove) {
        info.removeAllTags();
    } else {
        info.createAppropriateTags();
        auto done = false;
        for (auto *const tag : info.tags()) {
            if (!done) tag->setValue(KnownField::Title, TagValue(save.title, TagTextEncoding::Utf8));
            done = true;
        }
        sx_assert(done, "there is a tag");
    }
    info.setForceRewrite(save.force);
    info.setMinPadding(save.min);
    info.setMaxPadding(save.max);
    info.setPreferredPadding(save.preferred);
    info.setTagPosition(save.tagPos);
    info.setForceTagPosition(save.forceTagPos);
    info.setIndexPosition(save.indexPos);
    info.setForceIndexPosition(save.forceIndexPos);
    if (save.saveAs) info.setSaveFilePath(std::string("g.mkv"));
    info.applyChanges(diag, progress);
    info.close();
    noProblems(diag);
    if (save.saveAs) sx_assert_eq(fs_get("f.mkv"), bytes, "original file is kept");
    const std::string path = save.saveAs ? "g.mkv" : "f.mkv";
    Result r;
    r.bytes = fs_get(path);
    r.file = readFile(r.bytes);
    const auto &after = r.file;
    same(before.header, after.header, "EBML header");
    sx_assert(before.segments.size() == after.segments.size(), "number of segments");
    for (size_t i = 0; i < before.segments.size(); ++i) {
        const auto &a = before.segments[i], &b = after.segments[i];
        same(sorted(withoutIds(a.info, { 0x4D80, 0x5741 })), sorted(withoutIds(b.info, { 0x4D80, 0x5741 })), "segment info");
        sx_assert(a.infos == b.infos && a.crcs == b.crcs, "number of elements");
        same(a.chapters, b.chapters, "chapters");
        if (before.segments.size() == 1) {
            sx_assert(a.attachments.size() == b.attachments.size(), "number of attachments");
            for (size_t k = 0; k < a.attachments.size(); ++k) same(normalized(a.attachments[k], { 0x46AE }), normalized(b.attachments[k], { 0x46AE }), "attachment");
            sx_assert(a.tracks.size() == b.tracks.size(), "tracks");
        }
        sx_assert(a.clusters.size() == b.clusters.size(), "number of clusters");
        for (size_t k = 0; k < a.clusters.size(); ++k) same(a.clusters[k], b.clusters[k], "cluster");
        sx_assert(a.cues == b.cues, "index");
    }
    // what the library reads
    Diagnostics diag2;
    MediaFileInfo info2{ std::string(path) };
    info2.open();
    info2.parseEverything(diag2, progress);
    static_cast<MatroskaContainer *>(info2.container())->validateIndex(diag2, progress);
    noProblems(diag2);
    sx_assert(info2.tagsParsingStatus() == ParsingStatus::Ok && info2.tracksParsingStatus() == ParsingStatus::Ok, "can be read");
    const auto readTags = info2.tags();
    sx_assert(readTags.empty() == save.remove, "tags");
    if (!save.remove) sx_assert_eq(readTags.front()->value(KnownField::Title).toString(), save.title, "title");
    return r;
}

// sizes around the available space
//@ quick=60 thorough=600 threads=6 reach=inplace,rewritten
SX_HARNESS(padding)
{
    auto s = segment();
    const auto variant = sx_choice(3, "variant");
    without(s, Attachments);
    without(s, Chapters);
    if (variant == 1) without(s, Cues);
    if (variant == 2) s.crc = true, s.clusters[0].blocks[0] = mkv::block(1, 0, frames(30));
    s.voidSize = 40;
    const auto bytes = mkv::header() + build(s);
    Save save;
    const auto n = sx_choice(48, "length");
    save.title = variant == 2 ? std::string(n + 1, 'x') : letters(n + 1);
    save.force = sx_flag("force");
    save.preferred = sx_choice(4, "preferred");
    save.min = sx_choice(3, "min");
    save.max = save.min + sx_choice(2, "max") * 1000;
    const auto r = change(bytes, save);
    const auto &seg = r.file.segments[0];
    sx_assert(seg.tagsBefore && !seg.tagsAfter, "position of tags is kept");
    const auto padding = seg.padding;
    sx_assert(save.force ? padding == save.preferred || (save.preferred == 1 && padding <= 2) : padding == save.preferred || (save.preferred == 1 && padding <= 2) || (padding >= save.min && padding <= save.max), "padding");
    if (r.bytes.size() == bytes.size() || !save.force) sx_reach("inplace");
    if (save.force) sx_reach("rewritten");
}

// order of elements
//@ quick=60 thorough=600 threads=6 reach=done
SX_HARNESS(layout)
{
    auto s = segment();
    const auto what = sx_choice(16, "parts");
    if (what & 1) without(s, Attachments);
    if (what & 2) without(s, Cues);
    if (what & 4) without(s, Tags);
    if (what & 8) without(s, Chapters);
    const auto tagsAfter = !(what & 4) && sx_flag("tagsafter"), cuesAfter = !(what & 2) && sx_flag("cuesafter");
    if (cuesAfter) move(s, Cues, Clusters);
    if (tagsAfter) {
        if (!(what & 1)) move(s, Attachments, Clusters);
        move(s, Tags, Clusters);
    }
    s.voidSize = sx_flag("void") ? 60 : 0;
    Save save;
    save.title = letters(sx_flag("long") ? 40 : 2);
    save.force = sx_flag("force");
    const ElementPosition positions[] = { ElementPosition::Keep, ElementPosition::BeforeData, ElementPosition::AfterData };
    save.tagPos = positions[sx_choice(3, "tagpos")];
    save.indexPos = positions[sx_choice(3, "indexpos")];
    save.forceTagPos = sx_flag("forcetagpos");
    save.forceIndexPos = save.forceTagPos;
    save.remove = sx_flag("remove");
    const auto r = change(mkv::header() + build(s), save);
    const auto &seg = r.file.segments[0];
    sx_assert(!(seg.tagsBefore && seg.tagsAfter) && !(seg.cuesBefore && seg.cuesAfter), "elements are written once");
    if (save.forceTagPos) {
        if (save.tagPos != ElementPosition::Keep) sx_assert(!(save.tagPos == ElementPosition::BeforeData ? seg.tagsAfter : seg.tagsBefore), "tag position");
        if (save.indexPos != ElementPosition::Keep) sx_assert(!(save.indexPos == ElementPosition::BeforeData ? seg.cuesAfter : seg.cuesBefore), "index position");
    }
    sx_reach("done");
}

// contents of clusters
//@ quick=60 thorough=600 threads=6 reach=done
SX_HARNESS(clusters)
{
    auto s = segment();
    without(s, Attachments);
    without(s, Chapters);
    const auto cuesAfter = sx_flag("cuesafter");
    if (cuesAfter) move(s, Cues, Clusters);
    if (sx_flag("third")) {
        s.clusters.push_back(s.clusters[1]);
        s.clusters.back().blocks = { el(0xA0, el(0xA1, mkv::size(1) + be(0, 2) + '\0' + frames(100)) + num(0x9B, 5)) };
    }
    const auto position = sx_choice(4, "position"), prevSize = sx_choice(2, "prevsize"), front = sx_choice(3, "front"), sizeLength = sx_choice(4, "size");
    for (auto &c : s.clusters) {
        c.position = position;
        c.positionWidth = position == 2 ? 8 : 0;
        c.unknownPosition = position == 3;
        c.prevSize = prevSize;
        c.front = front == 0 ? std::string() : front == 1 ? voidEl(9) : voidEl(70);
        c.sizeLength = sizeLength == 0 ? 0 : sizeLength == 1 ? 8 : -1;
    }
    if (sizeLength == 3) s.clusters[0].sizeLength = 0;
    s.voidSize = sx_flag("void") ? 200 : 0;
    s.sizeLength = sx_choice(3, "segsize") - 1;
    s.sizeLength = s.sizeLength == 0 ? 0 : s.sizeLength == 1 ? 8 : -1;
    Save save;
    const auto edit = sx_choice(3, "edit");
    save.title = letters(edit ? 40 : 2);
    save.force = sx_flag("force");
    save.remove = edit == 2;
    const auto r = change(mkv::header() + build(s), save);
    sx_reach("done");
}

// contents of the index
//@ quick=60 thorough=600 threads=6 reach=done
SX_HARNESS(cues)
{
    auto s = segment();
    without(s, Attachments);
    without(s, Chapters);
    TrackPos t;
    t.cluster = t.block = 1;
    const auto refs = sx_choice(3, "refs"), kind = refs ? sx_choice(8, "kind") : 0;
    const auto what = refs ? sx_flag("more") * 31 : sx_choice(32, "what");
    if (what & 1) t.duration = 7;
    if (what & 2) t.number = 3;
    if (what & 4) t.state = 0;
    if (what & 8) t.block = -1;
    if (what & 16) s.cues[1].positions.push_back(s.cues[0].positions[0]), s.cues[1].positions.back().track = 2;
    for (unsigned i = 0; i < refs; ++i) {
        Ref ref;
        ref.time = 33 + i;
        if (kind & 1) ref.cluster = static_cast<int>(i);
        if (kind & 2) ref.number = 4;
        if (kind & 4) ref.state = 0;
        t.refs.push_back(ref);
    }
    s.cues[1].positions[0] = t;
    s.cueWidth = sx_choice(2, "width") ? 8 : 2;
    s.voidSize = sx_flag("void") ? 60 : 0;
    if (sx_flag("cuesafter")) move(s, Cues, Clusters);
    Save save;
    save.title = letters(2);
    save.force = sx_flag("force");
    const ElementPosition positions[] = { ElementPosition::Keep, ElementPosition::BeforeData, ElementPosition::AfterData };
    save.indexPos = positions[sx_choice(3, "indexpos")];
    const auto r = change(mkv::header() + build(s), save);
    sx_reach("done");
}

// positions around 255 and 65535
//@ quick=60 thorough=600 threads=6 reach=done
SX_HARNESS(limits)
{
    auto s = segment();
    without(s, Attachments);
    without(s, Chapters);
    without(s, SeekHead);
    const bool big = sx_flag("big");
    if (big) {
        s.clusters[0].blocks[0] = mkv::block(1, 0, std::string(65000, 'b'));
    } else {
        s.parts[Tracks] = el(0x1654AE6B, mkv::track(1));
        s.clusters[0].blocks.resize(1);
        s.cues[0].positions[0].block = 0;
        s.cues[1].positions[0].block = 0;
        s.clusters[1].blocks.resize(1);
    }
    for (auto &c : s.clusters) c.position = c.prevSize = true;
    s.clusters.push_back(s.clusters[1]);
    s.cues.push_back(s.cues[1]);
    s.cues[2].positions[0].cluster = 2;
    Save save;
    save.title = std::string(1 + sx_choice(SX_THOROUGH ? 250 : 120, "length"), 'x');
    save.force = true;
    if (sx_flag("before")) save.indexPos = ElementPosition::BeforeData, save.tagPos = ElementPosition::BeforeData;
    const auto r = change(mkv::header() + build(s), save);
    sx_reach("done");
}

// other writers' headers, more than one "SeekHead"-element
//@ quick=60 thorough=600 threads=6 reach=done
SX_HARNESS(other)
{
    auto s = segment();
    without(s, Chapters);
    s.voidSize = sx_flag("void") ? 60 : 0;
    switch (sx_choice(6, "seek")) {
    case 0: break;
    case 1: without(s, SeekHead); break;
    case 2:
        // the tags and attachments are only referred to by a second "SeekHead"-element
        move(s, Attachments, Clusters);
        move(s, Tags, Clusters);
        move(s, SeekHead2, Tags);
        s.seek = { Info, Tracks, Cues, SeekHead2 };
        s.seek2 = { Tags, Attachments };
        break;
    case 3:
        // referring to each other
        move(s, SeekHead2, Cues);
        s.seek = { Info, Tracks, SeekHead2 };
        s.seek2 = { SeekHead, Tags, Attachments };
        break;
    case 4: s.seek = { Info, Tracks, Tags, Tags, Info, Attachments, Clusters }; break;
    case 5: move(s, SeekHead, Info); break;
    }
    auto header = mkv::header();
    switch (sx_choice(4, "header")) {
    case 0: break;
    case 1: header = mkv::el(0x1A45DFA3, header.substr(5), 8); break;
    case 2: header = mkv::el(0x1A45DFA3, header.substr(5) + voidEl(20)); break;
    case 3: header = header + voidEl(30); break;
    }
    for (auto &c : s.clusters) {
        c.position = sx_flag("position");
        c.crc = true;
    }
    s.clusters[0].blocks[0] = mkv::block(1, 0, frames(30));
    Save save;
    save.title = std::string(sx_flag("long") ? 40 : 2, 't');
    save.force = sx_flag("force");
    save.remove = sx_flag("remove");
    const ElementPosition positions[] = { ElementPosition::Keep, ElementPosition::BeforeData, ElementPosition::AfterData };
    save.tagPos = positions[sx_choice(3, "tagpos")];
    std::string tail;
    if (sx_flag("tail")) tail = voidEl(10);
    save.saveAs = sx_flag("saveas");
    const auto r = change(header + build(s) + tail, save);
    sx_reach("done");
}

// more than one segment
//@ quick=60 thorough=600 threads=6 reach=done
SX_HARNESS(segments)
{
    auto a = segment(), b = segment();
    without(a, Chapters);
    without(b, Attachments);
    without(b, Tags);
    without(b, Tracks);
    a.parts[Tracks] = el(0x1654AE6B, mkv::track(1));
    without(a, Tags);
    a.clusters[0].position = b.clusters[0].position = b.clusters[1].position = sx_flag("position");
    a.voidSize = sx_flag("void") ? 200 : 0;
    b.voidSize = sx_flag("void2") ? 200 : 0;
    if (sx_flag("cuesafter")) move(b, Cues, Clusters);
    Save save;
    save.title = std::string(sx_flag("long") ? 40 : 2, 't');
    save.force = sx_flag("force");
    save.tagPos = sx_flag("after") ? ElementPosition::AfterData : ElementPosition::BeforeData;
    save.preferred = 10;
    const auto r = change(mkv::header() + build(a) + build(b), save);
    sx_reach("done");
}

// sizes and positions at which the number of bytes of other sizes and positions changes
//@ quick=60 thorough=600 threads=6 reach=done
SX_HARNESS(borders)
{
    auto s = segment();
    without(s, Attachments);
    without(s, Chapters);
    without(s, SeekHead);
    s.parts[Tracks] = el(0x1654AE6B, mkv::track(1));
    const auto which = sx_choice(4, "which");
    const auto n = sx_choice(40, "size");
    Save save;
    save.title = "t";
    if (which < 2) {
        // size of the segment around 126 and 16382 byte
        s.clusters[0].blocks[0] = mkv::block(1, 0, std::string(16382 - 280 - n * 10, 'b'));
        s.voidSize = 60;
        if (which) move(s, Tags, Clusters);
        save.title = std::string(1 + sx_choice(12, "title"), 't');
        s.sizeLength = sx_flag("minimal") ? 0 : 8;
    } else {
        // first cluster around 255, further ones around 65535
        s.cueWidth = 3;
        without(s, Tags);
        s.clusters[0].blocks = { mkv::block(1, 0, std::string(65535 - 300 + (which == 2 ? 150 : 0) + n % 8 * 20, 'b')) };
        s.clusters.push_back(s.clusters[1]);
        for (int i = 0; i < 3; ++i) {
            s.cues.resize(3);
            s.cues[static_cast<size_t>(i)].time = static_cast<unsigned>(i);
            TrackPos t;
            t.cluster = i;
            s.cues[static_cast<size_t>(i)].positions = { t };
        }
        s.parts[Info] = info(std::string(1 + n / 8 * 9, 'i'));
        save.force = true;
        save.title = std::string(1 + sx_choice(9, "title"), 't');
    }
    const auto r = change(mkv::header() + build(s), save);
    sx_reach("done");
}

// sizes of index entries at which the number of bytes of their own sizes changes
//@ quick=60 thorough=600 threads=6 reach=done,grown
SX_HARNESS(cue_sizes)
{
    auto s = segment();
    without(s, Attachments);
    without(s, Chapters);
    without(s, SeekHead);
    s.parts[Tracks] = el(0x1654AE6B, mkv::track(1));
    const bool before = sx_flag("cuesbefore");
    if (!before) move(s, Cues, Clusters);
    s.cueWidth = before ? 2 : 1;
    s.cues.resize(1); // (position of the first cluster is below 256 if there is nothing but "Info" and "Tracks" in front of it)
    TrackPos t;
    t.block = 0;
    s.clusters[0].blocks.resize(1);
    if (sx_flag("number")) t.number = 3;
    const auto refs = 10 + sx_choice(SX_THOROUGH ? 20 : 14, "refs");
    for (unsigned i = 0; i < refs; ++i) {
        Ref ref;
        ref.time = 33 + i;
        t.refs.push_back(ref);
    }
    const auto more = sx_choice(4, "more");
    for (unsigned i = 0; i < more; ++i) t.refs[i].number = 4; // three bytes each
    s.cues[0].positions = { t };
    if (sx_flag("split")) {
        // the limit applies only to the entry, not to the position
        auto u = t;
        u.track = 2;
        u.refs.resize(refs / 2);
        s.cues[0].positions[0].refs.resize(refs - refs / 2);
        s.cues[0].positions.push_back(u);
    }
    Save save;
    save.title = std::string(sx_flag("long") ? 300 : 2, 'x');
    save.force = true;
    save.tagPos = ElementPosition::BeforeData;
    save.indexPos = sx_flag("before") ? ElementPosition::BeforeData : ElementPosition::AfterData;
    const auto r = change(mkv::header() + build(s), save);
    if (save.title.size() > 2) sx_reach("grown");
    sx_reach("done");
}
