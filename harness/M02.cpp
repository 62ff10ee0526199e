// Applying changes to MP4 files: the tags are as requested, everything else stays as it was and all references stay valid.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "mp4file.h"
#include <tagparser/exceptions.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tagvalue.h>
using namespace TagParser;
using namespace CppUtilities;
using namespace mp4file;
//! bound: files of up to 2 KiB with up to three media data atoms, up to two tracks with up to three chunks (some bytes of the media data and of the texts are arbitrary), atoms in 22 orders, fragments with and without explicit positions
//! outside: several movie atoms, items and indexes of segments (sidx, iloc, mfra), data in front of the file type, files of more than 4 GiB, movie atoms which are truncated

static std::string samples(unsigned n, char first, bool arbitrary = false)
{
    std::string s;
    for (unsigned i = 0; i < n; ++i) s += static_cast<char>(first + i * i % 23);
    if (arbitrary && n > 2) s.replace(n / 2, 2, sx_string(2, "media"));
    return s;
}
static std::string letters(unsigned n)
{
    auto s = std::string(n, 'x');
    if (n) {
        const auto c = sx_string(1, "title");
        sx_assume_((c[0] > 0x20) & (c[0] < 0x7F));
        s[0] = c[0];
    }
    return s;
}
static std::string tag(const std::string &title) { return mp4::atom("meta", be(0, 4) + mp4::atom("hdlr", be(0, 8) + "mdirappl" + be(0, 4) + be(0, 4) + '\0') + mp4::atom("ilst", mp4::atom("\xa9nam", mp4::data(1, title)) + mp4::atom("aART", mp4::data(1, "other")))); }
// one track with two chunks in each media data atom
static File file(const std::string &order)
{
    File f;
    f.order = order;
    Trak t;
    for (const char c : order)
        if (c == 'D' || c == 'L' || c == 'Z') {
            const auto n = static_cast<unsigned>(f.media.size());
            f.media.push_back(samples(20 + n, static_cast<char>('a' + n), !n));
            t.chunks.push_back({ n, 0 });
            t.chunks.push_back({ n, 7 });
            t.samples.push_back(7);
            t.samples.push_back(6 + n);
        }
    if (f.media.empty()) return f;
    f.tracks.push_back(t);
    f.udta.push_back(tag("ab"));
    return f;
}
struct Save {
    bool force = false, saveAs = false;
    size_t min = 0, max = 1000, preferred = 0;
    ElementPosition tagPos = ElementPosition::Keep, indexPos = ElementPosition::Keep;
    bool forceTagPos = false, forceIndexPos = false;
    bool remove = false; // whether to remove all tags
    std::string title;
};
static void noProblems(const Diagnostics &diag)
{
    for (const auto &m : diag) {
        if (m.level() >= DiagLevel::Critical) sx_note("%s: %s", m.context().c_str(), m.message().c_str());
        sx_assert(m.level() < DiagLevel::Critical, "no critical problems");
    }
}
static const ElementPosition positions[] = { ElementPosition::Keep, ElementPosition::BeforeData, ElementPosition::AfterData };
struct Result {
    std::string bytes;
    Model before, after;
    bool rewritten = false;
};
static Result change(const std::string &bytes, const Save &save, bool strict = true)
{
    Result r;
    r.before = read(bytes, true);
    fs_put("f.m4a", bytes);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.m4a"));
    info.open();
    info.parseEverything(diag, progress);
    if (strict) noProblems(diag);
    sx_assert(info.containerFormat() == ContainerFormat::Mp4, "format");
    if (save.remove) {
        info.removeAllTags();
    } else {
        info.createAppropriateTags();
        sx_assert(info.mp4Tag(), "there is a tag");
        info.mp4Tag()->setValue(KnownField::Title, TagValue(save.title, TagTextEncoding::Utf8));
    }
    const bool other = !save.remove && info.mp4Tag()->hasField(KnownField::AlbumArtist);
    info.setForceRewrite(save.force);
    info.setMinPadding(save.min);
    info.setMaxPadding(save.max);
    info.setPreferredPadding(save.preferred);
    info.setTagPosition(save.tagPos);
    info.setForceTagPosition(save.forceTagPos);
    info.setIndexPosition(save.indexPos);
    info.setForceIndexPosition(save.forceIndexPos);
    if (save.saveAs) info.setSaveFilePath(std::string("g.m4a"));
    info.applyChanges(diag, progress);
    info.close();
    if (strict) noProblems(diag);
    r.rewritten = fs_exists("f.m4a.bak") || save.saveAs;
    if (save.saveAs) sx_assert_eq(fs_get("f.m4a"), bytes, "original file is kept");
    else if (r.rewritten) sx_assert_eq(fs_get("f.m4a.bak"), bytes, "original content is kept as backup");
    if (save.force) sx_assert(r.rewritten, "file is rewritten if forced");
    const std::string path = save.saveAs ? "g.m4a" : "f.m4a";
    r.bytes = fs_get(path);
    r.after = read(r.bytes);
    sameContent(r.before, r.after);
    sx_assert(r.after.metas == (save.remove ? 0u : 1u), "tag is written once");
    if (!save.remove) {
        sx_assert(r.after.fields.size() == (other ? 2u : 1u), "fields of the tag");
        for (const auto &f : r.after.fields) {
            sx_assert(f.data.size() == 1 && f.data[0].type == 1 && (f.id == "\xa9nam" || f.id == "aART"), "field");
            sx_assert_eq(f.data[0].value, f.id == "aART" ? "other" : save.title, "value of field");
        }
    }
    // position and padding
    if (!r.after.media.empty()) {
        const bool front = r.after.moovStart < r.after.mediaStart;
        if (r.rewritten) {
            // the preferred position is respected
            const auto want = save.forceTagPos || !save.forceIndexPos ? save.tagPos : save.indexPos;
            const bool fragmented = std::any_of(r.before.media.begin(), r.before.media.end(), [](const auto &m) { return !m.compare(0, 5, "moof("); });
            const bool frontBefore = r.before.moovStart < r.before.mediaStart;
            sx_assert(front == (fragmented || want == ElementPosition::BeforeData || (want == ElementPosition::Keep && frontBefore)), "position of index");
            sx_assert(r.after.gap == (save.preferred && save.preferred < 8 ? 8 : save.preferred), "preferred padding");
        } else {
            if (front) sx_assert(r.after.gap >= save.min, "minimum padding");
            sx_assert(r.after.gap <= save.max, "maximum padding");
            if (save.forceTagPos && save.tagPos != ElementPosition::Keep) sx_assert(front == (save.tagPos == ElementPosition::BeforeData), "position of index is forced");
        }
    }
    // what the library reads
    Diagnostics diag2;
    MediaFileInfo info2{ std::string(path) };
    info2.open();
    info2.parseEverything(diag2, progress);
    if (strict) noProblems(diag2);
    sx_assert(info2.tracks().size() == r.after.tracks.size(), "tracks are read");
    sx_assert(!info2.mp4Tag() == save.remove, "tag is read");
    if (!save.remove) sx_assert_eq(info2.mp4Tag()->value(KnownField::Title).toString(), save.title, "title is read");
    return r;
}

// sizes around the available space
//@ quick=60 thorough=300 threads=4 reach=inplace,rewritten
SX_HARNESS(padding)
{
    static const char *const orders[] = { "F_VD", "FV_D", "F_DV", "FDV" };
    auto f = file(orders[sx_choice(SX_THOROUGH ? 4 : 3, "order")]);
    f.freeSize = 8 + sx_choice(4, "free") * 8;
    Save save;
    save.title = letters(1 + sx_choice(SX_THOROUGH ? 40 : 26, "length"));
    save.preferred = sx_choice(3, "preferred") * 5;
    save.min = sx_choice(2, "min") * 9;
    save.max = save.min + sx_choice(2, "max") * 20;
    const auto r = change(f.make(), save);
    sx_reach(r.rewritten ? "rewritten" : "inplace");
}
// order of atoms
//@ quick=60 thorough=300 threads=4 reach=inplace,rewritten
SX_HARNESS(layout)
{
    static const char *const orders[] = { "FVD", "FDV", "FV_D", "F_DV", "FVDD", "FVD_D", "FDVD", "FPVD", "FVUDU", "FV", "FV_D_", "FD_V", "FDUVD", "FVL", "FVZ", "FVsD", "FVAD", "FLVZ", "FPDV", "FD_DV", "F_VDsD", "FVUUD" };
    const auto f = file(orders[sx_choice(22, "order")]);
    Save save;
    const auto edit = sx_choice(3, "edit");
    save.title = edit == 2 ? std::string() : letters(edit ? 60 : 2);
    save.remove = edit == 2;
    save.force = sx_flag("force");
    save.saveAs = save.force && sx_flag("saveas");
    static const unsigned combinations[] = { 0000, 0001, 0002, 0101, 0102, 0210, 0220, 0312, 0321 }; // force flags, position of index, position of tags
    const auto combination = SX_THOROUGH ? sx_choice(0400, "position") : combinations[sx_choice(save.saveAs ? 3 : 9, "position")];
    sx_assume((combination & 7) < 3 && (combination >> 3 & 7) < 3);
    save.tagPos = positions[combination & 7];
    save.indexPos = positions[combination >> 3 & 7];
    save.forceTagPos = combination >> 6 & 1;
    save.forceIndexPos = combination >> 7;
    const auto r = change(f.make(), save);
    sx_reach(r.rewritten ? "rewritten" : "inplace");
}
// fragmented files
//@ quick=60 thorough=300 threads=4 reach=inplace,rewritten
SX_HARNESS(fragments)
{
    static const char *const orders[] = { "FVMDMD", "FV_MDMD", "FMDVMD", "FVMD_MD", "FVMDUMZ", "FVDMD" };
    auto f = file(orders[sx_choice(6, "order")]);
    f.relative = sx_flag("relative");
    f.tracks[0].chunks.clear();
    f.tracks[0].samples.clear();
    f.moovLast = mp4::atom("mvex", mp4::atom("mehd", be(0, 4) + be(3000, 4)) + mp4::atom("trex", be(0, 4) + be(1, 4) + be(1, 4) + be(0, 12)));
    Save save;
    const auto edit = sx_choice(3, "edit");
    save.title = edit == 2 ? std::string() : letters(edit ? 60 : 2);
    save.remove = edit == 2;
    save.force = sx_flag("force");
    save.tagPos = positions[sx_choice(3, "tagpos")];
    save.forceTagPos = sx_flag("forcetagpos") && save.tagPos != ElementPosition::AfterData;
    const auto r = change(f.make(), save);
    sx_reach(r.rewritten ? "rewritten" : "inplace");
}
// contents of tracks
//@ quick=60 thorough=300 threads=4 reach=inplace,rewritten
SX_HARNESS(tracks)
{
    auto f = file(sx_flag("front") ? "FV_DD" : "FDDV");
    f.freeSize = 300;
    auto &t = f.tracks[0];
    switch (sx_choice(12, "variant")) {
    case 0: t.offsetSize = 8; break;
    case 1: t.mdiaExtra = mp4::atom("elng", be(0, 4) + "de-DE" + '\0'); break;
    case 2: t.minfExtra = mp4::atom("gmhd", sx_string(2, "gmhd")); break;
    case 3: t.stblExtra = mp4::atom("stss", be(0, 4) + be(1, 4) + be(1, 4)) + mp4::atom("sdtp", be(0, 6)); break;
    case 4: t.trakExtra = mp4::atom("edts", mp4::atom("elst", be(0, 4) + be(1, 4) + be(3000, 4) + be(5, 4) + be(1, 2) + be(0, 2))) + mp4::atom("udta", mp4::atom("name", "abc")); t.extraFirst = sx_flag("first"); break;
    case 5: {
        const auto flags = sx_val<std::uint8_t>("flags");
        const auto duration = sx_val<std::uint32_t>("duration");
        t.tkhd = tkhd(1, flags, duration);
        break;
    }
    case 6: t.tkhd = tkhd1(1, sx_choice(3, "duration") * 0x80000001ull); break;
    case 7: t.mdhd = mdhd1(sx_choice(3, "duration") * 0x80000001ull); break;
    case 8: t.tkhd = tkhd1(1, 0x1234567890ull), t.mdhd = mdhd1(0x1234567890ull); break;
    case 9: t.name = std::string(); break;
    case 10: t.type = sx_flag("type") ? "vide" : "subt"; break;
    default: t.perChunk = 2, t.samples = { 3, 4, 2, 4, 1, 6, 3, 4 }; break;
    }
    if (sx_flag("second")) {
        Trak u;
        u.id = 2;
        u.chunks = { { 0, 13 }, { 1, 14 } };
        u.samples = { 5, 6 };
        f.tracks.push_back(u);
    }
    Save save;
    save.title = letters(sx_flag("long") ? 60 : 2);
    save.force = sx_flag("force");
    save.tagPos = positions[sx_choice(3, "tagpos")];
    const auto r = change(f.make(), save);
    sx_reach(r.rewritten ? "rewritten" : "inplace");
}
// user data of all kinds
//@ quick=60 thorough=300 threads=4 reach=inplace,rewritten
SX_HARNESS(userdata)
{
    auto f = file(sx_flag("front") ? "FV_D" : "FDV");
    f.freeSize = 300;
    const auto name = mp4::atom("name", sx_string(2, "name"));
    const auto other = mp4::atom("meta", be(0, 4) + mp4::atom("hdlr", be(0, 8) + "mdta" + be(0, 12) + '\0'));
    switch (sx_choice(10, "variant")) {
    case 0: f.udta.clear(); break;
    case 1: f.udta = { name }; break;
    case 2: f.udta = { name + tag("ab") }; break;
    case 3: f.udta = { tag("ab") + name }; break;
    case 4: f.udta = { tag("ab"), name }; break;
    case 5: f.udta = { name, tag("ab") }; break;
    case 6: f.udta = { tag("ab") + be(0, 4) };break;
    case 7: f.udta = { name + be(0, 4) };break;
    case 8: f.udta = { tag("ab") + name + tag("cd") }; break;
    default: f.udta = { other + tag("ab") }; break;
    }
    f.udtaFirst = sx_flag("udtafirst");
    const auto extra = sx_choice(3, "extra");
    if (extra == 1) f.moovFirst = mp4::atom("iods", be(0, 4) + "abc");
    if (extra == 2) f.moovLast = mp4::atom("meta", be(0, 4) + mp4::hdlr("ID32", ""));
    Save save;
    const auto edit = sx_choice(3, "edit");
    save.title = edit == 2 ? std::string() : letters(edit ? 60 : 2);
    save.remove = edit == 2;
    save.force = sx_flag("force");
    const auto r = change(f.make(), save);
    sx_reach(r.rewritten ? "rewritten" : "inplace");
}
// tracks are removed
//@ quick=60 thorough=300 threads=4 reach=removed
SX_HARNESS(removal)
{
    static const char *const orders[] = { "FVD", "FDVD", "FV_DUD", "FVLZ" };
    auto f = file(orders[sx_choice(4, "order")]);
    f.freeSize = 60;
    f.tracks[0].offsetSize = sx_flag("wide") ? 8 : 4;
    Trak u;
    u.id = 2;
    u.name = "second";
    u.chunks = { { 0, 3 }, { 0, 13 }, { static_cast<unsigned>(f.media.size() - 1), 1 } };
    u.samples = { 2, 3, 5 };
    f.tracks.push_back(u);
    const auto bytes = f.make();
    const auto before = read(bytes, true);
    fs_put("f.m4a", bytes);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.m4a"));
    info.open();
    info.parseEverything(diag, progress);
    noProblems(diag);
    const auto removed = sx_choice(2, "removed");
    const auto count = sx_flag("all") ? 2u : 1u;
    auto tracks = info.tracks();
    sx_assert(tracks.size() == 2, "tracks");
    sx_assert(info.container()->removeTrack(tracks[removed]), "track can be removed");
    if (count == 2) sx_assert(info.container()->removeTrack(tracks[1 - removed]), "other track can be removed");
    info.setPreferredPadding(sx_flag("padding") ? 20 : 0);
    info.setTagPosition(positions[sx_choice(3, "tagpos")]);
    info.applyChanges(diag, progress);
    info.close();
    noProblems(diag);
    const auto saved = fs_get("f.m4a");
    const auto after = read(saved);
    sameList(before.head, after.head, "file type");
    sameList(before.moov, after.moov, "movie header");
    sx_assert_eq(before.udta, after.udta, "other user data");
    sx_assert(after.tracks.size() == 2 - count, "number of tracks");
    if (count == 1) sx_assert_eq(before.tracks[1 - removed], after.tracks[0], "remaining track");
    size_t others = 0, mdats = 0;
    for (const auto &m : after.media) (m.compare(0, 4, "mdat") ? others : mdats) += 1;
    sx_assert(others == static_cast<size_t>(f.order.find('U') != std::string::npos), "other data");
    sx_assert(mdats == 1, "one media data atom");
    sx_reach("removed");
}
// arbitrary offsets within the media data
//@ quick=60 thorough=300 threads=4 reach=moved
SX_HARNESS(offsets)
{
    static const char *const orders[] = { "FVDD", "FVD_D", "FDVD", "FV_DUD", "FVLZ", "FDDV" };
    auto f = file(orders[sx_choice(SX_THOROUGH ? 6 : 4, "order")]);
    const bool wide = sx_flag("wide");
    f.tracks[0].offsetSize = wide ? 8 : 4;
    f.tracks[0].chunks.resize(1);
    f.tracks[0].samples = { 1 };
    auto bytes = f.make();
    // find the chunk offset table and the media data
    const auto table = bytes.find(wide ? "co64" : "stco") + 12;
    const unsigned width = wide ? 8 : 4;
    auto atoms = mp4ref::children(bytes, 0, bytes.size());
    const auto offset = sx_val<std::uint64_t>("offset");
    sx_assume_((offset >= 8) & (offset < bytes.size()));
    unsigned in = 0, n = 0;
    for (const auto &a : atoms) {
        if (a.id != "mdat") continue;
        if ((offset >= a.data) & (offset < a.end)) in = n + 1;
        ++n;
    }
    sx_assume(in);
    bytes.replace(table, width, be(offset, width));
    fs_put("f.m4a", bytes);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.m4a"));
    info.open();
    info.parseEverything(diag, progress);
    info.createAppropriateTags();
    info.mp4Tag()->setValue(KnownField::Title, TagValue("longer title than before", 24, TagTextEncoding::Utf8));
    info.setForceRewrite(true);
    info.setPreferredPadding(sx_choice(2, "padding") * 64);
    info.setTagPosition(positions[sx_choice(3, "tagpos")]);
    info.applyChanges(diag, progress);
    info.close();
    noProblems(diag);
    const auto saved = fs_get("f.m4a");
    const auto old = atoms;
    atoms = mp4ref::children(saved, 0, saved.size());
    const mp4ref::Atom *from = nullptr, *to = nullptr;
    n = 0;
    for (const auto &a : old)
        if (a.id == "mdat" && ++n == in) from = &a;
    n = 0;
    for (const auto &a : atoms)
        if (a.id == "mdat" && ++n == in) to = &a;
    sx_assert(to, "media data is kept");
    const auto at = saved.find(wide ? "co64" : "stco");
    sx_assert(at != std::string::npos, "chunk offset table is kept");
    sx_assert_eq(saved.substr(at + 12, width), be(offset - from->data + to->data, width), "offset points to the same byte of the media data");
    sx_reach("moved");
}
// arbitrary base offsets of fragments
//@ quick=60 thorough=300 threads=4 reach=moved
SX_HARNESS(bases)
{
    static const char *const orders[] = { "FVMDMD", "FV_DMD", "FMDVMD" };
    auto f = file(orders[sx_choice(3, "order")]);
    f.tracks[0].chunks.clear();
    f.tracks[0].samples.clear();
    f.moovLast = mp4::atom("mvex", mp4::atom("trex", be(0, 4) + be(1, 4) + be(1, 4) + be(0, 12)));
    auto bytes = f.make();
    auto atoms = mp4ref::children(bytes, 0, bytes.size());
    const auto offset = sx_val<std::uint64_t>("offset");
    sx_assume_((offset >= 8) & (offset < bytes.size()));
    size_t in = 0;
    for (size_t i = 0; i < atoms.size(); ++i)
        if ((atoms[i].id == "mdat" || atoms[i].id == "moof") && ((offset >= atoms[i].start) & (offset < atoms[i].end))) in = i + 1;
    sx_assume(in);
    const auto nth = [](const std::vector<mp4ref::Atom> &list, const std::string &id, unsigned n) {
        for (const auto &a : list)
            if (a.id == id && !n--) return a;
        sx_assert(false, "atom is kept");
        return list.front();
    };
    unsigned n = 0;
    for (size_t i = 0; i + 1 < in; ++i) n += atoms[i].id == atoms[in - 1].id;
    // last fragment
    auto base = bytes.rfind("tfhd") + 12;
    bytes.replace(base, 8, be(offset, 8));
    fs_put("f.m4a", bytes);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.m4a"));
    info.open();
    info.parseEverything(diag, progress);
    info.createAppropriateTags();
    info.mp4Tag()->setValue(KnownField::Title, TagValue("longer title than before", 24, TagTextEncoding::Utf8));
    info.setForceRewrite(true);
    info.setPreferredPadding(sx_choice(2, "padding") * 64);
    info.applyChanges(diag, progress);
    info.close();
    noProblems(diag);
    const auto saved = fs_get("f.m4a");
    const auto from = atoms[in - 1], to = nth(mp4ref::children(saved, 0, saved.size()), from.id, n);
    base = saved.rfind("tfhd");
    sx_assert(base != std::string::npos, "fragment is kept");
    sx_assert_eq(saved.substr(base + 12, 8), be(offset - from.start + to.start, 8), "base offset points to the same byte of the media data");
    sx_reach("moved");
}
