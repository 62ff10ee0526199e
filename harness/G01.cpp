// Creating, converting, merging and removing tags of a file according to settings.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "txt.h"
#include "ogg.h"
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/id3/id3v2frameids.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/ogg/oggcontainer.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tagvalue.h>
#include "media.h"
#include <map>
using namespace TagParser;
using namespace CppUtilities;
//! bound: MP3 files with or without an ID3v1 tag (title present or not) and up to two ID3v2 tags (title and artist present or not, ID3v2.3 and 2.4) of arbitrary characters, all usages of both kinds of tags with all 32 combinations of flags and all versions; files of unknown format; Matroska files with up to two tags of arbitrary target and up to two arbitrary required targets; Ogg files of two streams with every set of tags removed; MP4 and FLAC files with and without tags; removal of any tag
//! outside: values of further fields (transferred by the same functions; see the property about fields); required targets of chapters, editions and attachments

static std::string letter(const char *name, unsigned lo = 0x21, unsigned hi = 0x7E)
{
    auto s = sx_string(1, name);
    sx_assume_((s[0] >= static_cast<char>(lo)) & (s[0] <= static_cast<char>(hi)));
    return s;
}
using Values = std::map<KnownField, std::string>;
struct V2 {
    std::uint8_t version;
    Values values;
};
struct State {
    bool v1 = false;
    Values v1values;
    std::vector<V2> v2;
};
static std::string frame(unsigned version, const char *id, const std::string &text)
{
    // UTF-16 which ID3v1 does not support
    std::string c("\1\xff\xfe", 3);
    for (char ch : text) c += ch, c += '\0';
    return std::string(id, 4) + be(c.size(), 4) + std::string(2, '\0') + c;
    (void)version; // (sizes below 128 are the same in both versions)
}
static std::string id3v2(const V2 &t)
{
    std::string frames = frame(t.version, "TENC", "e");
    for (const auto &v : t.values) frames += frame(t.version, v.first == KnownField::Title ? "TIT2" : v.first == KnownField::Artist ? "TPE1" : "TALB", v.second);
    return std::string("ID3") + static_cast<char>(t.version) + std::string(2, '\0') + be(frames.size(), 4) + frames;
}
static std::string mp3(const State &s)
{
    std::string b;
    for (const auto &t : s.v2) b += id3v2(t);
    b += std::string("\xff\xfb\x90\x40" "a") + std::string(150, 'a');
    if (s.v1) {
        std::string t = "TAG" + std::string(125, '\0');
        for (const auto &v : s.v1values) t.replace(v.first == KnownField::Title ? 3 : v.first == KnownField::Artist ? 33 : 63, v.second.size(), v.second);
        t[126] = 5, t[127] = 17; // track and genre
        b += t;
    }
    return b;
}
static State someState(bool both = false)
{
    State s;
    if (const auto k = both ? 1 + sx_choice(2, "v1") : sx_choice(3, "v1")) {
        s.v1 = true;
        if (k == 2) s.v1values[KnownField::Title] = letter("v1title");
        s.v1values[KnownField::Album] = letter("v1album");
    }
    const auto n = sx_choice(3, "v2");
    if (n) {
        s.v2.emplace_back();
        s.v2[0].version = sx_flag("v4") ? 4 : 3;
        if (sx_flag("title")) s.v2[0].values[KnownField::Title] = letter("v2title");
        if (sx_flag("artist")) s.v2[0].values[KnownField::Artist] = letter("v2artist");
    }
    if (n > 1) {
        s.v2.emplace_back();
        s.v2[1].version = s.v2[0].version == 3 ? 4 : 3;
        s.v2[1].values[KnownField::Title] = letter("v2title2");
        s.v2[1].values[KnownField::Artist] = letter("v2artist2");
    }
    return s;
}
static void insert(Values &to, const Values &from)
{
    for (const auto &v : from) to.insert(v);
}
static const KnownField FIELDS[] = { KnownField::Title, KnownField::Artist, KnownField::Album };
static void sameValues(const Tag &tag, const Values &want, const char *what)
{
    for (auto f : FIELDS) {
        const auto i = want.find(f);
        const auto &v = tag.value(f);
        if (i == want.end()) sx_assert(v.isEmpty(), what);
        else {
            sx_assert_eq(v.toString(TagTextEncoding::Utf8), i->second, what);
            if (tag.type() == TagType::Id3v1Tag) sx_assert(v.dataEncoding() == TagTextEncoding::Latin1 || v.dataEncoding() == TagTextEncoding::Utf8, "encoding is supported by ID3v1");
        }
    }
}
static void check(MediaFileInfo &info, const State &s)
{
    sx_assert(info.hasId3v1Tag() == s.v1 && (info.id3v1Tag() != nullptr) == s.v1, "presence of ID3v1 tag");
    sx_assert(info.id3v2Tags().size() == s.v2.size() && info.hasId3v2Tag() == !s.v2.empty(), "number of ID3v2 tags");
    if (info.hasId3v1Tag() != s.v1 || info.id3v2Tags().size() != s.v2.size()) return;
    if (s.v1) sameValues(*info.id3v1Tag(), s.v1values, "ID3v1 tag");
    for (size_t i = 0; i < s.v2.size(); ++i) {
        sameValues(*info.id3v2Tags()[i], s.v2[i].values, "ID3v2 tag");
        sx_assert(info.id3v2Tags()[i]->majorVersion() == s.v2[i].version, "version of ID3v2 tag");
    }
    const auto tags = info.tags();
    sx_assert(tags.size() == s.v2.size() + (s.v1 ? 1 : 0) && info.hasAnyTag() == !tags.empty(), "list of tags");
}
static void merge(State &s)
{
    for (size_t i = 1; i < s.v2.size(); ++i) insert(s.v2[0].values, s.v2[i].values);
    if (s.v2.size() > 1) s.v2.resize(1);
}

//@ quick=100 thorough=900 threads=6 reach=changed,same,saved
SX_HARNESS(id3_creation)
{
    State s = someState();
    fs_put("f.mp3", mp3(s));
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.mp3"));
    info.open();
    info.parseContainerFormat(diag, progress);
    TagCreationSettings settings;
    sx_assert(!info.createAppropriateTags(settings) && info.tags().empty(), "tags need to be parsed before");
    info.parseEverything(diag, progress);
    check(info, s);
    settings.id3v1usage = static_cast<TagUsage>(sx_range<int>(0, 2, "v1usage"));
    settings.id3v2usage = static_cast<TagUsage>(sx_range<int>(0, 2, "v2usage"));
    settings.flags = static_cast<TagCreationFlags>(sx_range<std::uint8_t>(0, 31, "flags"));
    settings.id3v2MajorVersion = sx_range<std::uint8_t>(2, 4, "version");
    // as documented
    const auto flag = [&](TagCreationFlags f) { return bool(settings.flags & f); };
    const State before = s;
    const bool v1created = settings.id3v1usage == TagUsage::Always && !s.v1;
    if (v1created) {
        s.v1 = true;
        if (flag(TagCreationFlags::Id3InitOnCreate))
            for (const auto &t : s.v2) for (const auto &v : t.values) s.v1values[v.first] = v.second;
    }
    bool v2created = false;
    if (settings.id3v2usage == TagUsage::Always && s.v2.empty()) {
        v2created = true;
        s.v2.emplace_back();
        s.v2[0].version = settings.id3v2MajorVersion;
        if (flag(TagCreationFlags::Id3InitOnCreate) && s.v1) s.v2[0].values = s.v1values;
    }
    if (flag(TagCreationFlags::MergeMultipleSuccessiveId3v2Tags)) merge(s);
    bool transferred = v2created && flag(TagCreationFlags::Id3InitOnCreate);
    if (settings.id3v1usage == TagUsage::Never && s.v1) {
        if (flag(TagCreationFlags::Id3TransferValuesOnRemoval) && !s.v2.empty()) insert(s.v2[0].values, s.v1values), transferred = true;
        s.v1 = false;
    }
    if (settings.id3v2usage == TagUsage::Never) {
        if (flag(TagCreationFlags::Id3TransferValuesOnRemoval) && s.v1)
            for (const auto &t : s.v2) insert(s.v1values, t.values);
        s.v2.clear();
    } else if (!flag(TagCreationFlags::KeepExistingId3v2Version))
        for (auto &t : s.v2) t.version = settings.id3v2MajorVersion;
    sx_assert(info.createAppropriateTags(settings), "tags are created");
    check(info, s);
    // numeric fields are transferred as well
    if (before.v1 && transferred && !s.v2.empty()) {
        sx_assert(info.id3v2Tags()[0]->value(KnownField::TrackPosition).toPositionInSet().position() == 5, "track position");
        sx_assert(info.id3v2Tags()[0]->value(KnownField::Genre).toStandardGenreIndex() == 17, "genre");
    }
    const bool changed = s.v1 != before.v1 || s.v2.size() != before.v2.size();
    sx_reach(changed ? "changed" : "same");
    // doing it again changes nothing
    sx_assert(info.createAppropriateTags(settings), "tags are present");
    if (!(settings.id3v1usage == TagUsage::Never && settings.id3v2usage == TagUsage::Never)) check(info, s);
    sx_reach("saved");
}

//@ quick=60 thorough=300 threads=4 reach=to2,to1,nothing
SX_HARNESS(id3_conversion)
{
    State s = someState();
    fs_put("f.mp3", mp3(s));
    Diagnostics diag, diag2;
    AbortableProgressFeedback progress;
    {
        MediaFileInfo info(std::string("f.mp3"));
        info.open();
        sx_assert(!info.id3v1ToId3v2() && !info.id3v2ToId3v1(), "tags need to be parsed before");
        info.parseEverything(diag, progress);
        switch (sx_choice(3, "action")) {
        case 0:
            sx_assert(info.id3v1ToId3v2() == s.v1, "only done if there's an ID3v1 tag");
            if (s.v1) {
                merge(s);
                if (s.v2.empty()) s.v2.push_back(V2{ 3, {} });
                insert(s.v2[0].values, s.v1values);
                s.v1 = false;
                sx_reach("to2");
            } else
                sx_reach("nothing");
            break;
        case 1:
            sx_assert(info.id3v2ToId3v1() == !s.v2.empty(), "only done if there's an ID3v2 tag");
            if (!s.v2.empty()) {
                if (!s.v1) // (the last one counts)
                    for (const auto &t : s.v2) for (const auto &v : t.values) s.v1values[v.first] = v.second;
                s.v1 = true;
                merge(s);
                insert(s.v1values, s.v2[0].values);
                s.v2.clear();
                sx_reach("to1");
            } else
                sx_reach("nothing");
            break;
        case 2:
            info.mergeId3v2Tags();
            merge(s);
            break;
        }
        check(info, s);
        info.applyChanges(diag, progress);
    }
    // and what was converted is stored
    MediaFileInfo info(std::string("f.mp3"));
    info.open();
    info.parseEverything(diag2, progress);
    check(info, s);
}

//@ quick=60 thorough=200 threads=2 reach=refused,treated,known
SX_HARNESS(other_formats)
{
    static const char *const HEADS[] = { "unknown format", "\xff\xf1\x50\x80", "FORM\0\0\0\x90""AIFF", "wvpk", "RIFF\x90\0\0\0WAVEfmt \x10\0\0\0\1\0\2\0\x44\xac\0\0\x10\xb1\2\0\4\0\x10\0data\x10\0\0\0", "\xff\xfb\x90\x40" };
    static const ContainerFormat FORMATS[] = { ContainerFormat::Unknown, ContainerFormat::Adts, ContainerFormat::Aiff, ContainerFormat::WavPack, ContainerFormat::RiffWave, ContainerFormat::MpegAudioFrames };
    static const unsigned SIZES[] = { 14, 4, 12, 4, 44, 4 };
    const auto k = sx_choice(6, "format");
    State s;
    s.v1 = sx_flag("v1");
    if (s.v1) s.v1values[KnownField::Title] = letter("v1title");
    std::string b = mp3(s);
    b.replace(0, SIZES[k], HEADS[k], SIZES[k]);
    fs_put("f.mp3", b);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.mp3"));
    info.open();
    info.parseEverything(diag, progress);
    sx_assert(info.containerFormat() == FORMATS[k], "format");
    TagCreationSettings settings;
    const bool treat = sx_flag("treat");
    settings.setFlag(TagCreationFlags::TreatUnknownFilesAsMp3Files, treat);
    sx_assert(bool(settings.flags & TagCreationFlags::TreatUnknownFilesAsMp3Files) == treat && (settings.flags & TagCreationFlags::Id3TransferValuesOnRemoval), "flags");
    const bool ok = s.v1 || treat || (k != 0 && k != 4);
    sx_assert(info.createAppropriateTags(settings) == ok, "refused unless the format is known to have ID3 tags or tags are present");
    if (ok) s.v2.push_back(V2{ 3, {} });
    check(info, s);
    sx_reach(!ok ? "refused" : treat ? "treated" : "known");
}

static TagTarget target(const char *name)
{
    const auto kind = sx_choice(4, name);
    if (!kind) return TagTarget();
    const auto level = kind == 1 ? sx_range<std::uint8_t>(1, 70, "level") : kind == 2 ? sx_range<std::uint8_t>(0, 70, "level") : std::uint8_t();
    if (kind == 1) return TagTarget(level);
    const auto track = sx_range<std::uint8_t>(1, 3, "track");
    if (kind == 2) return TagTarget(level, { track });
    return TagTarget(0, { 1, track });
}
static bool same(const TagTarget &a, const TagTarget &b) { return (a.level() ? a.level() : 50) == (b.level() ? b.level() : 50) && a.tracks() == b.tracks(); }

//@ quick=60 thorough=300 threads=4 reach=done
SX_HARNESS(matroska_targets)
{
    fs_put("f.mkv", media::make(media::Mkv));
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.mkv"));
    info.open();
    info.parseEverything(diag, progress);
    sx_assert(info.matroskaTags().size() == 1, "there's one tag");
    std::vector<TagTarget> existing, wanted;
    const auto n = sx_choice(3, "existing");
    if (!n) info.removeAllTags();
    if (n > 0) existing.emplace_back();
    if (n > 1) {
        existing.push_back(target("existing"));
        sx_assume(!existing.back().isEmpty() && !same(existing[0], existing[1]));
        info.container()->createTag(existing.back());
    }
    sx_assert(info.tags().size() == n, "tags");
    const auto first = info.tags();
    TagCreationSettings settings;
    const auto m = sx_choice(3, "required");
    for (unsigned i = 0; i < m; ++i) settings.requiredTargets.push_back(target("required"));
    sx_assert(info.createAppropriateTags(settings), "tags are created");
    const auto tags = info.tags();
    sx_assert(!tags.empty(), "there's at least one tag");
    // existing tags are kept
    for (size_t i = 0; i < n && i < tags.size(); ++i) sx_assert(tags[i] == first[i] && same(tags[i]->target(), existing[i]), "existing tags are kept");
    // each required target is there, each one once, and nothing else
    for (const auto &t : settings.requiredTargets) {
        if (t.isEmpty()) continue; // (any tag will do)
        unsigned count = 0;
        for (const auto *tag : tags) count += same(tag->target(), t) ? 1 : 0;
        sx_assert(count == 1, "there's one tag for each required target");
    }
    for (size_t i = n; i < tags.size(); ++i) {
        bool found = settings.requiredTargets.empty() && tags.size() == 1;
        for (const auto &t : settings.requiredTargets) found = found || same(tags[i]->target(), t);
        sx_assert(found, "only required tags are created");
    }
    sx_reach("done");
}

static std::string twoStreams()
{
    std::string head, rest;
    for (unsigned serial = 7; serial < 9; ++serial) {
        const auto id = "\1vorbis" + le(0, 4) + '\2' + le(44100, 4) + le(0, 4) + le(128000, 4) + le(0, 4) + '\xb8' + '\1';
        const auto c = "\3vorbis" + le(1, 4) + "v" + le(1, 4) + le(7, 4) + "TITLE=" + static_cast<char>('0' + serial) + '\1';
        const auto setup = "\5vorbis" + std::string(20, 's');
        head += ogg::page(2, 0, serial, 0, ogg::lace({ id.size() }), id);
        rest += ogg::page(0, 0, serial, 1, ogg::lace({ c.size(), setup.size() }), c + setup) + ogg::page(4, 100, serial, 2, ogg::lace({ 5 }), "audio");
    }
    return head + rest;
}
//@ quick=60 thorough=200 threads=2 reach=done
SX_HARNESS(ogg_targets)
{
    fs_put("f.ogg", twoStreams());
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.ogg"));
    info.open();
    info.parseEverything(diag, progress);
    const auto before = info.tags();
    sx_assert(before.size() == 2, "each stream has a comment");
    if (before.size() != 2) return;
    const auto t1 = info.tracks()[0]->id(), t2 = info.tracks()[1]->id();
    bool present[2] = { true, true };
    for (unsigned i = 0; i < 2; ++i)
        if (sx_flag("remove")) {
            sx_assert(info.removeTag(before[i]), "comment is removed");
            present[i] = false;
        }
    sx_assert(info.tags().size() == unsigned(present[0]) + unsigned(present[1]), "removed comments are not listed");
    TagCreationSettings settings;
    const auto required = sx_choice(3, "required"); // none, one of the streams, both
    std::vector<unsigned> want;
    if (required == 1) want.push_back(sx_choice(2, "stream"));
    if (required == 2) {
        want.push_back(sx_choice(2, "stream"));
        want.push_back(1 - want[0]);
    }
    for (auto w : want) settings.requiredTargets.emplace_back(0, TagTarget::IdContainerType{ w ? t2 : t1 });
    sx_assert(info.createAppropriateTags(settings), "tags are created");
    if (want.empty()) {
        if (!present[0] && !present[1]) present[0] = true;
    }
    for (auto w : want) present[w] = true;
    std::vector<Tag *> expected;
    for (unsigned i = 0; i < 2; ++i) if (present[i]) expected.push_back(before[i]);
    sx_assert(info.tags() == expected, "the comments of the required streams are there");
    sx_reach("done");
}

// single tags
//@ quick=60 thorough=200 threads=2 reach=mp4,flac,ogg,mkv
SX_HARNESS(single_tags)
{
    static const media::Kind KINDS[] = { media::Mp4, media::Flac, media::Ogg, media::Mkv };
    const auto k = sx_choice(4, "kind");
    // files of other formats might have ID3 tags as well
    const bool id3 = k != 2 && sx_flag("id3");
    State s;
    s.v1 = id3;
    std::string b = media::make(KINDS[k]);
    if (id3) b += "TAGtitle" + std::string(119, '\0') + '\x11';
    const auto path = std::string("f") + media::extension(KINDS[k]);
    fs_put(path, b);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(path);
    info.open();
    info.parseContainerFormat(diag, progress);
    sx_assert(!info.hasAnyTag() && info.tags().empty() && !info.createAppropriateTags(TagCreationSettings()), "tags are not parsed yet");
    info.parseEverything(diag, progress);
    auto tags = info.tags();
    const auto id3count = id3 ? 1u : 0u;
    sx_assert(tags.size() == 1 + id3count && info.hasAnyTag() && info.parsedTags() == tags, "one tag plus the ID3 tag");
    if (tags.size() != 1 + id3count) return;
    Tag *const own = tags.back(), *const other = id3 ? tags.front() : nullptr;
    sx_assert(own->type() == (k == 0 ? TagType::Mp4Tag : k == 1 ? TagType::VorbisComment : k == 2 ? TagType::OggVorbisComment : TagType::MatroskaTag), "type of tag");
    if (other) sx_assert(other->type() == TagType::Id3v1Tag, "type of ID3 tag");
    sx_assert((info.mp4Tag() != nullptr) == (k == 0) && (info.vorbisComment() != nullptr) == (k == 1 || k == 2) && info.matroskaTags().size() == (k == 3 ? 1u : 0u), "tag can be accessed");
    switch (sx_choice(5, "action")) {
    case 0:
        sx_assert(info.createAppropriateTags(TagCreationSettings()), "tags are present");
        break;
    case 1:
        sx_assert(info.removeTag(own), "tag is removed");
        tags.pop_back();
        break;
    case 2:
        info.removeAllTags();
        tags.clear();
        break;
    case 3: {
        Id3v1Tag foreign;
        sx_assert(!info.removeTag(nullptr) && !info.removeTag(&foreign), "what's not there can't be removed");
        break;
    }
    case 4:
        sx_assert(info.removeTag(other) == id3, "ID3 tag is removed");
        if (id3) tags.erase(tags.begin());
        break;
    }
    sx_assert(info.tags().size() == tags.size() && info.hasAnyTag() == !tags.empty(), "remaining tags");
    const bool ownLeft = !tags.empty() && tags.back() == own;
    sx_assert((info.mp4Tag() != nullptr) == (k == 0 && ownLeft) && (info.vorbisComment() != nullptr) == ((k == 1 || k == 2) && ownLeft) && info.matroskaTags().size() == (k == 3 && ownLeft ? 1u : 0u), "only what's left can be accessed");
    if (ownLeft) sx_assert_eq(own->value(KnownField::Title).toString(TagTextEncoding::Utf8), "ab", "values are kept");
    // and it is created again if needed
    sx_assert(info.createAppropriateTags(TagCreationSettings()), "tags are created");
    unsigned count = 0;
    for (const auto *t : info.tags()) {
        if (t->type() == TagType::Id3v1Tag || t->type() == TagType::Id3v2Tag) continue;
        ++count;
        if (!ownLeft) sx_assert(!t->fieldCount(), "a new tag is empty");
    }
    sx_assert(count == 1, "there's one tag again");
    sx_reach(k == 0 ? "mp4" : k == 1 ? "flac" : k == 2 ? "ogg" : "mkv");
}
