// Fields of tags: known fields map onto the format's identifiers and back; values set are the values found, whatever happened before.
#include "../engine/sx.h"
#include "io.h"
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/id3/id3v2frameids.h>
#include <tagparser/localehelper.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <set>
using namespace TagParser;
//! bound: every known field of ID3v2.2/2.3/2.4, Vorbis comments, MP4/iTunes tags and Matroska tags; histories of two (quick) or three (thorough) operations setting single values or lists of up to three values, each possibly empty, on two fields; tag targets with every 64-bit level and up to two IDs per kind
//! outside: languages of values (T03), native data

static TagValue val(const std::string &s) { return TagValue(s, TagTextEncoding::Latin1); }
static bool any(KnownField) { return true; }

template <class T, typename F, typename I> static void mapping(T &tag, KnownField f, F canonical, I init)
{
    init(tag);
    const auto id = tag.fieldId(f);
    const bool supported = tag.supportsField(f);
    sx_assert(supported == (id != typename T::IdentifierType()), "supported fields have an identifier");
    sx_assert(!tag.hasField(f) && tag.value(f).isEmpty() && tag.values(f).empty(), "nothing there before");
    if (supported) {
        const auto g = tag.knownField(id);
        sx_assert(g == f || !canonical(f), "the identifier maps back to the field");
        sx_assert(tag.fieldId(g) == id, "the field mapped back to has the same identifier");
        sx_reach("supported");
    } else
        sx_reach("unsupported");
    const bool ok = tag.setValue(f, val("abc"));
    sx_assert(ok || !supported, "supported fields can be set");
    if (!ok) {
        sx_assert(tag.fieldCount() == 0, "a refused value changes nothing");
        return;
    }
    sx_assert(tag.hasField(f), "field is there");
    sx_assert(tag.value(f) == val("abc"), "value is there");
    const auto vs = tag.values(f);
    sx_assert(vs.size() == 1 && *vs.front() == val("abc"), "it is the only value");
    sx_assert(tag.fieldCount() == 1, "one field");
    for (auto g = firstKnownField; g != KnownField::Invalid; g = nextKnownField(g)) {
        if (g == f || (tag.fieldId(g) == id && supported)) continue;
        sx_assert(tag.value(g).isEmpty(), "other fields stay empty");
        sx_assert(!tag.hasField(g), "other fields stay absent");
    }
    // taken over by another tag of the same kind
    T other;
    init(other);
    sx_assert(other.insertValues(tag, false) == 1 && other.value(f) == val("abc"), "field is taken over");
    T third;
    init(third);
    third.setValue(f, val("old"));
    third.insertValues(tag, false);
    sx_assert(third.value(f) == val("old"), "existing value is kept");
    third.insertValues(tag, true);
    sx_assert(third.value(f) == val("abc"), "existing value is overwritten if wanted");
    tag.removeAllFields();
    sx_assert(!tag.hasField(f) && tag.fieldCount() == 0 && tag.value(f).isEmpty(), "removed");
    sx_assert(third.value(f) == val("abc"), "the other tag keeps it");
}

//@ quick=30 thorough=60 threads=2 reach=supported,unsupported
SX_HARNESS(mapping_id3v2)
{
    Id3v2Tag tag;
    const unsigned v = 2 + sx_choice(3, "version");
    tag.setVersion(static_cast<std::uint8_t>(v), 0);
    const auto f = static_cast<KnownField>(sx_range<std::uint8_t>(0, knownFieldArraySize - 1, "field"));
    const auto id = tag.fieldId(f);
    if (tag.supportsField(f)) {
        sx_assert(Id3v2FrameIds::isShortId(id) == (v < 3) || f == KnownField::RecordDate, "short identifiers before version 2.3");
        sx_assert(tag.knownField(id) == f, "the identifier maps back to the field");
        if (Id3v2FrameIds::isLongId(id)) {
            const auto s = Id3v2FrameIds::convertToShortId(id);
            if (s) sx_assert(Id3v2FrameIds::convertToLongId(s) == id, "identifier converts to short form and back");
        } else {
            const auto l = Id3v2FrameIds::convertToLongId(id);
            sx_assert(l != 0, "short identifiers have a long form");
            sx_assert(Id3v2FrameIds::convertToShortId(l) == id, "identifier converts to long form and back");
            sx_assert(tag.knownField(l) == f, "long form means the same field");
        }
    }
    mapping(tag, f, any, [v](Id3v2Tag &t) { t.setVersion(static_cast<std::uint8_t>(v), 0); });
}
//@ quick=30 thorough=60 threads=2 reach=supported,unsupported
SX_HARNESS(mapping_vorbis)
{
    VorbisComment tag;
    const auto f = static_cast<KnownField>(sx_range<std::uint8_t>(0, knownFieldArraySize - 1, "field"));
    if (f == KnownField::Vendor) {
        sx_assert(tag.setValue(f, val("abc")) && tag.value(f) == val("abc") && tag.vendor() == val("abc"), "vendor");
        return;
    }
    if (tag.supportsField(f)) {
        auto id = tag.fieldId(f), lower = id;
        for (auto &c : lower)
            if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
        sx_assert(tag.knownField(lower) == f, "field names are case-insensitive");
        VorbisComment t2;
        t2.setValue(lower, val("abc"));
        sx_assert(t2.value(f) == val("abc"), "field names are case-insensitive when set");
    }
    mapping(tag, f, any, [](auto &) {});
}
//@ quick=30 thorough=60 threads=2 reach=supported,unsupported
SX_HARNESS(mapping_mp4)
{
    Mp4Tag tag;
    const auto f = static_cast<KnownField>(sx_range<std::uint8_t>(0, knownFieldArraySize - 1, "field"));
    if (f == KnownField::EncoderSettings) { // stored as extended field
        sx_assert(tag.setValue(f, val("abc")) && tag.value(f) == val("abc"), "encoder settings");
        sx_assert(tag.value("com.apple.iTunes", "cdec") == val("abc"), "encoder settings are an extended field");
        return;
    }
    mapping(tag, f, any, [](auto &) {});
}
//@ quick=30 thorough=60 threads=2 reach=supported,unsupported
SX_HARNESS(mapping_matroska)
{
    MatroskaTag tag;
    const auto f = static_cast<KnownField>(sx_range<std::uint8_t>(0, knownFieldArraySize - 1, "field"));
    mapping(tag, f, [](KnownField x) { return x != KnownField::Performers && x != KnownField::Actor; }, [](auto &) {}); // both stored as ACTOR
}

// sequences of operations against a list of values
template <class T> static void history(T &tag, KnownField a, KnownField b, bool keepsPositions)
{
    std::vector<std::string> slots[2]; // what the fields hold, including emptied values
    const KnownField f[2] = { a, b };
    for (unsigned step = 0; step < (SX_THOROUGH ? 3 : 2); ++step) {
        const unsigned k = sx_choice(2, "field"), op = sx_choice(4, "op");
        auto &s = slots[k];
        if (op == 0) { // single value
            const auto w = sx_string(sx_flag("empty") ? 0 : 2, "value");
            tag.setValue(f[k], val(w));
            if (!s.empty())
                s[0] = w;
            else if (!w.empty())
                s.push_back(w);
        } else { // list
            const unsigned n = op == 1 ? sx_choice(4, "n") : op == 2 ? 1 : 2;
            std::vector<TagValue> vs;
            std::vector<std::string> w;
            for (unsigned i = 0; i < n; ++i) {
                w.push_back(sx_string(sx_flag("empty") ? 0 : 2, "value"));
                vs.push_back(val(w.back()));
            }
            sx_assert(tag.setValues(f[k], vs), "list is taken");
            std::vector<std::string> nonEmpty;
            for (const auto &x : w)
                if (!x.empty()) nonEmpty.push_back(x);
            if (keepsPositions) {
                if (!(s.empty() && w.empty())) s = w.empty() ? std::vector<std::string>{ std::string() } : w;
            } else {
                for (size_t i = nonEmpty.size(); i < s.size(); ++i) nonEmpty.push_back(std::string());
                s = nonEmpty;
            }
        }
        for (unsigned j = 0; j < 2; ++j) {
            const auto got = tag.values(f[j]);
            std::vector<std::string> want;
            for (const auto &x : slots[j])
                if (!x.empty()) want.push_back(x);
            sx_assert(got.size() == want.size(), "number of values");
            for (size_t i = 0; i < got.size() && i < want.size(); ++i) sx_assert_eq(got[i]->data(), want[i], "values are those set last, in order");
            if (slots[j].empty() || !slots[j][0].empty() || want.empty())
                sx_assert_eq(tag.value(f[j]).data(), want.empty() ? std::string() : want.front(), "first value");
            if (!keepsPositions) sx_assert(tag.hasField(f[j]) == !want.empty(), "presence");
        }
    }
    sx_reach("end");
}
//@ quick=40 thorough=200 threads=2 reach=end
SX_HARNESS(history_id3v2_text)
{
    Id3v2Tag tag;
    tag.setVersion(4, 0);
    history(tag, KnownField::Artist, KnownField::Genre, true);
}
//@ quick=40 thorough=200 threads=2 reach=end
SX_HARNESS(history_id3v2_other)
{
    Id3v2Tag tag;
    tag.setVersion(3, 0);
    history(tag, KnownField::Comment, KnownField::Cover, false);
}
//@ quick=40 thorough=200 threads=2 reach=end
SX_HARNESS(history_vorbis)
{
    VorbisComment tag;
    history(tag, KnownField::Artist, KnownField::Cover, false);
}
//@ quick=40 thorough=200 threads=2 reach=end
SX_HARNESS(history_matroska)
{
    MatroskaTag tag;
    history(tag, KnownField::Artist, KnownField::Title, false);
}

// targets
//@ quick=40 thorough=100 threads=2 reach=equal,matches,differs
SX_HARNESS(targets)
{
    TagTarget a, b;
    for (auto *t : { &a, &b }) {
        t->setLevel(sx_val<std::uint64_t>("level"));
        for (auto *c : { &t->tracks(), &t->chapters(), &t->editions(), &t->attachments() })
            if (sx_flag("has")) c->push_back(sx_val<std::uint64_t>("id"));
    }
    const bool eq = a == b;
    const auto lvl = [](const TagTarget &t) { return t.level(); };
    sx_assert(eq == (b == a), "symmetric");
    const bool want = (lvl(a) == lvl(b)) & (a.tracks() == b.tracks()) & (a.chapters() == b.chapters()) & (a.editions() == b.editions()) & (a.attachments() == b.attachments());
    sx_assert(eq == want, "equal exactly if level and all IDs are");
    if (eq) {
        sx_assert(a.matches(b) && b.matches(a), "equal targets match");
        sx_reach("equal");
    }
    const TagTarget none;
    sx_assert(none.matches(a) && none.isEmpty() && none.level() == 50, "the empty target matches everything");
    if (a.matches(b)) {
        if (!a.tracks().empty()) sx_assert(a.tracks() == b.tracks(), "given tracks must match");
        if (!a.chapters().empty()) sx_assert(a.chapters() == b.chapters(), "given chapters must match");
        if (!a.editions().empty()) sx_assert(a.editions() == b.editions(), "given editions must match");
        if (!a.attachments().empty()) sx_assert(a.attachments() == b.attachments(), "given attachments must match");
        sx_reach("matches");
    } else
        sx_reach("differs");
    sx_assert(a.isEmpty() || !(a.tracks().empty() && a.chapters().empty() && a.editions().empty() && a.attachments().empty() && a.level() == 50) || a == none, "emptiness");
    a.clear();
    sx_assert(a.isEmpty() && a == TagTarget(), "cleared");
}

// what the formats specify (ID3v2.2, 2.3/2.4, Vorbis comments, iTunes, Matroska)
struct Known {
    KnownField field;
    const char *v2, *v34, *vorbis, *mp4, *mkv;
};
static const Known KNOWN[] = {
    { KnownField::Title, "TT2", "TIT2", "TITLE", "\xa9nam", "TITLE" },
    { KnownField::Album, "TAL", "TALB", "ALBUM", "\xa9" "alb", "ALBUM" },
    { KnownField::Artist, "TP1", "TPE1", "ARTIST", "\xa9" "ART", "ARTIST" },
    { KnownField::Genre, "TCO", "TCON", "GENRE", "\xa9gen", "GENRE" },
    { KnownField::Comment, "COM", "COMM", "COMMENT", "\xa9" "cmt", "COMMENT" },
    { KnownField::Bpm, "TBP", "TBPM", "BPM", "tmpo", "BPM" },
    { KnownField::Lyricist, "TXT", "TEXT", "LYRICIST", nullptr, "LYRICIST" },
    { KnownField::TrackPosition, "TRK", "TRCK", "TRACKNUMBER", "trkn", nullptr },
    { KnownField::DiskPosition, "TPA", "TPOS", "DISCNUMBER", "disk", nullptr },
    { KnownField::PartNumber, nullptr, nullptr, "PARTNUMBER", nullptr, "PART_NUMBER" },
    { KnownField::TotalParts, nullptr, nullptr, nullptr, nullptr, "TOTAL_PARTS" },
    { KnownField::Encoder, "TEN", "TENC", "ENCODER", "\xa9too", "ENCODER" },
    { KnownField::RecordDate, nullptr, "TDRC", "DATE", "\xa9" "day", "DATE_RECORDED" },
    { KnownField::ReleaseDate, nullptr, "TDRL", nullptr, nullptr, "DATE_RELEASED" },
    { KnownField::Length, "TLE", "TLEN", nullptr, nullptr, nullptr },
    { KnownField::Language, "TLA", "TLAN", "LANGUAGE", nullptr, nullptr },
    { KnownField::EncoderSettings, "TSS", "TSSE", nullptr, nullptr, "ENCODER_SETTINGS" },
    { KnownField::Lyrics, "ULT", "USLT", "LYRICS", "\xa9lyr", "LYRICS" },
    { KnownField::SynchronizedLyrics, "SLT", "SYLT", nullptr, nullptr, nullptr },
    { KnownField::Grouping, "TT1", "TIT1", "GROUPING", "\xa9grp", nullptr },
    { KnownField::RecordLabel, nullptr, nullptr, "LABEL", "\xa9lab", "LABEL" },
    { KnownField::Publisher, "TPB", "TPUB", "PUBLISHER", "\xa9pub", "PUBLISHER" },
    { KnownField::Cover, "PIC", "APIC", "METADATA_BLOCK_PICTURE", "covr", nullptr },
    { KnownField::Composer, "TCM", "TCOM", "COMPOSER", "\xa9wrt", "COMPOSER" },
    { KnownField::Rating, "POP", "POPM", "RATING", nullptr, "RATING" },
    { KnownField::PlayCounter, "CNT", "PCNT", nullptr, nullptr, "PLAY_COUNTER" },
    { KnownField::Description, nullptr, nullptr, "DESCRIPTION", "desc", "DESCRIPTION" },
    { KnownField::AlbumArtist, "TP2", "TPE2", "ALBUMARTIST", "aART", "ACCOMPANIMENT" },
    { KnownField::RemixedBy, "TP4", "TPE4", nullptr, nullptr, "REMIXED_BY" },
    { KnownField::Copyright, "TCR", "TCOP", "COPYRIGHT", "cprt", "COPYRIGHT" },
    { KnownField::TaggingDate, nullptr, "TDTG", nullptr, nullptr, "DATE_TAGGED" },
    { KnownField::EncodingDate, nullptr, "TDEN", nullptr, nullptr, "DATE_ENCODED" },
    { KnownField::OriginalReleaseDate, nullptr, "TDOR", nullptr, nullptr, nullptr },
    { KnownField::OriginalMediaType, "TMT", "TMED", nullptr, nullptr, "ORIGINAL_MEDIA_TYPE" },
    { KnownField::Mood, nullptr, "TMOO", nullptr, nullptr, "MOOD" },
    { KnownField::ISRC, "TRC", "TSRC", "ISRC", nullptr, "ISRC" },
    { KnownField::InitialKey, "TKE", "TKEY", nullptr, nullptr, "INITIAL_KEY" },
    { KnownField::PublisherWebpage, "WPB", "WPUB", nullptr, nullptr, nullptr },
    { KnownField::PerformerWebpage, "WAR", "WOAR", "WEBSITE", nullptr, nullptr },
    { KnownField::PurchaseItem, nullptr, "WPAY", nullptr, nullptr, "PURCHASE_ITEM" },
    { KnownField::Subtitle, "TT3", "TIT3", nullptr, nullptr, "SUBTITLE" },
    { KnownField::Conductor, nullptr, nullptr, "CONDUCTOR", "@con", "CONDUCTOR" },
    { KnownField::Director, nullptr, nullptr, "DIRECTOR", "@dir", "DIRECTOR" },
    { KnownField::Arranger, nullptr, nullptr, "ARRANGER", "\xa9" "arg", "ARRANGER" },
    { KnownField::Performers, nullptr, nullptr, "PERFORMER", "\xa9prf", nullptr },
    { KnownField::License, nullptr, nullptr, "LICENSE", nullptr, "LICENSE" },
    { KnownField::Synopsis, nullptr, nullptr, nullptr, "ldes", "SYNOPSIS" },
    { KnownField::StoreDescription, nullptr, nullptr, nullptr, "sdes", nullptr },
    { KnownField::MediaType, nullptr, nullptr, nullptr, "stik", nullptr },
    { KnownField::EncodedBy, nullptr, nullptr, "ENCODED_BY", "\xa9" "enc", "ENCODED_BY" },
};
static std::uint32_t fourcc(const char *s)
{
    std::uint32_t r = 0;
    for (; *s; ++s) r = r << 8 | static_cast<unsigned char>(*s);
    return r;
}
//@ quick=30 thorough=60 threads=2 reach=id3v2,vorbis,mp4,mkv
SX_HARNESS(specified_identifiers)
{
    const auto &k = KNOWN[sx_choice(sizeof(KNOWN) / sizeof(*KNOWN), "field")];
    switch (sx_choice(4, "format")) {
    case 0: {
        Id3v2Tag tag;
        const auto v = 2 + sx_choice(3, "version");
        tag.setVersion(static_cast<std::uint8_t>(v), 0);
        if (const char *const id = v == 2 ? k.v2 : k.v34) {
            sx_assert(tag.knownField(fourcc(id)) == k.field, "meaning of the frame");
            sx_assert(tag.fieldId(k.field) == fourcc(id), "frame of the field");
            tag.setValue(k.field, val("abc"));
            sx_assert(tag.value(fourcc(id)) == val("abc"), "value of the frame");
            sx_reach("id3v2");
        }
        break;
    }
    case 1:
        if (k.vorbis) {
            VorbisComment tag;
            sx_assert(tag.knownField(k.vorbis) == k.field, "meaning of the name");
            sx_assert(tag.fieldId(k.field) == k.vorbis, "name of the field");
            sx_reach("vorbis");
        }
        break;
    case 2:
        if (k.mp4) {
            Mp4Tag tag;
            sx_assert(tag.knownField(fourcc(k.mp4)) == k.field, "meaning of the atom");
            sx_assert(tag.fieldId(k.field) == fourcc(k.mp4), "atom of the field");
            sx_reach("mp4");
        }
        break;
    default:
        if (k.mkv) {
            MatroskaTag tag;
            sx_assert(tag.knownField(k.mkv) == k.field, "meaning of the name");
            sx_assert(tag.fieldId(k.field) == k.mkv, "name of the field");
            sx_reach("mkv");
        }
    }
}

static std::unique_ptr<Tag> make(unsigned format)
{
    if (format < 3) {
        auto t = std::make_unique<Id3v2Tag>();
        t->setVersion(static_cast<std::uint8_t>(2 + format), 0);
        return t;
    }
    if (format == 3) return std::make_unique<VorbisComment>();
    if (format == 4) return std::make_unique<Mp4Tag>();
    return std::make_unique<MatroskaTag>();
}
//@ quick=60 thorough=120 threads=4 reach=moved,kept,unsupported
SX_HARNESS(other_formats)
{
    // whatever both formats know is taken over
    const auto a = sx_choice(6, "from"), b = sx_choice(6, "to");
    auto from = make(a), to = make(b);
    const auto f = static_cast<KnownField>(sx_range<std::uint8_t>(0, knownFieldArraySize - 1, "field"));
    const auto v = sx_string(2, "value"), w = sx_string(2, "other");
    if (f == KnownField::Vendor || !from->setValue(f, val(v))) return; // (the vendor denotes who wrote the tag)
    if (f == KnownField::Performers || f == KnownField::Actor) return; // (the same for Matroska)
    const bool has = sx_flag("has") && to->setValue(f, val(w)), overwrite = sx_flag("overwrite");
    const auto n = to->insertValues(*from, overwrite);
    const bool supported = to->setValue(KnownField::Title, val("t")) && make(b)->setValue(f, val(v));
    if (f == KnownField::Title) to->setValue(f, val(has && !overwrite ? w : v));
    if (!supported && (a < 3) != (b < 3)) {
        sx_assert(n == 0, "nothing to take over");
        sx_reach("unsupported");
        return;
    }
    if (!supported) return;
    sx_assert(n == (has && !overwrite ? 0 : 1), "number of fields taken over");
    sx_assert_eq(to->value(f).data(), has && !overwrite ? w : v, "value");
    sx_assert_eq(from->value(f).data(), v, "the other tag is left alone");
    sx_reach(has && !overwrite ? "kept" : "moved");
}
//@ quick=60 thorough=120 threads=4 reach=all,kept
SX_HARNESS(several_values)
{
    // tags of the same format: all values are taken over
    const auto format = sx_choice(4, "format");
    const auto f = sx_flag("comment") ? KnownField::Comment : KnownField::Artist;
    auto from = make(format > 1 ? format + 2 : format + 1), to = make(format > 1 ? format + 2 : format + 1);
    std::vector<TagValue> values;
    std::vector<std::string> s;
    const auto n = sx_choice(4, "n");
    for (unsigned i = 0; i < n; ++i) {
        s.push_back(sx_string(2, "value"));
        values.push_back(val(s.back()));
    }
    from->setValues(f, values);
    from->setValue(KnownField::Title, val("title"));
    const bool has = sx_flag("has"), overwrite = sx_flag("overwrite");
    const auto old = sx_string(2, "old");
    if (has) to->setValue(f, val(old));
    to->insertValues(*from, overwrite);
    const auto r = to->values(f);
    if (has && (!overwrite || !n)) {
        sx_assert(r.size() == 1 && r[0]->data() == old, "existing value is kept");
        sx_reach("kept");
    } else {
        sx_assert(r.size() == n, "all values are taken over");
        for (size_t i = 0; i < r.size() && i < n; ++i) sx_assert_eq(r[i]->data(), s[i], "values are taken over in order");
        sx_reach("all");
    }
    sx_assert(to->value(KnownField::Title) == val("title"), "other field");
}

// inserting fields with additional type information (types of pictures in ID3v2 tags and Vorbis comments)
template <class TagT, class FieldT> static void insertTyped(typename FieldT::IdentifierType id)
{
    TagT from, to;
    const bool overwrite = sx_flag("overwrite");
    struct Entry {
        unsigned type;
        std::string value;
        bool operator==(const Entry &o) const { return type == o.type && value == o.value; }
    };
    std::vector<Entry> a, b;
    const auto fill = [&](TagT &tag, std::vector<Entry> &entries, unsigned n, const char *name) {
        for (unsigned i = 0; i < n; ++i) {
            FieldT f;
            f.setId(id);
            Entry e;
            e.type = sx_choice(4, "type"); // 0: not assigned
            e.value = sx_flag("empty") ? std::string() : sx_string(2, name);
            f.setValue(e.value.empty() ? TagValue() : TagValue(e.value.data(), e.value.size(), TagDataType::Picture));
            if (e.type) f.setTypeInfo(e.type);
            tag.fields().insert(std::make_pair(id, f));
            entries.push_back(e);
        }
    };
    fill(from, a, 1 + sx_choice(2, "from"), "a");
    fill(to, b, sx_choice(3, "to"), "b");
    auto expected = b;
    std::vector<bool> isNew(b.size(), false);
    size_t inserted = 0;
    for (const auto &e : a) {
        if (e.value.empty()) continue;
        size_t i = 0;
        while (i < expected.size() && (isNew[i] || expected[i].type != e.type)) ++i;
        if (i == expected.size()) {
            expected.push_back(e);
            isNew.push_back(true);
            ++inserted;
            sx_reach("added");
        } else if (overwrite || expected[i].value.empty()) {
            expected[i] = e;
            isNew[i] = true;
            ++inserted;
            sx_reach("replaced");
        } else {
            sx_reach("kept");
        }
    }
    const auto n = to.insertFields(from, overwrite);
    sx_assert(n == inserted, "number of fields inserted");
    sx_assert(to.fields().size() == expected.size(), "number of fields");
    size_t i = 0;
    for (const auto &f : to.fields()) {
        if (i == expected.size()) break;
        sx_assert((f.second.isTypeInfoAssigned() ? static_cast<unsigned>(f.second.typeInfo()) : 0u) == expected[i].type, "type of field");
        sx_assert_eq(std::string(f.second.value().dataPointer(), f.second.value().dataSize()), expected[i].value, "value of field");
        ++i;
    }
    sx_assert(from.fields().size() == a.size(), "other tag is left alone");
}
//@ quick=60 thorough=120 threads=4 reach=added,replaced,kept
SX_HARNESS(insert_pictures)
{
    if (sx_flag("vorbis"))
        insertTyped<VorbisComment, VorbisCommentField>("METADATA_BLOCK_PICTURE");
    else
        insertTyped<Id3v2Tag, Id3v2Frame>(fourcc("APIC"));
}
