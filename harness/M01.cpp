// MP4 atoms and iTunes-style tags are written and read back unchanged.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "media.h"
#include "mp4ref.h"
#include "txt.h"
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3genres.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/mp4/mp4atom.h>
#include <tagparser/mp4/mp4container.h>
#include <tagparser/mp4/mp4ids.h>
#include <tagparser/mp4/mp4tag.h>
using namespace TagParser;
//! bound: one field at a time (up to three for interactions) with texts of up to 3 arbitrary bytes in every encoding, arbitrary numbers, positions, genres, ratings, media types, covers and extended fields; foreign data atoms of every type with up to 9 arbitrary bytes, one or two per field, damaged and truncated fields; atom headers with 16 arbitrary bytes
//! outside: locale indicators other than preserving them; atoms and tags of more than 4 GiB

template <class A, class B> static void same(A a, B b, const char *msg) { sx_assert(static_cast<std::uint64_t>(a) == static_cast<std::uint64_t>(b), msg); }
static std::string file(const std::string &ilst)
{
    return mp4::ftyp() + mp4::atom("moov", mp4::mvhd() + mp4::udta(ilst)) + mp4::atom("mdat", "data");
}
static std::string field(const char *id, const std::string &content) { return mp4::atom("ilst", mp4::atom(id, content)); }
struct Parsed {
    MediaFileInfo info;
    Diagnostics diag;
    Mp4Tag *tag = nullptr;
    explicit Parsed(const std::string &content)
        : info(std::string("f.m4a"))
    {
        fs_put("f.m4a", content);
        info.open(true);
        AbortableProgressFeedback progress;
        info.parseContainerFormat(diag, progress);
        sx_assert(info.containerFormat() == ContainerFormat::Mp4, "recognized");
        info.parseTags(diag, progress);
        tag = info.mp4Tag();
    }
};
static std::vector<mp4ref::Field> make(Mp4Tag &tag, Diagnostics &diag, std::string *bytes = nullptr)
{
    Mem m;
    auto maker = tag.prepareMaking(diag);
    maker.make(m, diag);
    const auto s = m.str();
    sx_assert(s.size() == maker.requiredSize(), "size as announced");
    const auto a = mp4ref::read(s, 0, s.size());
    sx_assert(a.end == s.size(), "size of meta atom");
    if (bytes) *bytes = s;
    return mp4ref::fields(s, a);
}
// the tag as it is read from a file holding the made one
static std::unique_ptr<Parsed> reread(const std::string &meta)
{
    return std::make_unique<Parsed>(mp4::ftyp() + mp4::atom("moov", mp4::mvhd() + mp4::atom("udta", meta)) + mp4::atom("mdat", "data"));
}
static const char *const textIds[] = { "\xa9nam", "aART", "cprt", "sdes" };
static const KnownField textFields[] = { KnownField::Title, KnownField::AlbumArtist, KnownField::Copyright, KnownField::StoreDescription };

//@ quick=30 thorough=120 threads=2 reach=utf8,utf16
SX_HARNESS(text)
{
    const auto k = sx_choice(SX_THOROUGH ? 4 : 2, "field");
    const auto e = TXT_ENC[sx_choice(4, "encoding")];
    const auto n = sx_choice(txtWide(e) ? 2 : 3, "length") + 1;
    const auto t = symText(e, n, "text");
    Mp4Tag tag;
    tag.setValue(textFields[k], t.value());
    Diagnostics diag;
    std::string bytes;
    const auto f = make(tag, diag, &bytes);
    sx_assert(f.size() == 1 && f[0].id == textIds[k] && f[0].data.size() == 1, "one field with one value");
    sx_assert(f[0].data[0].type == 1 || f[0].data[0].type == 2, "type of text");
    const auto written = f[0].data[0].type == 1 ? TagTextEncoding::Utf8 : TagTextEncoding::Utf16BigEndian;
    sx_reach(f[0].data[0].type == 1 ? "utf8" : "utf16");
    sameChars(f[0].data[0].value, written, t.cps, "characters are written");
    const auto p = reread(bytes);
    sx_assert(p->tag && p->tag->fieldCount() == 1, "one field is read");
    sx_assert(p->tag->value(textFields[k]).dataEncoding() == written, "encoding is read");
    sameText(p->tag->value(textFields[k]), t.cps, "characters are read");
    std::string again;
    make(*p->tag, diag, &again);
    sx_assert(again == bytes, "written again unchanged");
}
//@ quick=30 thorough=60 threads=2 reach=text,changed
SX_HARNESS(foreign_text)
{
    // text of another program in either encoding is kept and can be changed
    const bool wide = sx_flag("utf16");
    const auto e = wide ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8;
    const auto t = symText(e, 2, "text");
    const auto content = be(wide ? 2 : 1, 4) + be(sx_val<std::uint32_t>("locale"), 4) + t.s;
    Parsed p(file(field("\xa9nam", mp4::atom("data", content))));
    sx_assert(p.tag && p.tag->fieldCount() == 1, "field is read");
    sameText(p.tag->value(KnownField::Title), t.cps, "characters are read");
    Txt want = t;
    if (sx_flag("change")) {
        want = symText(TXT_ENC[sx_choice(4, "encoding")], 1, "new");
        p.tag->setValue(KnownField::Title, want.value());
        sx_reach("changed");
    } else
        sx_reach("text");
    Diagnostics diag;
    const auto f = make(*p.tag, diag);
    sx_assert(f.size() == 1 && f[0].data.size() == 1 && (f[0].data[0].type == 1 || f[0].data[0].type == 2), "field is written");
    sameChars(f[0].data[0].value, f[0].data[0].type == 1 ? TagTextEncoding::Utf8 : TagTextEncoding::Utf16BigEndian, want.cps, "characters are written");
    if (want.s == t.s && want.e == t.e) sx_assert(be(f[0].data[0].country, 2) + be(f[0].data[0].language, 2) == content.substr(4, 4), "locale is kept");
}
//@ quick=30 thorough=60 threads=2 reach=written,reported
SX_HARNESS(position)
{
    const bool disk = sx_flag("disk");
    const auto pos = sx_val<std::int32_t>("position");
    const auto total = sx_val<std::int32_t>("total");
    Mp4Tag tag;
    const auto k = disk ? KnownField::DiskPosition : KnownField::TrackPosition;
    tag.setValue(k, TagValue(PositionInSet(pos, total)));
    Diagnostics diag;
    std::string bytes;
    const auto f = make(tag, diag, &bytes);
    const bool fits = pos >= 0 && pos <= 0xFFFF && total >= 0 && total <= 0xFFFF;
    if (!fits) {
        sx_reach("reported");
        sx_assert(f.empty() && diag.level() >= DiagLevel::Critical, "position which doesn't fit is reported");
        return;
    }
    sx_reach("written");
    sx_assert(f.size() == 1 && f[0].id == (disk ? "disk" : "trkn") && f[0].data.size() == 1 && f[0].data[0].type == 0, "position is written");
    const auto &v = f[0].data[0].value;
    sx_assert(v.size() >= 6 && rdbe(v, 0, 2) == 0, "layout of position");
    same(rdbe(v, 2, 2), pos, "position");
    same(rdbe(v, 4, 2), total, "total");
    const auto p = reread(bytes);
    sx_assert(p->tag && p->tag->fieldCount() == (pos || total ? 1u : 0u), "position is read");
    const auto r = p->tag->value(k).toPositionInSet();
    sx_assert(r.position() == pos && r.total() == total, "position reads back");
}
//@ quick=30 thorough=60 threads=2 reach=short,full
SX_HARNESS(foreign_position)
{
    const bool disk = sx_flag("disk");
    const auto n = sx_choice(10, "size");
    const auto v = sx_string(n, "value");
    Parsed p(file(field(disk ? "disk" : "trkn", mp4::data(0, v))));
    sx_assert(p.tag && p.tag->fieldCount() <= 1, "tag is read");
    const auto &value = p.tag->value(disk ? KnownField::DiskPosition : KnownField::TrackPosition);
    const auto pos = n >= 4 ? rdbe(v, 2, 2) : 0, total = n >= 6 ? rdbe(v, 4, 2) : 0;
    const auto r = value.toPositionInSet();
    same(static_cast<unsigned>(r.position()), pos, "position");
    same(static_cast<unsigned>(r.total()), total, "total");
    if (n < 6) sx_assert(hasWarning(p.diag), "truncated position is reported");
    sx_reach(n < 6 ? "short" : "full");
    if (!pos && !total) return; // doesn't denote a position
    Diagnostics diag;
    const auto f = make(*p.tag, diag);
    sx_assert(f.size() == 1 && f[0].data.size() == 1 && f[0].data[0].value.size() >= 6, "position is kept");
    same(rdbe(f[0].data[0].value, 2, 2), pos, "position is kept");
    same(rdbe(f[0].data[0].value, 4, 2), total, "total is kept");
}
//@ quick=30 thorough=60 threads=2 reach=index,text,both
SX_HARNESS(genre)
{
    Diagnostics diag;
    Mp4Tag tag;
    const auto index = sx_range(0, static_cast<int>(Id3Genres::genreCount()) - 1, "genre");
    const auto op = sx_choice(3, "op");
    if (op == 0) { // stored as number counted from one
        TagValue v;
        v.assignStandardGenreIndex(index);
        tag.setValue(KnownField::Genre, v);
        std::string bytes;
        const auto f = make(tag, diag, &bytes);
        sx_assert(f.size() == 1 && f[0].id == "gnre" && f[0].data.size() == 1 && f[0].data[0].value.size() == 2, "genre is written");
        same(static_cast<int>(rdbe(f[0].data[0].value, 0, 2)), index + 1, "genre index");
        const auto p = reread(bytes);
        sx_assert(p->tag && p->tag->value(KnownField::Genre).toStandardGenreIndex() == index, "genre reads back");
        sx_reach("index");
    } else if (op == 1) {
        Parsed p(file(field("gnre", mp4::data(sx_flag("typed") ? 21 : 0, be(index + 1, 2)))));
        sx_assert(p.tag && p.tag->value(KnownField::Genre).toStandardGenreIndex() == index, "genre is read");
        const auto f = make(*p.tag, diag);
        sx_assert(f.size() == 1 && f[0].id == "gnre" && f[0].data[0].value.size() == 2, "genre is kept");
        same(static_cast<int>(rdbe(f[0].data[0].value, 0, 2)), index + 1, "genre is kept");
        const auto all = p.tag->values(KnownField::Genre);
        sx_assert(all.size() == 1 && all[0]->toStandardGenreIndex() == index, "one genre is read");
        if (sx_flag("all")) p.tag->setValues(KnownField::Genre, { TagValue("abc") });
        else p.tag->setValue(KnownField::Genre, TagValue("abc"));
        const auto g = make(*p.tag, diag);
        sx_assert(g.size() == 1 && g[0].id == "\xa9gen" && g[0].data[0].value == "abc", "genre is replaced");
        sx_reach("text");
    } else { // both are present: only the text is written
        const auto a = mp4::atom("gnre", mp4::data(0, be(index + 1, 2))), b = mp4::atom("\xa9gen", mp4::data(1, "abc"));
        Parsed p(file(mp4::atom("ilst", sx_flag("order") ? a + b : b + a)));
        sx_assert(p.tag && p.tag->value(KnownField::Genre).toString() == "abc", "text is preferred");
        const auto f = make(*p.tag, diag);
        sx_assert(f.size() == 1 && f[0].id == "\xa9gen" && f[0].data[0].value == "abc", "one genre is written");
        sx_reach("both");
    }
}
//@ quick=30 thorough=60 threads=2 reach=written,reported
SX_HARNESS(integer)
{
    const bool isSigned = sx_flag("signed");
    const auto v = sx_val<std::uint64_t>("value");
    Mp4Tag tag;
    TagValue value;
    if (isSigned) value.assignInteger(static_cast<int>(v));
    else value.assignUnsignedInteger(v);
    tag.setValue(KnownField::Bpm, value);
    Diagnostics diag;
    std::string bytes;
    const auto f = make(tag, diag, &bytes);
    if (!isSigned && v > 0x7FFFFFFF) {
        sx_assert(f.empty() && diag.level() >= DiagLevel::Critical, "number which doesn't fit is reported");
        sx_reach("reported");
        return;
    }
    sx_reach("written");
    sx_assert(f.size() == 1 && f[0].id == "tmpo" && f[0].data.size() == 1 && f[0].data[0].type == 21, "number is written");
    const auto &d = f[0].data[0].value;
    sx_assert(d.size() == 2 || d.size() == 4, "size of number");
    const auto got = d.size() == 2 ? static_cast<std::int16_t>(rdbe(d, 0, 2)) : static_cast<std::int32_t>(rdbe(d, 0, 4));
    same(got, static_cast<std::int32_t>(v), "number");
    const auto p = reread(bytes);
    sx_assert(p->tag && p->tag->value(KnownField::Bpm).toInteger() == static_cast<int>(v), "number reads back");
}
//@ quick=30 thorough=60 threads=2 reach=signed,unsigned
SX_HARNESS(foreign_integer)
{
    // numbers of every size
    const bool isSigned = sx_flag("signed");
    static const unsigned sizes[] = { 1, 2, 3, 4, 8 };
    const auto n = sizes[sx_choice(isSigned ? 4 : 5, "size")];
    const auto v = sx_string(n, "value");
    static const char *const ids[] = { "tmpo", "cpil", "pgap" };
    const auto id = ids[sx_choice(SX_THOROUGH ? 3 : 2, "field")];
    Parsed p(file(field(id, mp4::data(isSigned ? 21 : 22, v))));
    sx_assert(p.tag && p.tag->fieldCount() == 1, "number is read");
    const auto raw = rdbe(v, 0, n);
    const auto &value = p.tag->value(static_cast<std::uint32_t>(rdbe(id, 0, 4)));
    if (isSigned) {
        const auto want = static_cast<std::int32_t>(static_cast<std::uint32_t>(raw) << (32 - 8 * n)) >> (32 - 8 * n);
        sx_assert(value.type() == TagDataType::Integer && value.toInteger() == want, "signed number");
        sx_reach("signed");
    } else {
        sx_assert(value.type() == TagDataType::UnsignedInteger && value.toUnsignedInteger() == raw, "unsigned number");
        sx_reach("unsigned");
    }
    Diagnostics diag;
    std::string bytes;
    const auto f = make(*p.tag, diag, &bytes);
    sx_assert(f.size() == 1 && f[0].id == id && f[0].data.size() == 1 && f[0].data[0].type == (isSigned ? 21u : 22u), "number is kept");
    const auto &d = f[0].data[0].value;
    sx_assert(d.size() == 1 || d.size() == 2 || d.size() == 4 || d.size() == 8, "size of number");
    const unsigned bits = static_cast<unsigned>(64 - 8 * d.size());
    const auto got = rdbe(d, 0, static_cast<unsigned>(d.size()));
    if (isSigned) same(static_cast<std::int64_t>(got << bits) >> bits, static_cast<std::int64_t>(raw << (64 - 8 * n)) >> (64 - 8 * n), "number is kept");
    else same(got, raw, "number is kept");
}
//@ quick=30 thorough=60 threads=2 reach=known,unknown
SX_HARNESS(media_type)
{
    // media type and rating are read as names
    const bool rating = sx_flag("rating");
    const auto v = sx_val<std::uint8_t>("value");
    if (rating) sx_assume(v == 0 || v == 2 || v == 4);
    const auto n = sx_choice(2, "size") + 1;
    Parsed p(file(field(rating ? "rtng" : "stik", mp4::data(sx_flag("signed") ? 21 : 22, be(v, n)))));
    const auto k = rating ? KnownField::ContentRating : KnownField::MediaType;
    sx_assert(p.tag && p.tag->fieldCount() == 1, "value is read");
    const auto before = p.tag->value(k);
    const char *want = nullptr;
    if (rating)
        want = v == 0 ? "None" : v == 2 ? "Clean" : "Explicit";
    else
        switch (v) {
        case 0: want = "Movie"; break;
        case 1: want = "Music"; break;
        case 2: want = "Audiobook"; break;
        case 5: want = "Whacked Bookmark"; break;
        case 6: want = "Music Video"; break;
        case 9: want = "Short Film"; break;
        case 10: want = "TV Show"; break;
        case 11: want = "Booklet"; break;
        case 14: want = "Ringtone"; break;
        case 21: want = "Podcast"; break;
        default: break;
        }
    Diagnostics diag;
    std::string bytes;
    const auto f = make(*p.tag, diag, &bytes);
    sx_assert(f.size() == 1 && f[0].data.size() == 1 && f[0].data[0].value.size() <= 2, "value is kept");
    const auto got = rdbe(f[0].data[0].value, 0, static_cast<unsigned>(f[0].data[0].value.size()));
    if (want) {
        sx_reach("known");
        sx_assert(before.type() == TagDataType::Text && before.toString() == want, "name");
        same(got, v, "value is kept");
    } else {
        sx_reach("unknown");
        same(static_cast<unsigned char>(got), v, "value is kept");
    }
    const auto q = reread(bytes);
    sx_assert(q->tag && q->tag->value(k) == before, "value reads back");
    if (want) { // also when assigned as text
        Mp4Tag tag;
        tag.setValue(k, TagValue(want));
        const auto g = make(tag, diag);
        sx_assert(g.size() == 1 && g[0].data[0].value.size() == 1, "name is written");
        same(static_cast<unsigned>(static_cast<unsigned char>(g[0].data[0].value[0])), v, "name is written");
    }
}
static const char *const mimes[] = { "image/jpeg", "image/png", "image/bmp", "image/gif", "" };
static const unsigned mimeTypes[] = { 13, 14, 27, 12, 0 };
static TagValue cover(const std::string &data, unsigned mime)
{
    TagValue v(data.data(), data.size(), TagDataType::Picture);
    v.setMimeType(mimes[mime]);
    return v;
}
//@ quick=30 thorough=60 threads=2 reach=made,foreign,changed
SX_HARNESS(covers)
{
    Diagnostics diag;
    const auto m = sx_choice(4, "type");
    const auto d = sx_string(sx_choice(3, "size") + 1, "data");
    if (sx_flag("foreign")) {
        // files with several covers of different types
        const auto m2 = sx_choice(4, "second type");
        const auto d2 = sx_string(sx_choice(2, "second size") + 1, "second data");
        Parsed p(file(field("covr", mp4::data(mimeTypes[m], d) + mp4::data(mimeTypes[m2], d2))));
        sx_assert(p.tag, "tag is read");
        auto v = p.tag->values(KnownField::Cover);
        sx_assert(v.size() == 2, "all covers are read");
        sx_assert(v[0]->mimeType() == mimes[m] && v[1]->mimeType() == mimes[m2], "types of covers");
        sx_assert(v[0]->type() == TagDataType::Picture && v[1]->type() == TagDataType::Picture, "covers are pictures");
        sx_assert(std::string(v[0]->dataPointer(), v[0]->dataSize()) == d && std::string(v[1]->dataPointer(), v[1]->dataSize()) == d2, "data of covers");
        auto f = make(*p.tag, diag);
        sx_assert(f.size() == 1 && f[0].data.size() == 2, "all covers are kept");
        sx_assert(f[0].data[0].type == mimeTypes[m] && f[0].data[1].type == mimeTypes[m2], "types are kept");
        sx_assert(f[0].data[0].value == d && f[0].data[1].value == d2, "data is kept");
        sx_reach("foreign");
        // replace it
        const auto m3 = sx_choice(4, "new type");
        p.tag->setValue(KnownField::Cover, cover("new", m3));
        f = make(*p.tag, diag);
        sx_assert(f.size() == 1 && !f[0].data.empty() && f[0].data[0].type == mimeTypes[m3] && f[0].data[0].value == "new", "cover is replaced");
        sx_reach("changed");
        return;
    }
    sx_reach("made");
    Mp4Tag tag;
    const auto m1 = sx_choice(4, "made type");
    tag.setValue(KnownField::Cover, cover(d, m1));
    std::string bytes;
    const auto f = make(tag, diag, &bytes);
    sx_assert(f.size() == 1 && f[0].id == "covr" && f[0].data.size() == 1 && f[0].data[0].type == mimeTypes[m1] && f[0].data[0].value == d, "cover is written");
    const auto p = reread(bytes);
    sx_assert(p->tag && p->tag->value(KnownField::Cover).mimeType() == mimes[m1], "type reads back");
    sx_assert(p->tag->value(KnownField::Cover) == cover(d, m1), "cover reads back");
}
//@ quick=30 thorough=60 threads=2 reach=made,foreign,twice
SX_HARNESS(extended)
{
    // fields identified by mean and name
    Diagnostics diag;
    if (sx_flag("made")) {
        const auto mean = sx_string(sx_choice(4, "mean size") + 1, "mean"), name = sx_string(sx_choice(2, "name size") + 1, "name");
        for (const char c : mean + name) sx_assume_(c != 0);
        Mp4Tag tag;
        tag.setValue(mean, name, TagValue("abc"));
        std::string bytes;
        const auto f = make(tag, diag, &bytes);
        sx_assert(f.size() == 1 && f[0].id == "----" && f[0].mean == mean && f[0].name == name && f[0].data.size() == 1, "extended field is written");
        sx_assert(f[0].data[0].type == 1 && f[0].data[0].value == "abc", "value of extended field is written");
        const auto p = reread(bytes);
        sx_assert(p->tag && p->tag->fieldCount() == 1 && p->tag->value(mean, name) == TagValue("abc"), "extended field reads back");
        sx_reach("made");
        return;
    }
    // several extended fields of another program: changing one keeps the others
    const auto ext = [](const char *name, const std::string &data) {
        return mp4::atom("----", mp4::atom("mean", be(0, 4) + "com.apple.iTunes") + mp4::atom("name", be(0, 4) + name) + data);
    };
    const auto x = sx_string(2, "value");
    for (const char c : x) sx_assume_(c > 0);
    const unsigned order = sx_choice(3, "order");
    std::string s[3] = { ext("cdec", mp4::data(1, "enc")), ext("iTunNORM", mp4::data(1, x)), ext("raw", mp4::data(0, x)) };
    std::string list;
    for (unsigned i = 0; i < 3; ++i) list += s[(i + order) % 3];
    Parsed p(file(mp4::atom("ilst", list)));
    sx_assert(p.tag && p.tag->fieldCount() == 3, "all extended fields are read");
    sx_assert(p.tag->value(KnownField::EncoderSettings) == TagValue("enc"), "encoder settings are read");
    std::vector<std::string> want = { "enc" };
    switch (sx_choice(4, "op")) {
    case 1:
        p.tag->setValue(KnownField::EncoderSettings, TagValue("new"));
        want = { "new" };
        break;
    case 2:
        p.tag->setValues(KnownField::EncoderSettings, { TagValue("new"), TagValue("two") });
        want = { "new", "two" };
        sx_reach("twice");
        break;
    case 3:
        p.tag->setValues(KnownField::EncoderSettings, {});
        want = {};
        break;
    default: break;
    }
    std::vector<std::string> got;
    for (const auto *v : p.tag->values(KnownField::EncoderSettings))
        if (!v->isEmpty()) got.push_back(v->toString());
    sx_assert(got == want, "values of the extended field");
    const auto f = make(*p.tag, diag);
    sx_assert(f.size() == 2 + want.size(), "number of extended fields");
    std::vector<std::string> written;
    unsigned norm = 0, raw = 0;
    for (const auto &a : f) {
        sx_assert(a.mean == "com.apple.iTunes" && a.data.size() == 1, "extended field");
        if (a.name == "cdec") written.push_back(a.data[0].value);
        else if (a.name == "raw") raw += a.data[0].value == x && a.data[0].type == 0;
        else norm += a.name == "iTunNORM" && a.data[0].value == x && a.data[0].type == 1;
    }
    sx_assert(written == want && norm == 1 && raw == 1, "other extended fields are kept");
    sx_reach("foreign");
}
//@ quick=30 thorough=60 threads=2 reach=kept
SX_HARNESS(unknown)
{
    // fields and types the library doesn't know are kept
    static const char *const ids[] = { "\xa9xyz", "purd", "sonm", "\xa9nam" };
    static const unsigned types[] = { 0, 3, 7, 15, 16, 23 };
    const auto id = ids[sx_choice(4, "field")];
    const auto type = types[sx_choice(6, "data type")];
    const auto v = sx_string(sx_choice(3, "size") + 1, "value");
    const auto other = mp4::atom("aART", mp4::data(1, "other"));
    const auto mine = mp4::atom(id, mp4::data(type, v));
    Parsed p(file(mp4::atom("ilst", sx_flag("order") ? mine + other : other + mine)));
    sx_assert(p.tag && p.tag->fieldCount() == 2, "fields are read");
    Diagnostics diag;
    const auto f = make(*p.tag, diag);
    sx_assert(f.size() == 2, "fields are kept");
    for (const auto &a : f)
        if (a.id == "aART") sx_assert(a.data.size() == 1 && a.data[0].type == 1 && a.data[0].value == "other", "other field is kept");
        else sx_assert(a.id == id && a.data.size() == 1 && a.data[0].type == type && a.data[0].value == v, "field is kept");
    sx_reach("kept");
}
//@ quick=40 thorough=120 threads=3 reach=read,reported
SX_HARNESS(damaged)
{
    // one byte of the field is wrong or its end is missing; the other field is never affected
    auto mine = mp4::atom("\xa9nam", mp4::atom("mean", be(0, 4) + "mm") + mp4::atom("name", be(0, 4) + "nn") + mp4::data(1, "ab"));
    const bool after = sx_flag("after");
    const auto other = mp4::atom("aART", mp4::data(1, "other"));
    if (sx_flag("cut")) {
        // the field ends early
        const auto n = (sx_choice(static_cast<int>(mine.size()) - 8, "size") + 8);
        mine = be(n, 4) + mine.substr(4, n - 4);
    } else {
        const auto i = (sx_choice(static_cast<int>(mine.size()) - 8, "byte") + 8);
        mine[i] = static_cast<char>(sx_val<unsigned char>("value"));
    }
    Parsed p(file(mp4::atom("ilst", after ? mine + other : other + mine)));
    sx_assert(p.tag, "tag is read");
    sx_assert(p.tag->value(KnownField::AlbumArtist).toString() == "other", "other field is not affected");
    sx_reach(hasWarning(p.diag) ? "reported" : "read");
    Diagnostics diag;
    const auto f = make(*p.tag, diag);
    unsigned n = 0;
    for (const auto &a : f) n += a.id == "aART" && a.data.size() == 1 && a.data[0].value == "other";
    sx_assert(n == 1, "other field is kept");
}
//@ quick=40 thorough=60 threads=3 reach=ok,reported,wide,rest
SX_HARNESS(atoms)
{
    // atoms are read as specified
    const auto max = sx_choice(25, "available");
    const auto head = sx_string(max < 16 ? max : 16, "header");
    const auto content = head + std::string(max - head.size(), 'x');
    fs_put("f.m4a", content);
    MediaFileInfo info(std::string("f.m4a"));
    info.open(true);
    Mp4Container c(info, 0);
    Mp4Atom a(c, 0);
    Diagnostics diag;
    bool ok = true;
    try {
        a.parse(diag);
    } catch (const Failure &) {
        ok = false;
    } catch (const std::ios_base::failure &) {
        ok = false;
    }
    std::uint64_t size = 0;
    unsigned header = 8;
    bool valid = max >= 8;
    if (valid) {
        size = rdbe(head, 0, 4);
        if (size == 1) {
            header = 16;
            valid = max >= 16;
            if (valid) size = rdbe(head, 8, 8);
            if (valid) sx_reach("wide");
        } else if (size == 0) {
            size = static_cast<std::uint64_t>(max);
            sx_reach("rest");
        }
        valid = valid && size >= header;
    }
    sx_assert(ok == valid, "atoms which are too small are reported, all others are read");
    if (!ok) {
        sx_reach("reported");
        sx_assert(max == 0 || hasWarning(diag) || header == 16, "damaged atom is reported");
        return;
    }
    sx_reach("ok");
    if (size > static_cast<std::uint64_t>(max)) {
        sx_assert(hasWarning(diag), "truncated atom is reported");
        size = static_cast<std::uint64_t>(max);
    }
    same(a.id(), static_cast<std::uint32_t>(rdbe(head, 4, 4)), "ID");
    same(a.totalSize(), size, "total size");
    same(a.headerSize(), header, "header size");
    same(a.dataSize(), size - header, "data size");
    same(a.dataOffset(), header, "data offset");
    sx_assert((a.nextSibling() != nullptr) == (size < static_cast<std::uint64_t>(max)), "siblings fill the file");
    if (a.nextSibling()) same(a.nextSibling()->startOffset(), size, "offset of sibling");
}
//@ quick=20 thorough=30 threads=1 reach=narrow,wide
SX_HARNESS(headers)
{
    const auto data = sx_val<std::uint64_t>("data size");
    sx_assume_(data < (1ull << 62));
    const auto id = sx_val<std::uint32_t>("id");
    auto total = data;
    Mp4Atom::addHeaderSize(total);
    Mem m;
    CppUtilities::BinaryWriter w(&m);
    Mp4Atom::makeHeader(total, id, w);
    const auto s = m.str();
    sx_assert(s.size() == 8 || s.size() == 16, "size of header");
    same(total, data + s.size(), "announced size");
    same(rdbe(s, 4, 4), id, "ID");
    sx_reach(s.size() == 8 ? "narrow" : "wide");
    if (s.size() == 8) same(rdbe(s, 0, 4), total, "32-bit size");
    else {
        same(rdbe(s, 0, 4), 1, "64-bit size is denoted");
        same(rdbe(s, 8, 8), total, "64-bit size");
    }
}
