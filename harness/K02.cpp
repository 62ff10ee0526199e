// Matroska tags are written and read back unchanged.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "media.h"
#include "txt.h"
#include <tagparser/exceptions.h>
#include <tagparser/matroska/ebmlelement.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskaid.h>
#include <tagparser/matroska/matroskatag.h>
#include <tagparser/mediafileinfo.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: one field at a time with texts of up to 3 arbitrary bytes in every encoding plus sizes around the limits of the size denotations, names of 1..200 bytes, arbitrary languages, nested fields of up to two levels; all target levels and 64-bit IDs; up to three fields of the same or different names; foreign tags with elements in any order, repeated, missing, unknown or with one arbitrary byte anywhere, and truncated ones
//! outside: tags of more than 4 GiB; whether a missing TagDefault element means default

struct File {
    MediaFileInfo info;
    std::unique_ptr<MatroskaContainer> c;
    std::unique_ptr<EbmlElement> e;
    explicit File(const std::string &content)
        : info(std::string("f.mkv"))
    {
        fs_put("f.mkv", content);
        info.open(true);
        c = std::make_unique<MatroskaContainer>(info, 0);
        e = std::make_unique<EbmlElement>(*c, 0);
        Diagnostics diag;
        try {
            e->parse(diag);
        } catch (const Failure &) {
        } catch (const std::ios_base::failure &) {
        }
    }
};
// makes the tag and checks the announced size
static std::string make(MatroskaTag &tag, Diagnostics &diag)
{
    Mem m;
    const auto maker = tag.prepareMaking(diag);
    maker.make(m);
    const auto s = m.str();
    sx_assert(s.size() == maker.requiredSize(), "size as announced");
    return s;
}
struct Simple {
    std::string name, language, ietf, value;
    bool binary = false, isDefault = false;
    std::vector<Simple> nested;
};
static Simple readSimple(const std::string &s, const mkvref::El &e)
{
    sx_assert(e.id == 0x67C8, "SimpleTag");
    Simple r;
    unsigned names = 0, values = 0, languages = 0, defaults = 0;
    for (const auto &c : mkvref::children(s, e)) {
        switch (c.id) {
        case 0x45A3: r.name = c.content(s); ++names; break;
        case 0x447A: r.language = c.content(s); ++languages; break;
        case 0x447B: r.ietf = c.content(s); break;
        case 0x4484:
            sx_assert(c.end == c.data + 1, "size of TagDefault");
            r.isDefault = s[c.data];
            ++defaults;
            break;
        case 0x4487: r.value = c.content(s); ++values; break;
        case 0x4485: r.value = c.content(s); r.binary = true; ++values; break;
        case 0x67C8: r.nested.push_back(readSimple(s, c)); break;
        default: sx_assert(false, "unexpected element");
        }
    }
    sx_assert(names == 1 && values == 1 && languages == 1 && defaults == 1, "every element once");
    return r;
}
struct Ref {
    std::vector<mkvref::El> targets;
    std::vector<Simple> fields;
};
static Ref readTag(const std::string &s)
{
    const auto t = mkvref::read(s, 0, s.size());
    sx_assert(t.id == 0x7373 && t.end == s.size(), "Tag");
    Ref r;
    unsigned n = 0;
    for (const auto &c : mkvref::children(s, t)) {
        if (c.id == 0x63C0) {
            ++n;
            r.targets = mkvref::children(s, c);
        } else
            r.fields.push_back(readSimple(s, c));
    }
    sx_assert(n == 1, "Targets");
    return r;
}
static const unsigned sizes[] = { 0, 1, 60, 122, 123, 124, 125, 126, 127, 128, 16380, 16381, 16382, 16383, 16384 };
static const TagTextEncoding encodings[] = { TagTextEncoding::Utf8, TagTextEncoding::Latin1, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };

//@ quick=60 thorough=900 threads=6 reach=ok,inconvertible
SX_HARNESS(text)
{
    const auto enc = encodings[sx_choice(4, "encoding")];
    const auto wide = enc == TagTextEncoding::Utf16LittleEndian || enc == TagTextEncoding::Utf16BigEndian;
    const auto n = wide ? 2 * (sx_choice(SX_THOROUGH ? 2 : 1, "size") + 1) : sx_choice(3, "size") + 1;
    auto text = sx_string(n, "text");
    const auto more = sizes[sx_choice(SX_THOROUGH ? 15 : 10, "more")];
    std::string tail;
    for (unsigned i = 0; i < more; ++i) tail += enc == TagTextEncoding::Utf16LittleEndian ? std::string("y\0", 2) : enc == TagTextEncoding::Utf16BigEndian ? std::string("\0y", 2) : std::string("y");
    text += tail;
    TagValue value;
    value.assignData(text.data(), text.size(), TagDataType::Text, enc);
    if (value.isEmpty()) return; // only a byte order mark
    MatroskaTag tag;
    sx_assert(tag.setValue(KnownField::Title, value), "set");
    Diagnostics diag;
    std::string expected;
    bool ok = true;
    try {
        expected = value.toString(TagTextEncoding::Utf8);
    } catch (const ConversionException &) {
        ok = false;
    }
    const auto s = make(tag, diag);
    const auto ref = readTag(s);
    sx_assert(ref.targets.empty() && ref.fields.size() == 1, "one field");
    sx_assert_eq(ref.fields[0].name, "TITLE", "name");
    sx_assert_eq(ref.fields[0].language, "und", "language");
    sx_assert(ref.fields[0].ietf.empty() && ref.fields[0].nested.empty(), "no further elements");
    if (!ok) {
        sx_assert(ref.fields[0].binary && hasWarning(diag), "text which can't be converted is reported and stored as is");
        sx_assert_eq(ref.fields[0].value, text, "text which can't be converted");
        sx_reach("inconvertible");
        return;
    }
    sx_assert(!ref.fields[0].binary, "text");
    sx_assert_eq(ref.fields[0].value, expected, "value");
    File f(s + "tail");
    MatroskaTag parsed;
    parsed.parse(*f.e, diag);
    sx_assert(!hasWarning(diag), "no needless warning");
    sx_assert(parsed.fields().size() == 1 && parsed.size() == s.size(), "number of fields");
    const auto &v = parsed.value(KnownField::Title);
    sx_assert(v.type() == TagDataType::Text && v.dataEncoding() == TagTextEncoding::Utf8, "type");
    sx_assert_eq(std::string_view(v.dataPointer(), v.dataSize()), expected, "value as read");
    if (!expected.empty()) sx_assert_eq(make(parsed, diag), s, "writing again yields the same bytes");
    sx_reach("ok");
}
//@ quick=60 thorough=900 threads=6 reach=ok
SX_HARNESS(metadata)
{
    // name, languages, default flag, nested fields
    const auto nameSize = sx_choice(3, "size of name");
    static const unsigned nameSizes[] = { 1, 126, 200 };
    auto name = std::string(nameSizes[nameSize], 'N');
    name[0] = sx_val<char>("name");
    const auto language = sx_choice(5, "language"); // 0: none, 1: ISO, 2: unknown format, 3: ISO and IETF, 4: IETF
    const auto depth = sx_choice(3, "nested");
    const auto l = sx_string(3, "ISO");
    const auto ietf = sx_string(sx_choice(2, "size of IETF") * 123 + 2, "IETF");
    const bool isDefault = sx_flag("default");
    auto value = TagValue(std::string("value"), TagTextEncoding::Utf8);
    if (language == 1 || language == 3) value.locale().emplace_back(std::string_view(l), LocaleFormat::ISO_639_2_B);
    if (language == 2) value.locale().emplace_back(std::string_view(l), LocaleFormat::Unknown);
    if (language >= 3) value.locale().emplace_back(std::string_view(ietf), LocaleFormat::BCP_47);
    const bool undefined = l == "und" || l == "XXX";
    const bool hasLanguage = language >= 1 && language <= 3 && !undefined;
    auto field = MatroskaTagField(name, value);
    field.setDefault(isDefault);
    const auto inner = sx_string(1, "inner");
    if (depth) {
        auto nested = MatroskaTagField("NESTED", TagValue(inner, TagTextEncoding::Utf8));
        nested.setDefault(!isDefault);
        nested.value().locale().emplace_back(std::string_view("ger"), LocaleFormat::ISO_639_2_B);
        if (depth == 2) {
            nested.nestedFields().emplace_back("X", TagValue(std::string("x1"), TagTextEncoding::Utf8));
            nested.nestedFields().emplace_back("X", TagValue(std::string("x2"), TagTextEncoding::Utf8));
        }
        field.nestedFields().emplace_back(nested);
        field.nestedFields().emplace_back("SECOND", TagValue(std::string("2"), TagTextEncoding::Utf8));
    }
    MatroskaTag tag;
    tag.fields().emplace(name, field);
    Diagnostics diag;
    const auto s = make(tag, diag);
    const auto ref = readTag(s);
    const auto check = [&](const std::vector<Simple> &fields) {
        sx_assert(fields.size() == 1, "one field");
        const auto &f = fields[0];
        sx_assert_eq(f.name, name, "name");
        sx_assert_eq(f.language, hasLanguage ? l : "und", "language");
        sx_assert_eq(f.ietf, language >= 3 ? ietf : "", "IETF language");
        sx_assert(f.isDefault == isDefault, "default");
        sx_assert_eq(f.value, "value", "value");
        sx_assert(f.nested.size() == (depth ? 2 : 0), "nested fields");
        if (!depth) return;
        sx_assert_eq(f.nested[0].name, "NESTED", "name of nested field");
        sx_assert_eq(f.nested[0].value, inner, "value of nested field");
        sx_assert_eq(f.nested[0].language, "ger", "language of nested field");
        sx_assert(f.nested[0].isDefault != isDefault, "default of nested field");
        sx_assert_eq(f.nested[1].name, "SECOND", "name of second nested field");
        sx_assert(f.nested[0].nested.size() == (depth == 2 ? 2 : 0), "nested fields of second level");
        if (depth == 2) sx_assert(f.nested[0].nested[0].value == "x1" && f.nested[0].nested[1].value == "x2" && f.nested[0].nested[1].name == "X", "values of second level");
    };
    if (!(language >= 3 && (ietf == "und" || ietf == "XXX"))) check(ref.fields);
    File f(s);
    MatroskaTag parsed;
    parsed.parse(*f.e, diag);
    sx_assert(!hasWarning(diag), "no needless warning");
    sx_assert(parsed.fields().size() == 1, "number of fields");
    const auto &p = parsed.fields().begin()->second;
    sx_assert_eq(parsed.fields().begin()->first, name, "key");
    sx_assert_eq(p.id(), name, "name as read");
    sx_assert(p.isDefault() == isDefault, "default as read");
    const std::string gotLanguage = p.value().locale().abbreviatedName(LocaleFormat::ISO_639_2_B);
    sx_assert_eq(gotLanguage, hasLanguage ? l : "", "language as read");
    const std::string gotIetf = p.value().locale().abbreviatedName(LocaleFormat::BCP_47);
    if (language >= 3) sx_assert_eq(gotIetf, ietf, "IETF language as read");
    sx_assert(p.nestedFields().size() == (depth ? 2 : 0), "nested fields as read");
    const auto again = make(parsed, diag);
    sx_assert_eq(again, s, "writing again yields the same bytes");
    sx_reach("ok");
}
//@ quick=30 thorough=300 threads=4 reach=ok
SX_HARNESS(types)
{
    // values which aren't text
    TagValue value;
    const auto kind = sx_choice(9, "type");
    bool binary = false;
    std::string expected;
    const auto data = sx_string(3, "data");
    switch (kind) {
    case 0:
        value.assignInteger(sx_range<int>(-2, 300, "integer"));
        expected = std::to_string(value.toInteger());
        break;
    case 1:
        value.assignUnsignedInteger(sx_range<std::uint32_t>(0, 300, "integer"));
        expected = std::to_string(value.toUnsignedInteger());
        break;
    case 2: value.assignPosition(PositionInSet(3, 12)); expected = "3/12"; break;
    case 3: value.assignStandardGenreIndex(17); expected = "Rock"; break;
    case 4: value.assignTimeSpan(TimeSpan::fromSeconds(3723.0)); expected = "01:02:03"; break;
    case 5: value.assignDateTime(DateTime::fromDateAndTime(2020, 12, 31, 23, 59, 58)); expected = "2020-12-31T23:59:58"; break;
    default: value.assignData(data.data(), data.size(), kind == 6 ? TagDataType::Binary : kind == 7 ? TagDataType::Picture : TagDataType::Undefined); binary = true; expected = data;
    }
    MatroskaTag tag;
    tag.fields().emplace("FIELD", MatroskaTagField("FIELD", value));
    tag.fields().emplace("Z", MatroskaTagField("Z", TagValue(std::string("z"), TagTextEncoding::Utf8)));
    Diagnostics diag;
    const auto s = make(tag, diag);
    const auto ref = readTag(s);
    sx_assert(ref.fields.size() == 2, "fields");
    sx_assert(ref.fields[0].binary == binary, "type of element");
    sx_assert_eq(ref.fields[0].value, expected, "value");
    sx_assert_eq(ref.fields[1].value, "z", "other field");
    sx_assert(hasWarning(diag) == binary, "binary values are reported");
    diag.clear();
    File f(s);
    MatroskaTag parsed;
    parsed.parse(*f.e, diag);
    sx_assert(!hasWarning(diag), "no needless warning");
    const auto &v = parsed.value(std::string("FIELD"));
    sx_assert_eq(std::string_view(v.dataPointer(), v.dataSize()), expected, "value as read");
    sx_assert(v.type() == (binary ? TagDataType::Undefined : TagDataType::Text), "type as read");
    const auto again = make(parsed, diag);
    sx_assert_eq(again, s, "writing again yields the same bytes");
    sx_reach("ok");
}
//@ quick=30 thorough=300 threads=4 reach=ok
SX_HARNESS(ratings)
{
    static const TagType scales[] = { TagType::MatroskaTag, TagType::Id3v2Tag, TagType::VorbisComment, TagType::Unspecified };
    static const double ratings[][4] = { { 0, 1, 3.5, 5 }, { 1, 64, 128, 255 }, { 20, 40, 60, 100 }, { 1, 2, 3, 5 } };
    const auto k = sx_choice(4, "scale"), i = sx_choice(4, "rating");
    MatroskaTag tag;
    TagValue value;
    value.assignPopularity(Popularity{ .user = std::string(), .rating = ratings[k][i], .playCounter = 0, .scale = scales[k] });
    const auto expected = value.toScaledPopularity(TagType::MatroskaTag).rating;
    tag.setValue(KnownField::Rating, value);
    Diagnostics diag;
    const auto s = make(tag, diag);
    File f(s);
    MatroskaTag parsed;
    parsed.parse(*f.e, diag);
    sx_assert(!hasWarning(diag), "no needless warning");
    const auto ref = readTag(s);
    sx_assert(ref.fields.size() == 1, "one field");
    sx_assert_eq(ref.fields[0].name, "RATING", "name");
    const auto &v = parsed.value(KnownField::Rating);
    if (ref.fields[0].value.empty()) {
        sx_assert(expected == 0, "only an empty rating is written as empty text");
        return;
    }
    sx_assert(v.type() == TagDataType::Popularity, "type");
    const auto p = v.toPopularity();
    sx_assert(p.scale == TagType::MatroskaTag && p.user.empty() && !p.playCounter, "scale");
    sx_assert(p.rating > expected - 0.0001 && p.rating < expected + 0.0001, "rating"); // written with limited precision
    sx_assert_eq(make(parsed, diag), s, "writing again yields the same bytes");
    sx_reach("ok");
}
//@ quick=90 thorough=600 threads=6 reach=ok
SX_HARNESS(targets)
{
    MatroskaTag tag;
    auto &t = tag.target();
    const bool anyLevel = sx_flag("any level");
    const auto level = anyLevel ? sx_val<std::uint64_t>("level") : std::uint64_t(30);
    t.setLevel(level);
    const auto nameSize = sx_choice(4, "level name");
    static const unsigned nameSizes[] = { 0, 1, 125, 126 };
    auto levelName = std::string(nameSizes[nameSize], 'L');
    if (nameSize) levelName[0] = sx_val<char>("level name");
    t.setLevelName(levelName);
    const auto kind = sx_choice(4, "kind");
    const auto n = sx_choice(anyLevel ? 2 : 3, "IDs");
    std::vector<std::uint64_t> ids;
    for (unsigned i = 0; i < n; ++i) ids.push_back(i || anyLevel ? i * 1000 + 1 : sx_val<std::uint64_t>("ID"));
    (kind == 0 ? t.tracks() : kind == 1 ? t.editions() : kind == 2 ? t.chapters() : t.attachments()) = ids;
    if (sx_flag("others")) (kind == 0 ? t.editions() : t.tracks()).push_back(7);
    tag.setValue(KnownField::Title, TagValue(std::string("value"), TagTextEncoding::Utf8));
    Diagnostics diag;
    const auto s = make(tag, diag);
    const auto ref = readTag(s);
    unsigned levels = 0, names = 0, k = 0;
    static const std::uint32_t elements[] = { 0x63C5, 0x63C9, 0x63C4, 0x63C6 };
    for (const auto &c : ref.targets) {
        if (c.id == 0x68CA) {
            ++levels;
            sx_assert(c.end - c.data <= 8 && rdbe(s, c.data, static_cast<unsigned>(c.end - c.data)) == level, "level");
        } else if (c.id == 0x63CA) {
            ++names;
            sx_assert_eq(c.content(s), levelName, "level name");
        } else if (c.id == elements[kind]) {
            sx_assert(k < n && rdbe(s, c.data, static_cast<unsigned>(c.end - c.data)) == ids[k], "ID");
            ++k;
        } else
            sx_assert(c.id == elements[kind == 0 ? 1 : 0] && rdbe(s, c.data, static_cast<unsigned>(c.end - c.data)) == 7, "other ID");
    }
    sx_assert(k == n && names == (nameSize ? 1 : 0) && (levels == 1 || (!levels && (level == 0 || level == 50))), "number of elements");
    File f(s);
    MatroskaTag parsed;
    parsed.parse(*f.e, diag);
    sx_assert(!hasWarning(diag), "no needless warning");
    sx_assert(parsed.target() == tag.target(), "target as read");
    sx_assert_eq(parsed.target().levelName(), levelName, "level name as read");
    sx_assert(parsed.value(KnownField::Title).toString() == "value", "field");
    sx_reach("ok");
}
//@ quick=30 thorough=300 threads=4 reach=ok
SX_HARNESS(several_fields)
{
    // fields keep their order within the same name; empty ones are not written
    static const char *const names[] = { "TITLE", "ARTIST", "GENRE" };
    MatroskaTag tag;
    std::vector<std::pair<std::string, std::string>> expected;
    for (unsigned i = 0; i < 3; ++i) {
        const auto name = std::string(names[sx_choice(3, "name")]);
        const auto value = sx_flag("empty") ? std::string() : sx_string(1, "value");
        tag.fields().emplace(name, MatroskaTagField(name, value.empty() ? TagValue() : TagValue(value, TagTextEncoding::Utf8)));
        if (!value.empty()) expected.emplace_back(name, value);
    }
    Diagnostics diag;
    const auto s = make(tag, diag);
    const auto ref = readTag(s);
    sx_assert(ref.fields.size() == expected.size(), "number of fields");
    File f(s);
    MatroskaTag parsed;
    parsed.parse(*f.e, diag);
    sx_assert(!hasWarning(diag), "no needless warning");
    sx_assert(parsed.fields().size() == expected.size(), "number of fields as read");
    for (const auto *const name : names) {
        const auto values = parsed.values(std::string(name));
        size_t k = 0;
        for (const auto &e : expected) {
            if (e.first != name) continue;
            sx_assert(k < values.size(), "number of values");
            sx_assert_eq(values[k++]->toString(), e.second, "value");
        }
        sx_assert(k == values.size(), "number of values");
    }
    sx_assert_eq(make(parsed, diag), s, "writing again yields the same bytes");
    sx_reach("ok");
}
//@ quick=60 thorough=600 threads=4 reach=ok
SX_HARNESS(foreign)
{
    // elements in any order, repeated, missing; unknown ones
    const auto x = sx_string(1, "value");
    const std::string parts[] = { mkv::el(0x45A3, "RATIN" + std::string(sx_flag("rating") ? "G" : "H")), mkv::el(0x4487, "4"), mkv::el(0x447A, "ger"), mkv::num(0x4484, 1), mkv::el(0xEC, x), mkv::el(0xBF, "crc4"), mkv::el(0x447B, "de"),
        mkv::el(0x67C8, mkv::el(0x45A3, "IN") + mkv::el(0x4487, x)), mkv::el(0x4485, x), mkv::el(0xD7, "?") };
    static const unsigned orders[][7] = { { 0, 1, 2, 3, 99 }, { 1, 0, 3, 2, 99 }, { 4, 0, 1, 5, 99 }, { 2, 6, 0, 1, 99 }, { 7, 0, 1, 3, 99 }, { 0, 7, 99 }, { 0, 1, 1, 99 }, { 0, 0, 1, 99 }, { 0, 1, 9, 99 }, { 1, 3, 99 }, { 0, 8, 3, 99 }, { 0, 3, 2, 7, 7, 99 }, { 0, 1, 2, 2, 3, 3, 99 } };
    const auto o = sx_choice(13, "order");
    std::string body;
    unsigned count[10] = {};
    for (const auto *i = orders[o]; *i != 99; ++i) {
        body += parts[*i];
        ++count[*i];
    }
    const auto longSize = sx_flag("long") ? 8u : 0u;
    const auto s = mkv::el(0x7373, mkv::el(0x63C0, "") + mkv::el(0x67C8, body, longSize) + mkv::el(0x67C8, mkv::el(0x45A3, "TITLE") + mkv::el(0x4487, "t")), longSize);
    File f(s);
    MatroskaTag tag;
    Diagnostics diag;
    tag.parse(*f.e, diag);
    const bool rating = parts[0].back() == 'G';
    const bool notANumber = rating && o == 10;
    if (!notANumber) sx_assert(hasWarning(diag) == (count[0] > 1 || count[1] > 1 || count[2] > 1 || count[3] > 1 || count[9] > 0), "anomalies are reported, nothing else");
    sx_assert(tag.value(KnownField::Title).toString() == "t", "following field");
    sx_assert(tag.fields().size() == 2, "number of fields");
    const auto id = count[0] ? std::string("RATIN") + parts[0].back() : std::string();
    const auto i = tag.fields().find(id);
    sx_assert(i != tag.fields().end(), "name");
    const auto &field = i->second;
    if (count[1]) {
        if (rating && count[0])
            sx_assert(field.value().type() == TagDataType::Popularity && field.value().toPopularity().rating == 4 && field.value().toPopularity().scale == TagType::MatroskaTag, "rating");
        else
            sx_assert_eq(std::string_view(field.value().dataPointer(), field.value().dataSize()), "4", "value");
    } else if (count[8] && !notANumber) {
        sx_assert_eq(std::string_view(field.value().dataPointer(), field.value().dataSize()), x, "binary value");
        sx_assert(field.value().type() == TagDataType::Undefined, "type of binary value");
    }
    sx_assert(field.isDefault() == (count[3] > 0), "default");
    const std::string language = field.value().locale().abbreviatedName(LocaleFormat::ISO_639_2_B), ietf = field.value().locale().abbreviatedName(LocaleFormat::BCP_47);
    sx_assert(language == (count[2] ? "ger" : ""), "language");
    sx_assert(ietf == (count[6] ? "de" : ""), "IETF language");
    sx_assert(field.nestedFields().size() == count[7], "nested fields");
    if (count[7]) sx_assert_eq(field.nestedFields()[0].value().toString(), x, "value of nested field");
    // writing it again preserves the field
    Diagnostics diag2;
    if (id.empty()) return;
    const auto ref = readTag(make(tag, diag2));
    sx_assert(ref.fields.size() == 2, "number of fields when written again");
    const auto &r = ref.fields[0].name == "TITLE" ? ref.fields[1] : ref.fields[0];
    sx_assert_eq(r.name, id, "name when written again");
    sx_assert_eq(r.value, count[1] ? "4" : count[8] ? x : "", "value when written again");
    sx_assert(r.nested.size() == count[7], "nested fields when written again");
    for (const auto &nested : r.nested) sx_assert(nested.name == "IN" && nested.value == x, "content of nested fields when written again");
    sx_reach("ok");
}
//@ quick=30 thorough=300 threads=4 reach=ok
SX_HARNESS(foreign_targets)
{
    const auto id = sx_val<std::uint64_t>("ID");
    const auto n = sx_choice(9, "size");
    const auto v = be(id, n);
    const std::string parts[] = { mkv::el(0x68CA, v), mkv::el(0x63CA, "name"), mkv::el(0x63C5, v), mkv::el(0x63C9, v), mkv::el(0x63C4, v), mkv::el(0x63C6, v), mkv::el(0xD7, "?") };
    const auto a = sx_choice(7, "first"), b = sx_choice(7, "second");
    const auto s = mkv::el(0x7373, mkv::el(0x63C0, parts[a] + parts[b]) + mkv::el(0x67C8, mkv::el(0x45A3, "TITLE") + mkv::el(0x4487, "t")));
    File f(s);
    MatroskaTag tag;
    Diagnostics diag;
    tag.parse(*f.e, diag);
    const auto value = rdbe(v, 0, n);
    const auto &t = tag.target();
    const auto times = [&](unsigned p) { return size_t(a == p) + size_t(b == p); };
    sx_assert(t.level() == (times(0) && value ? value : 50), "level");
    sx_assert(t.levelName() == (times(1) ? "name" : ""), "level name");
    const auto check = [&](const std::vector<std::uint64_t> &ids, unsigned p) {
        sx_assert(ids.size() == times(p), "number of IDs");
        for (const auto i : ids) sx_assert(i == value, "ID");
    };
    check(t.tracks(), 2);
    check(t.editions(), 3);
    check(t.chapters(), 4);
    check(t.attachments(), 5);
    sx_assert(hasWarning(diag) == (times(6) > 0 || times(0) > 1 || times(1) > 1), "anomalies are reported");
    sx_assert(tag.value(KnownField::Title).toString() == "t", "field");
    sx_reach("ok");
}
//@ quick=60 thorough=600 threads=6 reach=parsed,failed
SX_HARNESS(damaged)
{
    // one arbitrary byte anywhere, or truncated: nothing is read beyond the tag
    auto s = mkv::el(0x7373, mkv::el(0x63C0, mkv::num(0x68CA, 30)) + mkv::el(0x67C8, mkv::el(0x45A3, "ARTIST") + mkv::el(0x4487, "4")) + mkv::el(0x67C8, mkv::el(0x45A3, "T") + mkv::el(0x4487, "t") + mkv::el(0x67C8, mkv::el(0x45A3, "U") + mkv::el(0x4485, "u"))));
    EbmlElement::bytesToBeSkipped = 4;
    if (sx_flag("truncated")) {
        s.resize(sx_choice(static_cast<unsigned>(s.size()), "size"));
    } else {
        const auto o = sx_choice(static_cast<unsigned>(s.size()), "position");
        s[o] = sx_val<char>("value");
    }
    File f(s);
    MatroskaTag tag;
    Diagnostics diag;
    try {
        tag.parse(*f.e, diag);
    } catch (const Failure &) {
        sx_reach("failed");
        return;
    } catch (const std::ios_base::failure &) {
        sx_reach("failed");
        return;
    }
    size_t total = 0;
    for (const auto &i : tag.fields()) total += i.first.size() + i.second.value().dataSize();
    sx_assert(total <= s.size() + 40, "no more data than there is");
    Diagnostics diag2;
    readTag(make(tag, diag2));
    sx_reach("parsed");
}
