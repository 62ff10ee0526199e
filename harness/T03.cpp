// Copies, moves, assignments and comparisons of tag values.
#include "../engine/sx.h"
#include "ref.h"
#include <tagparser/tagvalue.h>
#include <c++utilities/conversion/conversionexception.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: data of up to 4 bytes, description/MIME type of up to 2 bytes, every data type, every encoding, all flags
//! outside: native data attached to a value; ignoring case in text with characters beyond ASCII (compared byte by byte); equality of text which is malformed in its own encoding

static constexpr TagTextEncoding ENC[] = { TagTextEncoding::Latin1, TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };
static constexpr TagDataType TYPES[] = { TagDataType::Text, TagDataType::Integer, TagDataType::PositionInSet, TagDataType::StandardGenreIndex, TagDataType::Picture,
    TagDataType::Binary, TagDataType::Undefined, TagDataType::UnsignedInteger };

static void fill(TagValue &v, const char *name, unsigned maxData, bool meta)
{
    const auto t = TYPES[sx_choice(8, name)];
    const auto bytes = sx_string(sx_choice(maxData + 1, name), name);
    const auto enc = t == TagDataType::Text ? ENC[sx_choice(4, name)] : TagTextEncoding::Latin1;
    v.assignData(bytes.data(), bytes.size(), t, enc);
    if (meta) {
        const auto enc = ENC[sx_choice(2, name) * 2];
        const auto desc = sx_string(sx_choice(3, name), name);
        v.setDescription(desc, enc);
        v.setMimeType(sx_string(1, name));
        v.setReadonly(sx_flag(name));
        v.setLocale(Locale(sx_string(1, name), LocaleFormat::ISO_639_2_B));
    }
}
static void same(const TagValue &a, const TagValue &b)
{
    sx_assert(a.type() == b.type(), "type is copied");
    sx_assert_eq(a.data(), b.data(), "data is copied");
    sx_assert(a.dataEncoding() == b.dataEncoding(), "encoding is copied");
    sx_assert(a.descriptionEncoding() == b.descriptionEncoding(), "description encoding is copied");
    sx_assert_eq(a.description(), b.description(), "description is copied");
    sx_assert_eq(a.mimeType(), b.mimeType(), "MIME type is copied");
    sx_assert(a.flags() == b.flags(), "flags are copied");
    sx_assert(a.locale().size() == b.locale().size(), "locale is copied");
    for (size_t i = 0; i < a.locale().size() && i < b.locale().size(); ++i) {
        sx_assert_eq(a.locale()[i], b.locale()[i], "locale is copied");
        sx_assert(a.locale()[i].format == b.locale()[i].format, "locale format is copied");
    }
    sx_assert(a.isEmpty() == b.isEmpty(), "emptiness is copied");
}

//@ quick=40 thorough=200 threads=3 reach=end
SX_HARNESS(copy_and_move)
{
    TagValue v;
    fill(v, "v", 3, true);
    const unsigned how = sx_choice(6, "how");
    TagValue ref(std::string_view("keep"), TagTextEncoding::Utf8);
    ref.assignData(v.data().data(), v.dataSize(), v.type() == TagDataType::Text ? TagDataType::Binary : v.type(), v.dataEncoding());
    const std::string data(v.data()), desc(v.description());
    switch (how) {
    case 0: {
        TagValue c(v);
        same(c, v);
        c.assignText("other", 5, TagTextEncoding::Utf8);
        c.setDescription("changed");
        sx_assert_eq(v.data(), data, "changing a copy leaves the original");
        sx_assert_eq(v.description(), desc, "changing a copy leaves the original's description");
        break;
    }
    case 1: {
        TagValue c(std::string_view("something longer"), TagTextEncoding::Utf8);
        c.setDescription("x");
        c = v;
        same(c, v);
        if (c.dataSize()) c.dataPointer()[0] = static_cast<char>(c.dataPointer()[0] + 1);
        sx_assert_eq(v.data(), data, "changing a copy leaves the original");
        break;
    }
    case 2: {
        TagValue k(v);
        TagValue c(std::move(k));
        same(c, v);
        // the moved-from value can be assigned again
        k.assignData("z", 1, TagDataType::Binary);
        sx_assert_eq(k.data(), "z", "a moved-from value can be assigned again");
        same(c, v);
        break;
    }
    case 3: {
        TagValue k(v), c(std::string_view("y"), TagTextEncoding::Latin1);
        c = std::move(k);
        same(c, v);
        k.assignText("zz", 2, TagTextEncoding::Utf8);
        sx_assert_eq(k.data(), "zz", "a moved-from value can be assigned again");
        k.assignData("q", 1, TagDataType::Binary);
        sx_assert_eq(k.data(), "q", "a moved-from value can be assigned again");
        same(c, v);
        break;
    }
    case 4: {
        TagValue &alias = v;
        v = alias;
        sx_assert_eq(v.data(), data, "self-assignment keeps the data");
        sx_assert_eq(v.description(), desc, "self-assignment keeps the description");
        break;
    }
    default: {
        TagValue c(v);
        c.clearDataAndMetadata();
        sx_assert(c.isEmpty() && c.type() == TagDataType::Undefined && c.description().empty() && c.mimeType().empty() && c.flags() == TagValueFlags::None
                && c.locale().empty(),
            "cleared value is blank");
        sx_assert(c == TagValue(), "cleared value equals a fresh one");
        sx_assert_eq(v.data(), data, "clearing a copy leaves the original");
    }
    }
    sx_reach("end");
}

//@ quick=30 thorough=100 threads=2 reach=end
SX_HARNESS(assign_again)
{
    TagValue v;
    for (unsigned k = 0; k < 3; ++k) {
        const unsigned how = sx_choice(6, "how");
        const auto bytes = sx_string(sx_choice(SX_THOROUGH ? 4 : 3, "n"), "bytes");
        switch (how) {
        case 0:
            v.assignData(bytes.data(), bytes.size(), TagDataType::Binary);
            sx_assert_eq(v.data(), bytes, "data assigned last is there");
            sx_assert(v.type() == TagDataType::Binary, "type assigned last is there");
            break;
        case 1:
            v.assignText(bytes, TagTextEncoding::Latin1);
            sx_assert_eq(v.data(), bytes, "text assigned last is there");
            break;
        case 2: {
            auto p = std::make_unique<char[]>(bytes.size());
            std::copy(bytes.begin(), bytes.end(), p.get());
            v.assignData(std::move(p), bytes.size(), TagDataType::Picture);
            sx_assert_eq(v.data(), bytes, "data moved in is there");
            break;
        }
        case 3:
            v.assignInteger(7);
            sx_assert(v.toInteger() == 7, "integer assigned last is there");
            break;
        case 4:
            v.clearData();
            sx_assert(v.isEmpty() && v.dataSize() == 0, "cleared");
            break;
        default: {
            TagValue w(std::move(v));
            v.assignData(bytes.data(), bytes.size(), TagDataType::Binary);
            sx_assert_eq(v.data(), bytes, "data assigned after a move is there");
        }
        }
    }
    sx_reach("end");
}

// a == a, a == b <=> b == a, != is the opposite, equal raw data of the same kind means equal
//@ quick=60 thorough=500 threads=4 reach=equal,different
SX_HARNESS(equality_laws)
{
    TagValue a, b;
    fill(a, "a", SX_THOROUGH ? 3 : 2, false);
    fill(b, "b", SX_THOROUGH ? 3 : 2, false);
    for (const auto *v : { &a, &b }) { // text is valid in its encoding
        ref::Codepoints cps;
        if (v->type() == TagDataType::Text) sx_assume(ref::decode(std::string(v->data()), v->dataEncoding(), cps));
    }
    const bool ab = a == b;
    sx_assert(ab == (b == a), "equality is symmetric");
    sx_assert(ab != (a != b), "inequality is the opposite of equality");
    sx_reach(ab ? "equal" : "different");
    bool ascii = true;
    for (const auto *v : { &a, &b })
        for (const char c : v->data()) ascii &= static_cast<unsigned char>(c) < 0x80;
    const bool ci = a.compareTo(b, TagValueComparisionFlags::CaseInsensitive);
    if (ascii) sx_assert(ci == b.compareTo(a, TagValueComparisionFlags::CaseInsensitive), "case-insensitive equality is symmetric");
    sx_assert(!ab || ci, "equal values are equal ignoring case");
    if (a.type() == b.type() && a.dataEncoding() == b.dataEncoding() && (a.type() == TagDataType::Text || a.type() == TagDataType::Binary || a.type() == TagDataType::Picture))
        sx_assert(ab == (a.data() == b.data()), "same kind: equal exactly if the data is equal");
    const bool bin = a.type() == TagDataType::Binary || a.type() == TagDataType::Picture || a.type() == TagDataType::Undefined;
    if (bin && a.type() != b.type()) sx_assert(!ab, "binary data does not equal values of other types");
}

// meta data takes part in the comparison unless told otherwise
//@ quick=60 thorough=300 threads=3 reach=equal,different
SX_HARNESS(metadata_equality)
{
    TagValue a(std::string_view("x"), TagTextEncoding::Utf8), b(std::string_view("x"), TagTextEncoding::Utf8);
    const auto da = sx_string(sx_choice(3, "na"), "da");
    const auto db = sx_string(sx_choice(3, "nb"), "db");
    const auto ea = ENC[sx_choice(4, "ea")];
    const auto eb = ENC[sx_choice(4, "eb")];
    ref::Codepoints ca, cb;
    sx_assume(ref::decode(da, ea, ca));
    sx_assume(ref::decode(db, eb, cb));
    a.setDescription(da, ea);
    b.setDescription(db, eb);
    const bool eq = ca == cb;
    sx_assert((a == b) == eq, "descriptions are compared by their characters");
    sx_assert((b == a) == eq, "descriptions are compared by their characters (swapped)");
    sx_assert(a.compareTo(b, TagValueComparisionFlags::IgnoreMetaData), "meta data can be ignored");
    TagValue c(a);
    c.setMimeType("image/png");
    sx_assert(!(a == c), "MIME type is compared");
    TagValue d(a);
    d.setReadonly(true);
    sx_assert(!(a == d), "flags are compared");
    sx_reach(eq ? "equal" : "different");
}
