// Text values keep their characters through every encoding the library offers.
#include "../engine/sx.h"
#include "ref.h"
#include <tagparser/tagvalue.h>
#include <c++utilities/conversion/conversionexception.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: text of up to 4 bytes (quick) or 6 bytes (thorough), every byte value, every pair of the four encodings, leading BOM included
//! outside: longer texts; malformed text converted to another encoding (only required to stay memory safe); TagTextEncoding::Unspecified as source of a conversion
//! assume: iconv and the UTF converters of c++utilities behave as models/model_cppu.cpp (compared exhaustively for short strings with the real library)

static constexpr TagTextEncoding ENC[] = { TagTextEncoding::Latin1, TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };
static const unsigned MAXLEN = SX_THOROUGH ? 6 : 4;

struct In {
    TagTextEncoding from, to;
    std::string text, stripped, want;
    bool valid, representable;
    In()
    {
        from = ENC[sx_choice(4, "from")], to = ENC[sx_choice(4, "to")];
        text = sx_string(sx_choice(MAXLEN + 1, "n"), "text");
        ref::Codepoints cps;
        ref::stripBom(text, from, stripped);
        valid = ref::decode(stripped, from, cps);
        representable = valid && ref::encode(cps, to, want);
    }
};
// outcome of one conversion
static void judge(const In &in, bool ok, const std::string &res)
{
    if (in.from == in.to) {
        sx_assert(ok, "no conversion, no failure");
        sx_assert_eq(res, in.stripped, "same encoding leaves the text as it is");
        sx_reach("same");
    } else if (in.representable) {
        sx_assert(ok, "representable text converts");
        sx_assert_eq(res, in.want, "conversion keeps the characters");
        sx_reach("converted");
    } else if (in.valid) {
        sx_assert(!ok, "text which can not be represented is reported");
        sx_reach("rejected");
    }
}

//@ quick=30 thorough=400 threads=3 reach=converted,rejected,same
SX_HARNESS(assign_then_read)
{
    In in;
    TagValue v;
    v.assignText(in.text, in.from);
    sx_assert(v.type() == TagDataType::Text, "type is text");
    sx_assert(v.dataEncoding() == in.from, "encoding is kept");
    sx_assert_eq(v.toString(), in.stripped, "unconverted text is what was assigned minus the BOM");
    sx_assert(v.isEmpty() == in.stripped.empty(), "emptiness");
    std::string res;
    bool ok = true;
    try {
        v.toString(res, in.to);
    } catch (const ConversionException &) {
        ok = false;
    }
    judge(in, ok, res);
    sx_assert_eq(v.toString(), in.stripped, "reading does not change the value");
}

//@ quick=30 thorough=400 threads=3 reach=converted,rejected,same
SX_HARNESS(assign_converting)
{
    In in;
    bool ok = true;
    std::string res;
    try {
        TagValue v(in.text, in.from, in.to);
        sx_assert(v.dataEncoding() == in.to, "encoding is the one converted to");
        res.assign(v.data());
    } catch (const ConversionException &) {
        ok = false;
    }
    judge(in, ok, res);
}

//@ quick=30 thorough=400 threads=3 reach=converted,rejected,same
SX_HARNESS(convert_in_place)
{
    In in;
    TagValue v;
    v.assignData(in.text.data(), in.text.size(), TagDataType::Text, in.from);
    v.setDescription(in.stripped, in.from);
    bool ok = true;
    try {
        v.convertDataEncoding(in.to);
    } catch (const ConversionException &) {
        ok = false;
    }
    judge(in, ok, std::string(v.data()));
    if (ok)
        sx_assert(v.dataEncoding() == in.to, "encoding is the new one");
    else {
        sx_assert(v.dataEncoding() == in.from, "failed conversion leaves the encoding");
        sx_assert_eq(v.data(), in.stripped, "failed conversion leaves the text");
    }
    ok = true;
    try {
        v.convertDescriptionEncoding(in.to);
    } catch (const ConversionException &) {
        ok = false;
    }
    judge(in, ok, v.description());
    sx_assert(v.descriptionEncoding() == (ok ? in.to : in.from), "description encoding");
    if (!ok) sx_assert_eq(v.description(), in.stripped, "failed conversion leaves the description");
}

//@ quick=20 thorough=300 threads=2 reach=converted,same
SX_HARNESS(wide_string)
{
    In in;
    const bool utf16 = in.to == TagTextEncoding::Utf16LittleEndian || in.to == TagTextEncoding::Utf16BigEndian;
    sx_assume(utf16);
    TagValue v(in.text, in.from);
    std::u16string w;
    bool ok = true;
    try {
        w = v.toWString(in.to);
    } catch (const ConversionException &) {
        ok = false;
    }
    if (in.from == in.to && (in.stripped.size() & 1)) return;
    judge(in, ok, std::string(reinterpret_cast<const char *>(w.data()), w.size() * 2));
}

// characters from a constructor taking a C string; nothing of the object depends on what the memory held before
//@ quick=20 thorough=60 threads=1 reach=end
SX_HARNESS(constructors_initialise)
{
    alignas(TagValue) unsigned char mem1[sizeof(TagValue)], mem2[sizeof(TagValue)];
    sx_sym(mem1, sizeof mem1, "memory1");
    sx_sym(mem2, sizeof mem2, "memory2");
    const unsigned how = sx_choice(5, "constructor");
    const auto make = [how](void *m) -> TagValue * {
        switch (how) {
        case 0:
            return new (m) TagValue("abc", TagTextEncoding::Utf8);
        case 1:
            return new (m) TagValue("abc", 3, TagTextEncoding::Utf8);
        case 2:
            return new (m) TagValue(std::string("abc"), TagTextEncoding::Utf8);
        case 3:
            return new (m) TagValue(std::string_view("abc"), TagTextEncoding::Utf8);
        default:
            return new (m) TagValue("abc", 3, TagDataType::Text, TagTextEncoding::Utf8);
        }
    };
    auto *a = make(mem1), *b = make(mem2);
    sx_assert(a->flags() == TagValueFlags::None, "no flags after construction");
    sx_assert(a->descriptionEncoding() == TagTextEncoding::Latin1, "description encoding after construction");
    sx_assert(*a == *b, "two values constructed alike are equal");
    a->~TagValue();
    b->~TagValue();
    sx_reach("end");
}

// numbers and text given in UTF-16 or Latin-1/UTF-8 read the same
//@ quick=30 thorough=200 threads=2 reach=equal,different
SX_HARNESS(equality_across_encodings)
{
    In in;
    sx_assume(in.representable);
    TagValue a(in.text, in.from), b;
    b.assignData(in.want.data(), in.want.size(), TagDataType::Text, in.to);
    std::string wantStripped;
    ref::stripBom(in.want, in.to, wantStripped);
    if (wantStripped.size() == in.want.size()) {
        sx_assert(a == b, "same characters in different encodings are equal");
        sx_assert(b == a, "equality is symmetric");
        sx_reach("equal");
    }
    if (!in.want.empty()) {
        TagValue c(in.text + (in.from == TagTextEncoding::Utf16BigEndian ? std::string("\0x", 2)
                                   : in.from == TagTextEncoding::Utf16LittleEndian ? std::string("x\0", 2)
                                                                                   : std::string("x")),
            in.from);
        sx_assert(!(c == b), "different characters are not equal");
        sx_assert(!(b == c), "inequality is symmetric");
        sx_reach("different");
    }
}

// the same for descriptions
//@ quick=30 thorough=200 threads=2 reach=equal,different
SX_HARNESS(descriptions_across_encodings)
{
    In in;
    sx_assume(in.representable);
    std::string wantStripped, textStripped;
    ref::stripBom(in.want, in.to, wantStripped);
    ref::stripBom(in.text, in.from, textStripped);
    sx_assume(wantStripped.size() == in.want.size() && textStripped.size() == in.text.size());
    TagValue a("val", 3, TagTextEncoding::Latin1), b("val", 3, TagTextEncoding::Latin1);
    a.setDescription(in.text, in.from);
    b.setDescription(in.want, in.to);
    sx_assert(a == b, "same description in different encodings is equal");
    sx_assert(b == a, "equality is symmetric");
    sx_reach("equal");
    if (!in.want.empty()) {
        TagValue c("val", 3, TagTextEncoding::Latin1);
        c.setDescription(in.text + (in.from == TagTextEncoding::Utf16BigEndian ? std::string("\0x", 2)
                                           : in.from == TagTextEncoding::Utf16LittleEndian ? std::string("x\0", 2)
                                                                                           : std::string("x")),
            in.from);
        sx_assert(!(c == b), "different descriptions are not equal");
        sx_assert(!(b == c), "inequality is symmetric");
        sx_assert(c.compareTo(b, TagValueComparisionFlags::IgnoreMetaData), "equal when ignoring metadata");
        sx_reach("different");
    }
    a.convertDescriptionEncoding(in.to);
    sx_assert_eq(a.description(), in.want, "description is converted");
    sx_assert(a.descriptionEncoding() == in.to || in.text.empty(), "description encoding");
}

//@ quick=30 thorough=200 threads=2 reach=number,nonumber
SX_HARNESS(numbers_in_text)
{
    const unsigned n = sx_choice(SX_THOROUGH ? 5 : 4, "n");
    std::string digits = sx_string(n, "digits");
    for (char c : digits) sx_assume_((static_cast<unsigned char>(c) < 0x80) & (c != 0));
    std::string be, le;
    for (char c : digits) be += '\0', be += c, le += c, le += '\0';
    const TagValue a(digits, TagTextEncoding::Latin1), b(digits, TagTextEncoding::Utf8), c(le, TagTextEncoding::Utf16LittleEndian),
        d(be, TagTextEncoding::Utf16BigEndian);
    auto num = [](const TagValue &v, bool &ok) {
        ok = true;
        try {
            return v.toInteger();
        } catch (const ConversionException &) {
            ok = false;
            return 0;
        }
    };
    bool ok[4];
    const std::int32_t r[4] = { num(a, ok[0]), num(b, ok[1]), num(c, ok[2]), num(d, ok[3]) };
    for (int i = 1; i < 4; ++i) {
        sx_assert(ok[i] == ok[0], "a number reads as a number whatever the encoding");
        sx_assert(r[i] == r[0], "same number whatever the encoding");
    }
    // plain digits
    bool plain = n != 0;
    std::int32_t val = 0;
    for (char x : digits) {
        if (x < '0' || x > '9') {
            plain = false;
            break;
        }
        val = val * 10 + (x - '0');
    }
    if (plain) {
        sx_assert(ok[0], "digits are a number");
        sx_assert(r[0] == val, "value of the digits");
        sx_reach("number");
    } else
        sx_reach("nonumber");
}
