// Conversions between the types of a TagValue are exact or reported; never garbage, never out of bounds.
#include "../engine/sx.h"
#include "ref.h"
#include <tagparser/id3/id3genres.h>
#include <tagparser/tagvalue.h>
#include <c++utilities/conversion/conversionexception.h>
#include <limits>
using namespace TagParser;
using namespace CppUtilities;
//! bound: all 32-bit integers, all 64-bit unsigned integers, all positions/totals (formatting: one of position/total with |x| < 1000 and the other one of four values, integers < 10000 quick, all thorough), raw data of 0..9 bytes of every type; position texts of up to 5 characters
//! outside: parsing of date/time texts (done by c++utilities); fractional ratings of a popularity converted to an integer
//! assume: floating-point formatting of the C library

template <typename F> static bool tryIt(F f)
{
    try {
        f();
        return true;
    } catch (const ConversionException &) {
        return false;
    }
}

//@ quick=30 thorough=120 threads=2 reach=genre,nogenre,unsigned,negative
SX_HARNESS(from_integer)
{
    const auto i = sx_val<std::int32_t>("i");
    TagValue v;
    if (sx_flag("ctor"))
        v = TagValue(static_cast<int>(i));
    else
        v.assignInteger(i);
    sx_assert(v.type() == TagDataType::Integer && v.dataSize() == 4, "type and size");
    sx_assert(v.toInteger() == i, "integer reads back");
    std::uint64_t u = 0;
    const bool ok = tryIt([&] { u = v.toUnsignedInteger(); });
    sx_assert(ok == (i >= 0), "negative integers are not unsigned");
    if (ok) {
        sx_assert(u == static_cast<std::uint64_t>(i), "unsigned value");
        sx_reach("unsigned");
    } else
        sx_reach("negative");
    const auto p = v.toPositionInSet();
    sx_assert(p.position() == i, "position of an integer");
    sx_assert(p.total() == 0, "no total");
    sx_assert(v.toTimeSpan().totalTicks() == i, "time span ticks");
    sx_assert(v.toDateTime().totalTicks() == static_cast<std::uint32_t>(i), "date time ticks");
    int g = 0;
    if (tryIt([&] { g = v.toStandardGenreIndex(); })) {
        sx_assert(g == i, "genre index is the integer");
        sx_assert((g >= 0 && g < Id3Genres::genreCount()) || Id3Genres::isEmptyGenre(g), "only known genres");
        sx_reach("genre");
    } else {
        sx_assert(i < 0 || i >= Id3Genres::genreCount(), "known genres are accepted");
        sx_reach("nogenre");
    }
    TagValue w;
    w.assignStandardGenreIndex(i);
    sx_assert(w.type() == TagDataType::StandardGenreIndex, "genre type");
    sx_assert(w.toInteger() == i, "genre index as integer");
}

//@ quick=20 thorough=120 threads=2 reach=fits,toobig
SX_HARNESS(from_unsigned)
{
    const auto u = sx_val<std::uint64_t>("u");
    TagValue v;
    if (sx_flag("ctor"))
        v = TagValue(u);
    else
        v.assignUnsignedInteger(u);
    sx_assert(v.type() == TagDataType::UnsignedInteger && v.dataSize() == 8, "type and size");
    sx_assert(v.toUnsignedInteger() == u, "unsigned integer reads back");
    const bool small = u <= static_cast<std::uint64_t>(std::numeric_limits<std::int32_t>::max());
    std::int32_t i = 0;
    sx_assert(tryIt([&] { i = v.toInteger(); }) == small, "fits or is reported");
    if (small) {
        sx_assert(static_cast<std::uint64_t>(i) == u, "integer value");
        sx_reach("fits");
    } else
        sx_reach("toobig");
    PositionInSet p;
    if (tryIt([&] { p = v.toPositionInSet(); })) {
        sx_assert(small, "position only if it fits");
        sx_assert(static_cast<std::uint64_t>(p.position()) == u && !p.total(), "position value");
    } else
        sx_assert(u >= static_cast<std::uint64_t>(std::numeric_limits<std::int32_t>::max()), "small positions are accepted");
    TimeSpan t;
    if (tryIt([&] { t = v.toTimeSpan(); }))
        sx_assert(static_cast<std::uint64_t>(t.totalTicks()) == u && t.totalTicks() >= 0, "ticks of the span");
    else
        sx_assert(u >= static_cast<std::uint64_t>(std::numeric_limits<std::int64_t>::max()), "usual spans are accepted");
    sx_assert(v.toDateTime().totalTicks() == u, "ticks of the date");
    int g = 0;
    if (tryIt([&] { g = v.toStandardGenreIndex(); }))
        sx_assert(static_cast<std::uint64_t>(g) == u || Id3Genres::isEmptyGenre(g), "genre index is the value");
    else
        sx_assert(u >= static_cast<std::uint64_t>(Id3Genres::genreCount()), "known genres are accepted");
}

//@ quick=40 thorough=400 threads=2 reach=null,set
SX_HARNESS(from_position)
{
    auto p = sx_val<std::int32_t>("position"), t = sx_val<std::int32_t>("total");
    TagValue v;
    v.assignPosition(PositionInSet(p, t));
    sx_assert(v.type() == TagDataType::PositionInSet, "type");
    const auto q = v.toPositionInSet();
    sx_assert(q.position() == p, "position reads back");
    sx_assert(q.total() == t, "total reads back");
    if (v.isEmpty()) {
        sx_assert(!p && !t, "only the null position is empty");
        sx_reach("null");
        return;
    }
    sx_assert(v.toInteger() == p, "position as integer");
    sx_reach("set");
}

// text form of a position and of integers
//@ quick=60 thorough=900 threads=4 reach=end
SX_HARNESS(number_text)
{
    auto lim = [](std::int32_t x) { sx_assume_(SX_THOROUGH || ((x > -1000) & (x < 1000))); };
    auto p = sx_val<std::int32_t>("position"), t = sx_val<std::int32_t>("total");
    lim(p), lim(t);
    static constexpr std::int32_t FEW[] = { 0, 7, -3, 12 };
    if (sx_flag("which")) p = FEW[sx_choice(4, "few")];
    else t = FEW[sx_choice(4, "few")];
    TagValue v(PositionInSet(p, t));
    const auto s = v.toString();
    if (p || t) {
        const PositionInSet q = TagValue(s, TagTextEncoding::Latin1).toPositionInSet();
        sx_assert(q.position() == p, "position survives its text form");
        sx_assert(q.total() == t, "total survives its text form");
        const auto wide = v.toString(TagTextEncoding::Utf16BigEndian);
        sx_assert(wide.size() == 2 * s.size(), "text form in UTF-16");
        sx_assert(TagValue(wide, TagTextEncoding::Utf16BigEndian).toPositionInSet() == q, "position survives its UTF-16 text form");
        sx_assert(v.toWString(TagTextEncoding::Utf16LittleEndian).size() == s.size(), "wide text form");
    } else
        sx_assert(s.empty(), "no text for the null position");
    sx_reach("end");
}
//@ quick=60 thorough=600 threads=2 reach=end
SX_HARNESS(integer_text)
{
    const auto i = sx_val<std::int32_t>("i");
    sx_assume_(SX_THOROUGH || ((i > -10000) & (i < 10000)));
    TagValue v(static_cast<int>(i));
    sx_assert(TagValue(v.toString(), TagTextEncoding::Utf8).toInteger() == i, "integer survives its text form");
    const auto w = v.toWString(TagTextEncoding::Utf16LittleEndian);
    sx_assert_eq(std::string_view(reinterpret_cast<const char *>(w.data()), w.size() * 2), v.toString(TagTextEncoding::Utf16LittleEndian), "both wide forms agree");
    const auto u = sx_val<std::uint32_t>("u");
    sx_assume_(SX_THOROUGH || u < 10000);
    TagValue x(static_cast<std::uint64_t>(u));
    sx_assert(TagValue(x.toString(), TagTextEncoding::Utf8).toUnsignedInteger() == u, "unsigned integer survives its text form");
    sx_reach("end");
}

// position texts against a grammar: digits, digits/, /digits, digits/digits
//@ quick=60 thorough=600 threads=2 reach=full,single,total
SX_HARNESS(position_text)
{
    const unsigned n = 1 + sx_choice(SX_THOROUGH ? 6 : 5, "n");
    const auto s = sx_string(n, "text");
    for (char c : s) sx_assume_((c >= '/') & (c <= '9')); // '/' directly precedes '0'
    size_t slash = s.find('/');
    PositionInSet p;
    const bool ok = tryIt([&] { p = TagValue(s, TagTextEncoding::Latin1).toPositionInSet(); });
    const bool single = slash == std::string::npos;
    if (!single && s.find('/', slash + 1) != std::string::npos) return; // more than one separator: no claim
    if (!single && slash == n - 1) return; // trailing separator: no claim
    auto num = [](std::string_view d) {
        std::int32_t r = 0;
        for (char c : d) r = r * 10 + (c - '0');
        return r;
    };
    sx_assert(ok, "well-formed position text is accepted");
    sx_assert(p.position() == (single ? num(s) : num(std::string_view(s).substr(0, slash))), "position of the text");
    sx_assert(p.total() == (single ? 0 : num(std::string_view(s).substr(slash + 1))), "total of the text");
    sx_reach(single ? "single" : slash ? "full" : "total");
}

// arbitrary bytes labelled with any type: conversions return or throw ConversionException, within the data
//@ quick=60 thorough=600 threads=4 reach=returned,threw
SX_HARNESS(raw_data)
{
    static constexpr TagDataType types[] = { TagDataType::Integer, TagDataType::PositionInSet, TagDataType::StandardGenreIndex, TagDataType::TimeSpan, TagDataType::DateTime,
        TagDataType::Picture, TagDataType::Binary, TagDataType::Undefined, TagDataType::UnsignedInteger, TagDataType::DateTimeExpression, TagDataType::Text };
    const auto type = types[sx_choice(sizeof(types) / sizeof(*types), "type")];
    const unsigned n = sx_choice(10, "n");
    const auto bytes = sx_string(n, "bytes");
    static constexpr TagTextEncoding ENC[] = { TagTextEncoding::Latin1, TagTextEncoding::Utf8, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian };
    const auto enc = type == TagDataType::Text ? ENC[sx_choice(4, "enc")] : TagTextEncoding::Latin1;
    sx_assume(type != TagDataType::Text || n <= 3);
    TagValue v(bytes.data(), n, type, enc);
    const unsigned what = sx_choice(7, "what");
    bool ok = false;
    switch (what) {
    case 0: ok = tryIt([&] { (void)v.toInteger(); }); break;
    case 1: ok = tryIt([&] { (void)v.toUnsignedInteger(); }); break;
    case 2: ok = tryIt([&] {
        const int g = v.toStandardGenreIndex();
        sx_assert((g >= 0 && g < Id3Genres::genreCount()) || Id3Genres::isEmptyGenre(g), "only known genres");
    }); break;
    case 3: ok = tryIt([&] { (void)v.toPositionInSet(); }); break;
    case 4: if (type != TagDataType::Text) ok = tryIt([&] { (void)v.toTimeSpan(); }); break;
    case 5: if (type != TagDataType::Text) ok = tryIt([&] { (void)v.toDateTime(); }); break;
    default: if (type != TagDataType::Text) ok = tryIt([&] { (void)v.toDateTimeExpression(); }); break;
    }
    sx_reach(ok ? "returned" : "threw");
    if (type == TagDataType::Picture || type == TagDataType::Binary || type == TagDataType::Undefined)
        sx_assert(v.isEmpty() || !ok, "binary data has no numeric meaning");
}

// genre by index, by name and by text of an index
//@ quick=30 thorough=60 threads=1 reach=end
SX_HARNESS(genre_text)
{
    const auto i = sx_val<std::uint8_t>("i");
    sx_assume(i < Id3Genres::genreCount());
    const auto name = Id3Genres::stringFromIndex(i);
    sx_assert(!name.empty(), "every index has a name");
    sx_assert(Id3Genres::indexFromString(name) == i, "name leads back to its index");
    TagValue v;
    v.assignStandardGenreIndex(i);
    sx_assert_eq(v.toString(), name, "text of a genre index is the genre name");
    sx_assert(TagValue(std::string(name), TagTextEncoding::Latin1).toStandardGenreIndex() == i, "genre name converts to the index");
    sx_assert(v.toStandardGenreIndex() == i, "index reads back");
    sx_reach("end");
}
