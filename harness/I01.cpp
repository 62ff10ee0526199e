// ID3v1 tags: what is made reads back, and every 128-byte block is read as specified.
#include "../engine/sx.h"
#include "io.h"
#include "ref.h"
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3genres.h>
#include <tagparser/id3/id3v1tag.h>
#include <c++utilities/conversion/conversionexception.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: one field with arbitrary Latin-1 or UTF-8 bytes of 0..3, 26..31 (quick; first and last five bytes arbitrary) or 0..33 (thorough) bytes, the others fixed; all track numbers from -2 to 300 and all genres; every 128-byte block
//! outside: UTF-16 text (written as it is, with a warning); text starting with the bytes EF BB BF

static constexpr KnownField F[] = { KnownField::Title, KnownField::Artist, KnownField::Album, KnownField::RecordDate, KnownField::Comment };
static constexpr unsigned OFF[] = { 3, 33, 63, 93, 97 }, LEN[] = { 30, 30, 30, 4, 28 };

static std::string trimmed(std::string s)
{
    while (!s.empty() && (s.back() == 0 || s.back() == ' ')) s.pop_back();
    return s;
}

//@ quick=40 thorough=300 threads=3 reach=fits,truncated
SX_HARNESS(make_then_parse)
{
    const unsigned which = sx_choice(5, "field");
    const unsigned k = sx_choice(SX_THOROUGH ? 34 : 10, "n");
    const unsigned n = SX_THOROUGH || k < 4 ? k : 22 + k;
    const auto enc = sx_flag("utf8") ? TagTextEncoding::Utf8 : TagTextEncoding::Latin1;
    std::string text(n, 'm');
    if (n > 8 && !SX_THOROUGH) {
        sx_sym(&text[0], 1, "first");
        sx_sym(&text[n - 5], 5, "last");
    } else
        text = sx_string(n, "text");
    if (n >= 3) sx_assume_(!((text[0] == char(0xEF)) & (text[1] == char(0xBB)) & (text[2] == char(0xBF))));
    Id3v1Tag tag;
    Diagnostics diag;
    for (unsigned i = 0; i < 5; ++i)
        if (i != which) tag.setValue(F[i], TagValue(std::string_view(i == 3 ? "1999" : "some text"), TagTextEncoding::Latin1));
    tag.setValue(F[which], TagValue(text, enc));
    tag.setValue(KnownField::TrackPosition, TagValue(PositionInSet(7, 9)));
    TagValue genre;
    genre.assignStandardGenreIndex(17);
    tag.setValue(KnownField::Genre, genre);
    Mem m;
    tag.make(m, diag);
    const auto out = m.str();
    sx_assert(out.size() == 128, "the tag has 128 bytes");
    // the layout
    std::string want("TAG");
    bool bom = false;
    if (enc == TagTextEncoding::Utf8)
        for (const char c : text) bom |= (c & 0x80) != 0;
    std::string stored;
    for (unsigned i = 0; i < 5; ++i) {
        std::string v(i == which ? std::string(bom ? "\xEF\xBB\xBF" : "") + text : std::string(i == 3 ? "1999" : "some text"));
        v.resize(LEN[i], '\0');
        if (i == which) stored = v;
        want += v;
    }
    want += std::string("\0\7\x11", 3);
    sx_assert_eq(out, want, "layout");
    const bool fits = n + (bom ? 3u : 0u) <= LEN[which];
    if (!fits) sx_assert(hasWarning(diag), "truncation is reported");
    sx_reach(fits ? "fits" : "truncated");
    // and back
    Id3v1Tag back;
    Diagnostics diag2;
    m.seekg(0);
    back.parse(m, diag2);
    sx_assert(back.size() == 128, "size");
    for (unsigned i = 0; i < 5; ++i) {
        const auto &v = back.value(F[i]);
        if (i != which) {
            sx_assert_eq(v.data(), i == 3 ? "1999" : "some text", "other field");
            sx_assert(back.hasField(F[i]), "other field is there");
            continue;
        }
        auto t = trimmed(stored);
        if (bom && t.size() >= 3) {
            t = t.substr(3);
            sx_assert(v.dataEncoding() == TagTextEncoding::Utf8, "UTF-8 is recognised");
        } else if (!bom)
            sx_assert(v.isEmpty() || v.dataEncoding() == TagTextEncoding::Latin1, "Latin-1 otherwise");
        sx_assert_eq(v.data(), t, "field reads back");
        sx_assert(back.hasField(F[i]) == !t.empty(), "field is there unless empty");
    }
    sx_assert(back.value(KnownField::TrackPosition).toPositionInSet().position() == 7, "track reads back");
    sx_assert(back.value(KnownField::Genre).toStandardGenreIndex() == 17, "genre reads back");
}

//@ quick=30 thorough=100 threads=2 reach=both,notrack,nogenre
SX_HARNESS(numbers)
{
    const auto track = sx_range<std::int32_t>(-2, 300, "track");
    const auto gi = sx_range<std::int32_t>(0, 300, "genre");
    Id3v1Tag tag;
    tag.setValue(KnownField::TrackPosition, TagValue(PositionInSet(track, 0)));
    TagValue g;
    g.assignStandardGenreIndex(gi);
    tag.setValue(KnownField::Genre, g);
    sx_assert(tag.fieldCount() == 2, "two fields");
    Mem m;
    Diagnostics diag;
    tag.make(m, diag);
    Id3v1Tag back;
    Diagnostics diag2;
    m.seekg(0);
    back.parse(m, diag2);
    const bool trackOk = track >= 0 && track <= 255, genreOk = gi < 192 || gi == 255;
    const auto out = m.str();
    if (trackOk) {
        sx_assert(static_cast<unsigned char>(out[126]) == track, "track byte");
        sx_assert(back.value(KnownField::TrackPosition).toPositionInSet().position() == track, "track reads back");
    } else {
        sx_assert(out[126] == 0, "no track written");
        sx_assert(hasWarning(diag), "unsupported track is reported");
        sx_reach("notrack");
    }
    if (genreOk) {
        sx_assert(static_cast<unsigned char>(out[127]) == gi, "genre byte");
        sx_assert(back.value(KnownField::Genre).toStandardGenreIndex() == gi, "genre reads back");
    } else {
        sx_assert(hasWarning(diag), "unsupported genre is reported");
        sx_reach("nogenre");
    }
    if (trackOk && genreOk) {
        sx_assert(!hasWarning(diag), "nothing to complain about");
        sx_reach("both");
    }
}

// every block of 128 bytes
//@ quick=40 thorough=120 threads=2 reach=v1.0,v1.1,none
SX_HARNESS(parse_any)
{
    const unsigned which = sx_choice(5, "field");
    std::string block(128, 'x');
    sx_sym(&block[0], 3, "magic");
    sx_sym(&block[OFF[which]], LEN[which], "text");
    sx_sym(&block[125], 3, "end");
    for (const unsigned o : { OFF[which] }) // no second byte order mark
        sx_assume_(!((block[o] == char(0xEF)) & (block[o + 1] == char(0xBB)) & (block[o + 2] == char(0xBF)) & (block[o + 3] == char(0xEF))));
    Mem m(block);
    Id3v1Tag tag;
    Diagnostics diag;
    try {
        tag.parse(m, diag);
    } catch (const NoDataFoundException &) {
        sx_assert(block.substr(0, 3) != "TAG", "a tag is recognised");
        sx_reach("none");
        return;
    }
    sx_assert(block.substr(0, 3) == "TAG", "only tags are recognised");
    const bool v11 = block[125] == 0;
    sx_assert_eq(tag.version(), v11 ? "1.1" : "1.0", "version");
    const unsigned len = which == 4 && !v11 ? 30 : LEN[which];
    auto t = trimmed(block.substr(OFF[which], len));
    const bool bom = t.size() >= 3 && t.substr(0, 3) == "\xEF\xBB\xBF";
    if (bom) t = t.substr(3);
    const auto &v = tag.value(F[which]);
    sx_assert_eq(v.data(), t, "text");
    if (!t.empty()) sx_assert(v.dataEncoding() == (bom ? TagTextEncoding::Utf8 : TagTextEncoding::Latin1), "encoding");
    sx_assert(tag.hasField(F[which]) == !t.empty(), "presence");
    if (v11)
        sx_assert(tag.value(KnownField::TrackPosition).toPositionInSet().position() == static_cast<unsigned char>(block[126]), "track");
    else
        sx_assert(!tag.hasField(KnownField::TrackPosition), "no track in version 1.0");
    const auto gi = static_cast<unsigned char>(block[127]);
    try {
        sx_assert(tag.value(KnownField::Genre).toStandardGenreIndex() == gi, "genre");
        sx_assert(gi < 192 || gi == 255, "known genre");
    } catch (const ConversionException &) {
        sx_assert(gi >= 192 && gi != 255, "unknown genre");
    }
    sx_reach(v11 ? "v1.1" : "v1.0");
}

// fields: supported ones are set, counted, found and removed; the others are refused
//@ quick=20 thorough=60 threads=2 reach=supported,other
SX_HARNESS(fields)
{
    const auto f = static_cast<KnownField>(sx_choice(knownFieldArraySize, "field"));
    Id3v1Tag tag;
    const bool supported = tag.supportsField(f);
    sx_assert(!tag.hasField(f) && tag.value(f).isEmpty() && tag.fieldCount() == 0, "empty tag has no fields");
    const TagValue v(std::string_view("12"), TagTextEncoding::Latin1);
    sx_assert(tag.setValue(f, v) == supported, "exactly supported fields can be set");
    sx_assert(tag.hasField(f) == supported, "exactly supported fields are there");
    sx_assert(tag.fieldCount() == (supported ? 1u : 0u), "count");
    if (supported) sx_assert(tag.value(f) == v, "value");
    for (auto g = firstKnownField; g != KnownField::Invalid; g = nextKnownField(g))
        if (g != f) sx_assert(!tag.hasField(g) && tag.value(g).isEmpty(), "no other field is set");
    // values can be taken over by another tag
    Id3v1Tag other;
    sx_assert(other.insertValues(tag, false) == (supported ? 1u : 0u), "values inserted");
    if (supported) sx_assert(other.value(f) == v, "inserted value");
    const TagValue w(std::string_view("13"), TagTextEncoding::Latin1);
    Id3v1Tag third;
    third.setValue(f, w);
    third.insertValues(tag, false);
    if (supported) sx_assert(third.value(f) == w, "existing values are kept");
    third.insertValues(tag, true);
    if (supported) sx_assert(third.value(f) == v, "existing values are overwritten if wanted");
    tag.removeAllFields();
    sx_assert(!tag.hasField(f) && tag.fieldCount() == 0, "removed");
    sx_reach(supported ? "supported" : "other");
}
