// Ratings: scales convert back and forth, order is kept, the text form and the stored form read back.
#include "../engine/sx.h"
#include "ref.h"
#include <tagparser/tagvalue.h>
#include <c++utilities/conversion/conversionexception.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: every rating 0..255 in steps of 1 (ID3v2), 0..100 (Vorbis), 1..5 in steps of 1/16 (generic), every pair of scales; user of up to 3 bytes, every 64-bit play counter, every bit pattern of a rating when stored
//! outside: damaged stored popularities announcing a user name of more than 40 bytes; text form of fractional ratings other than the sampled ones (formatting is done by the C library)

static constexpr TagType SCALES[] = { TagType::Unspecified, TagType::MatroskaTag, TagType::Id3v2Tag, TagType::VorbisComment, TagType::OggVorbisComment };
static bool near(double a, double b) { return a - b < 1e-9 && b - a < 1e-9; }

//@ quick=60 thorough=200 threads=2 reach=end
SX_HARNESS(there_and_back)
{
    const auto from = SCALES[sx_choice(5, "from")], to = SCALES[sx_choice(5, "to")];
    const auto raw = sx_val<std::uint8_t>("rating");
    double rating;
    switch (from) {
    case TagType::Id3v2Tag: sx_assume(raw >= 1); rating = raw; break;
    case TagType::VorbisComment:
    case TagType::OggVorbisComment: sx_assume((raw >= 20) & (raw <= 100)); rating = raw; break;
    case TagType::MatroskaTag: sx_assume(raw <= 80); rating = raw / 16.0; break;
    default: sx_assume((raw >= 16) & (raw <= 80)); rating = raw / 16.0;
    }
    Popularity p{ .user = "u", .rating = rating, .playCounter = 3, .scale = from };
    Popularity q = p.scaled(to);
    sx_assert(q.scale == to, "scale is the target");
    sx_assert(q.user == "u" && q.playCounter == 3, "scaling leaves user and counter");
    sx_assert(p.scale == from, "scaled() leaves the original");
    double best, worst;
    switch (to) {
    case TagType::Id3v2Tag: worst = 1, best = 255; break;
    case TagType::VorbisComment:
    case TagType::OggVorbisComment: worst = 20, best = 100; break;
    case TagType::MatroskaTag: worst = 0, best = 5; break;
    default: worst = 1, best = 5;
    }
    sx_assert(q.rating > worst - 1e-9 && q.rating < best + 1e-9, "a rating within its scale stays within the target scale");
    sx_assert(q.scaleTo(from), "scales back");
    sx_assert(near(q.rating, rating), "scaling there and back gives the same rating");
    sx_reach("end");
}

//@ quick=60 thorough=200 threads=2 reach=end
SX_HARNESS(order_and_ends)
{
    const auto to = SCALES[sx_choice(5, "to")];
    const auto a = sx_range<std::uint8_t>(1, 254, "a");
    Popularity p{ .rating = static_cast<double>(a), .scale = TagType::Id3v2Tag }, q{ .rating = static_cast<double>(a) + 1.0, .scale = TagType::Id3v2Tag };
    sx_assert(p.scaleTo(to) && q.scaleTo(to), "ID3v2 ratings convert");
    sx_assert(p.rating < q.rating, "scaling keeps the order");
    Popularity none{ .rating = 0.0, .scale = TagType::Id3v2Tag };
    sx_assert(none.scaled(TagType::Unspecified).rating == 0.0, "unrated stays unrated");
    sx_assert(none.scaled(TagType::VorbisComment).rating == 0.0, "unrated stays unrated");
    Popularity unsup{ .rating = 3.0, .scale = TagType::Unspecified };
    sx_assert(!unsup.scaleTo(TagType::Id3v1Tag) && unsup.rating == 3.0 && unsup.scale == TagType::Unspecified, "unsupported scale changes nothing");
    sx_reach("end");
}

//@ quick=40 thorough=200 threads=2 reach=end
SX_HARNESS(stored)
{
    Popularity p;
    p.user = sx_string(sx_choice(4, "n"), "user");
    const auto bits = sx_val<std::uint64_t>("rating");
    memcpy(&p.rating, &bits, 8);
    p.playCounter = sx_val<std::uint64_t>("counter");
    p.scale = SCALES[sx_choice(5, "scale")];
    TagValue v(p);
    sx_assert(v.type() == TagDataType::Popularity, "type");
    const auto q = v.toPopularity();
    sx_assert_eq(q.user, p.user, "user reads back");
    std::uint64_t back;
    memcpy(&back, &q.rating, 8);
    sx_assert(back == bits, "rating reads back bit by bit");
    sx_assert(q.playCounter == p.playCounter, "counter reads back");
    sx_assert(q.scale == p.scale, "scale reads back");
    const auto again = v.toPopularity();
    sx_assert(again.playCounter == p.playCounter, "reading twice gives the same");
    sx_reach("end");
}

// damaged stored form: reported or read, never beyond the data
//@ quick=40 thorough=200 threads=2 reach=ok,bad
SX_HARNESS(stored_damaged)
{
    // a one-byte (0x80 + length) or two-byte (0x40, length) size denotation of the user name, then whatever follows
    const unsigned n = sx_flag("long") ? 25 + sx_choice(SX_THOROUGH ? 6 : 4, "n") : 1 + sx_choice(3, "n");
    const auto bytes = sx_string(n, "bytes");
    const auto b0 = static_cast<unsigned char>(bytes[0]);
    const unsigned kind = sx_choice(3, "kind");
    sx_assume(kind == 0 ? (b0 >= 0x80 && b0 <= 0xA8) : kind == 1 ? b0 == 0x40 : b0 == 0);
    if (kind == 1 && n > 1) sx_assume(static_cast<unsigned char>(bytes[1]) <= 40);
    TagValue v(bytes.data(), n, TagDataType::Popularity);
    try {
        const auto p = v.toPopularity();
        sx_assert(p.user.size() + 25 <= n, "enough data was there");
        sx_reach("ok");
    } catch (const ConversionException &) {
        sx_reach("bad");
    }
}

//@ quick=40 thorough=200 threads=2 reach=end
SX_HARNESS(text_form)
{
    static constexpr double R[] = { 0.0, 1.0, 2.5, 5.0, 100.0, 255.0, 3.75 };
    Popularity p;
    p.user = sx_string(sx_choice(3, "n"), "user");
    for (char c : p.user) sx_assume_((c != '|') & (c != 0));
    p.rating = R[sx_choice(7, "rating")];
    p.playCounter = sx_val<std::uint16_t>("counter");
    const auto s = p.toString();
    sx_assert(s.empty() == p.isEmpty(), "empty text for the empty popularity only");
    if (s.empty()) return;
    const auto q = Popularity::fromString(s, TagType::Id3v2Tag);
    sx_assert_eq(q.user, p.user, "user survives the text form");
    sx_assert(q.rating == p.rating, "rating survives the text form");
    sx_assert(q.playCounter == p.playCounter, "counter survives the text form");
    sx_assert(q.scale == TagType::Id3v2Tag, "scale is the one given");
    TagValue t(s, TagTextEncoding::Utf8);
    sx_assert(t.toScaledPopularity(TagType::VorbisComment).rating == p.rating, "ratings given as text are not scaled");
    TagValue w(p);
    sx_assert_eq(w.toString(), s, "text form through a value");
    sx_reach("end");
}
