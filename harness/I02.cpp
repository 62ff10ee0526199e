// ID3v2 frames: what is made reads back and every frame is read without leaving it.
#include "../engine/sx.h"
#include "io.h"
#include "txt.h"
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3genres.h>
#include <tagparser/id3/id3v2frame.h>
#include <tagparser/id3/id3v2frameids.h>
#include <c++utilities/conversion/conversionexception.h>
#include <c++utilities/conversion/stringconversion.h>
#include <c++utilities/io/binaryreader.h>
#include <c++utilities/io/binarywriter.h>
#include <zlib.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: frames of ID3v2.2, 2.3 and 2.4; texts of up to two (thorough: three) code units in all four encodings, one or two values per text frame; track/disk positions up to 127 (thorough: 999) combined with eight larger ones, 17 lengths, all genres; pictures and unknown frames of up to three arbitrary bytes; ratings 0..255 and all 64-bit counters; bodies of up to seven (thorough: ten) arbitrary bytes for every kind of frame; all combinations of frame flags (grouping, compression, encryption, unsynchronisation, data length) in ID3v2.3 and 2.4 with up to five arbitrary bytes, read and written for either version
//! assume: the compression is replaced by a model which merely stores the data (zlib is not part of the repository)
//! outside: null characters and byte order marks within texts; the MIME type of ID3v2.2 pictures other than JPG/PNG/GIF

// (the models provide a valid but trivial compression for the solver; the counterexamples are replayed using zlib)
static std::string squeezed(const std::string &s)
{
    std::string r(compressBound(s.size()), '\0');
    uLongf n = r.size();
    sx_assert(compress(reinterpret_cast<Bytef *>(&r[0]), &n, reinterpret_cast<const Bytef *>(s.data()), s.size()) == Z_OK, "compressed");
    r.resize(n);
    return r;
}

static std::string made(Id3v2Frame &frame, std::uint8_t version, Diagnostics &diag)
{
    auto maker = frame.prepareMaking(version, diag);
    Mem m;
    BinaryWriter w(&m);
    maker.make(w);
    const auto s = m.str();
    sx_assert(s.size() == maker.requiredSize(), "as many bytes as announced are written");
    return s;
}
static std::uint64_t syncsafe(const std::string &s, size_t o)
{
    std::uint64_t v = 0;
    for (unsigned i = 0; i < 4; ++i) v = (v << 7) | static_cast<unsigned char>(s.at(o + i));
    return v;
}
// checks the header, returns the body
static std::string body(const std::string &s, std::uint8_t version, std::uint32_t id, std::uint16_t flags = 0)
{
    const unsigned h = version < 3 ? 6 : 10;
    sx_assert(s.size() > h, "there is a body");
    if (version < 3) {
        sx_assert(rdbe(s, 0, 3) == id, "frame ID");
        sx_assert(rdbe(s, 3, 3) == s.size() - h, "frame size");
    } else {
        sx_assert(rdbe(s, 0, 4) == id, "frame ID");
        if (version >= 4) {
            for (unsigned i = 4; i < 8; ++i) sx_assert(!(s[i] & 0x80), "sync-safe size");
            sx_assert(syncsafe(s, 4) == s.size() - h, "frame size");
        } else
            sx_assert(rdbe(s, 4, 4) == s.size() - h, "frame size");
        sx_assert(rdbe(s, 8, 2) == flags, "flags");
    }
    return s.substr(h);
}
static void parsed(Id3v2Frame &back, const std::string &s, std::uint8_t version, Diagnostics &diag)
{
    Mem m(s + "following frames");
    BinaryReader r(&m);
    back.parse(r, version, static_cast<std::uint32_t>(s.size() + 4), diag);
    sx_assert(back.totalSize() == s.size(), "total size");
    sx_assert(!back.hasPaddingReached(), "no padding");
}

//@ quick=60 thorough=400 threads=4 reach=one,two
SX_HARNESS(text_frames)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    const auto e1 = TXT_ENC[sx_choice(4, "enc1")];
    const Txt a = symText(e1, 1 + sx_choice(SX_THOROUGH ? 3 : 2, "n1"), "text1");
    const std::uint32_t id = version < 3 ? Id3v2FrameIds::sTitle : Id3v2FrameIds::lTitle;
    Id3v2Frame f(sx_flag("otherid") ? (version < 3 ? Id3v2FrameIds::lTitle : Id3v2FrameIds::sTitle) : id, a.value());
    const std::uint16_t flags = version < 3 ? 0 : sx_range<std::uint16_t>(0, 7, "flags") << 13;
    f.setFlag(flags);
    Txt b;
    const bool two = sx_flag("two");
    if (two) {
        const auto e2 = TXT_ENC[sx_choice(4, "enc2")];
        b = symText(e2, 1, "text2");
        f.additionalValues().emplace_back(b.value());
    }
    Diagnostics diag;
    // text in Latin-1 can't hold the characters of the others, so the encoding needs to be one of the more powerful ones
    const auto s = made(f, version, diag);
    const std::uint16_t written = version >= 4 ? flags >> 1 : flags; // the bits moved
    const auto content = body(s, version, id, written);
    if (version < 4) sx_assert(content[0] == 0 || content[0] == 1, "encodings of ID3v2.4 are not used before");
    if (two && version < 4) sx_assert(hasWarning(diag), "several values before ID3v2.4 are reported");
    Id3v2Frame back;
    Diagnostics diag2;
    parsed(back, s, version, diag2);
    sx_assert(back.id() == id, "ID");
    sx_assert(back.flag() == written, "flags are kept");
    sx_assert(back.toDiscardWhenUnknownAndTagIsAltered() == bool(flags & 0x8000) && back.toDiscardWhenUnknownAndFileIsAltered() == bool(flags & 0x4000) && back.isReadOnly() == bool(flags & 0x2000), "meaning of flags is kept");
    sameText(back.value(), a.cps, "text is read back");
    sx_assert(back.additionalValues().size() == (two ? 1u : 0u), "number of values");
    if (two) sameText(back.additionalValues().front(), b.cps, "additional text is read back");
    sx_reach(two ? "two" : "one");
}

//@ quick=60 thorough=400 threads=3 reach=position,length,genre,url,genretext,genreother
SX_HARNESS(special_text_frames)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    Diagnostics diag, diag2;
    Id3v2Frame back;
    switch (sx_choice(5, "kind")) {
    case 0: {
        static const std::int32_t LARGE[] = { 0, 7, 10, 255, 256, 1000, 65536, 2147483647 };
        std::int32_t pos = sx_range<std::int32_t>(0, SX_THOROUGH ? 999 : 127, "pos");
        std::int32_t total = LARGE[sx_choice(8, "total")];
        if (sx_flag("swap")) std::swap(pos, total);
        sx_assume((pos != 0) | (total != 0));
        const bool disk = sx_flag("disk");
        const std::uint32_t id = disk ? (version < 3 ? Id3v2FrameIds::sDiskPosition : Id3v2FrameIds::lDiskPosition)
                                      : (version < 3 ? Id3v2FrameIds::sTrackPosition : Id3v2FrameIds::lTrackPosition);
        Id3v2Frame f(id, TagValue(PositionInSet(pos, total)));
        const auto s = made(f, version, diag);
        body(s, version, id);
        parsed(back, s, version, diag2);
        sx_assert(back.value().type() == TagDataType::PositionInSet, "a position is read");
        const auto p = back.value().toPositionInSet();
        sx_assert(p.position() == pos, "position");
        sx_assert(p.total() == total, "total");
        sx_reach("position");
        break;
    }
    case 1: {
        // (conversions between durations and floating point numbers are not within reach of the solver, so a set of durations is used)
        static const std::int64_t MS[] = { 0, 1, 9, 10, 99, 100, 101, 255, 999, 1000, 1001, 65535, 123456, 3600000, 99999999, 2147483648, 12345678901 };
        const std::int64_t ms = MS[sx_choice(17, "ms")];
        const std::uint32_t id = version < 3 ? Id3v2FrameIds::sLength : Id3v2FrameIds::lLength;
        TagValue v;
        v.assignTimeSpan(TimeSpan(ms * TimeSpan::ticksPerMillisecond));
        Id3v2Frame f(id, v);
        const auto s = made(f, version, diag);
        const auto c = body(s, version, id);
        sx_assert_eq(c.substr(1, c.size() - 2), numberToString(ms), "milliseconds as text");
        parsed(back, s, version, diag2);
        sx_assert(back.value().type() == TagDataType::TimeSpan, "a duration is read");
        sx_assert(back.value().toTimeSpan().totalTicks() == ms * TimeSpan::ticksPerMillisecond, "duration is read back");
        sx_reach("length");
        break;
    }
    case 2: {
        const auto g = sx_range<int>(0, 192, "genre");
        const int genre = g == 192 ? Id3Genres::emptyGenreIndex() : g;
        sx_assume(genre < Id3Genres::genreCount() || Id3Genres::isEmptyGenre(genre));
        TagValue v;
        v.assignStandardGenreIndex(genre);
        const std::uint32_t id = version < 3 ? Id3v2FrameIds::sGenre : Id3v2FrameIds::lGenre;
        Id3v2Frame f(id, v);
        const auto s = made(f, version, diag);
        body(s, version, id);
        parsed(back, s, version, diag2);
        sx_assert(back.value().type() == TagDataType::StandardGenreIndex, "a genre is read");
        sx_assert(back.value().toStandardGenreIndex() == genre, "genre");
        sx_reach("genre");
        break;
    }
    case 3: {
        const auto t = symText(sx_flag("utf8") ? TagTextEncoding::Utf8 : TagTextEncoding::Latin1, 1 + sx_choice(3, "n"), "url");
        std::string latin1;
        const bool rep = ref::encode(t.cps, TagTextEncoding::Latin1, latin1);
        sx_assume(rep);
        if (latin1.size() >= 3) sx_assume_(!((latin1[0] == char(0xEF)) & (latin1[1] == char(0xBB)) & (latin1[2] == char(0xBF))));
        const std::uint32_t id = version < 3 ? Id3v2FrameIds::sPublisherWebpage : Id3v2FrameIds::lPublisherWebpage;
        Id3v2Frame f(id, t.value());
        const auto s = made(f, version, diag);
        sx_assert_eq(body(s, version, id), latin1 + '\0', "URLs have no encoding byte");
        parsed(back, s, version, diag2);
        sameText(back.value(), t.cps, "URL is read back");
        sx_reach("url");
        break;
    }
    case 4: {
        // genre as text: either kept or understood as the index it denotes
        const auto t = symText(TagTextEncoding::Latin1, 1 + sx_choice(SX_THOROUGH ? 5 : 4, "n"), "genretext");
        const std::uint32_t id = version < 3 ? Id3v2FrameIds::sGenre : Id3v2FrameIds::lGenre;
        Id3v2Frame f(id, t.value());
        const auto s = made(f, version, diag);
        parsed(back, s, version, diag2);
        size_t i = 0;
        while (i < t.s.size() && t.s[i] == ' ') ++i;
        const bool paren = i < t.s.size() && t.s[i] == '(';
        if (paren) ++i;
        int index = 0;
        size_t digits = 0;
        while (i < t.s.size() && t.s[i] >= '0' && t.s[i] <= '9') index = index * 10 + (t.s[i++] - '0'), ++digits;
        const bool denotes = digits && (i == t.s.size() || t.s[i] == ')') && (index < Id3Genres::genreCount() || index == Id3Genres::emptyGenreIndex());
        if (denotes) {
            sx_assert(back.value().type() == TagDataType::StandardGenreIndex && back.value().toStandardGenreIndex() == index, "genre denoted by text");
            sx_reach("genretext");
        } else {
            sameText(back.value(), t.cps, "genre text is kept");
            sx_reach("genreother");
        }
        break;
    }
    }
}

static Locale lang(unsigned i)
{
    switch (i) {
    case 0: return Locale();
    case 1: return Locale(std::string_view("eng"), LocaleFormat::ISO_639_2_B);
    default: return Locale(std::string_view("ger"), LocaleFormat::ISO_639_2_B);
    }
}

//@ quick=60 thorough=600 threads=4 reach=done
SX_HARNESS(comments)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    const auto e = TXT_ENC[sx_choice(4, "enc")];
    const Txt t = symText(e, 1 + sx_choice(2, "n"), "text"), d = symText(e, sx_choice(3, "nd"), "description");
    const unsigned l = sx_choice(3, "language");
    const bool lyrics = sx_flag("lyrics");
    const std::uint32_t id = lyrics ? (version < 3 ? Id3v2FrameIds::sUnsynchronizedLyrics : Id3v2FrameIds::lUnsynchronizedLyrics)
                                    : (version < 3 ? Id3v2FrameIds::sComment : Id3v2FrameIds::lComment);
    TagValue v = t.value();
    v.setDescription(d.s, e);
    v.setLocale(lang(l));
    Id3v2Frame f(id, v);
    Diagnostics diag, diag2;
    const auto s = made(f, version, diag);
    const auto c = body(s, version, id);
    sx_assert_eq(c.substr(1, 3), l == 0 ? std::string(3, '\0') : std::string(l == 1 ? "eng" : "ger"), "language");
    if (version < 4) sx_assert(c[0] == 0 || c[0] == 1, "encodings of ID3v2.4 are not used before");
    Id3v2Frame back;
    parsed(back, s, version, diag2);
    sameText(back.value(), t.cps, "comment is read back");
    sameChars(back.value().description(), back.value().descriptionEncoding(), d.cps, "description is read back");
    sx_assert(back.value().locale() == v.locale(), "language is read back");
    sx_reach("done");
}

//@ quick=60 thorough=600 threads=4 reach=new,legacy
SX_HARNESS(pictures)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    const auto e = TXT_ENC[sx_choice(4, "enc")];
    const Txt d = symText(e, sx_choice(3, "nd"), "description");
    const std::string data = sx_string(1 + sx_choice(3, "n"), "data");
    std::string mime;
    if (version >= 3) {
        mime = sx_string(sx_choice(4, "nm"), "mime");
        for (char c : mime) sx_assume_(c != 0);
        if (mime.size() >= 3) sx_assume_(mime[0] != char(0xEF));
    } else {
        static const char *const M[] = { "image/jpeg", "image/png", "image/gif", "image/tiff", "" };
        mime = M[sx_choice(5, "format")];
    }
    const auto type = sx_range<std::uint8_t>(0, 255, "type");
    const std::uint32_t id = version < 3 ? Id3v2FrameIds::sCover : Id3v2FrameIds::lCover;
    TagValue v(data.data(), data.size(), TagDataType::Picture);
    v.setDescription(d.s, e);
    v.setMimeType(mime);
    Id3v2Frame f(id, v);
    f.setTypeInfo(type);
    Diagnostics diag, diag2;
    const auto s = made(f, version, diag);
    const auto c = body(s, version, id);
    if (version < 4) sx_assert(c[0] == 0 || c[0] == 1, "encodings of ID3v2.4 are not used before");
    if (version < 3) {
        const std::string want = mime == "image/jpeg" ? "JPG" : mime == "image/png" ? "PNG" : mime == "image/gif" ? "GIF" : "UND";
        sx_assert_eq(c.substr(1, 3), want, "image format");
    }
    Id3v2Frame back;
    parsed(back, s, version, diag2);
    sx_assert(back.value().type() == TagDataType::Picture, "a picture is read");
    sx_assert_eq(back.value().data(), data, "picture data is read back");
    sx_assert(back.isTypeInfoAssigned() && back.typeInfo() == type, "picture type is read back");
    sameChars(back.value().description(), back.value().descriptionEncoding(), d.cps, "description is read back");
    if (version >= 3) sx_assert_eq(back.value().mimeType(), mime, "MIME type is read back");
    sx_reach(version >= 3 ? "new" : "legacy");
}

//@ quick=60 thorough=400 threads=3 reach=rating,counter,unknown
SX_HARNESS(other_frames)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    Diagnostics diag, diag2;
    Id3v2Frame back;
    switch (sx_choice(3, "kind")) {
    case 0: {
        Popularity p;
        p.scale = TagType::Id3v2Tag;
        p.user = sx_string(sx_choice(3, "nu"), "user");
        for (char c : p.user) sx_assume_((c != 0) & (c != '|'));
        const auto r = sx_val<std::uint8_t>("rating");
        p.rating = r;
        p.playCounter = sx_val<std::uint64_t>("counter");
        sx_assume((r != 0) | (p.playCounter != 0) | !p.user.empty());
        TagValue v(p);
        const std::uint32_t id = version < 3 ? Id3v2FrameIds::sRating : Id3v2FrameIds::lRating;
        Id3v2Frame f(id, v);
        const auto s = made(f, version, diag);
        const auto c = body(s, version, id);
        sx_assert_eq(c.substr(0, p.user.size() + 2), p.user + '\0' + static_cast<char>(r), "user and rating");
        const auto n = c.size() - p.user.size() - 2;
        sx_assert(n >= 4 && n <= 8, "size of counter");
        sx_assert(rdbe(c, p.user.size() + 2, static_cast<unsigned>(n)) == p.playCounter, "counter is stored in big endian order");
        parsed(back, s, version, diag2);
        sx_assert(back.value().type() == TagDataType::Popularity, "a popularity is read");
        const auto q = back.value().toPopularity();
        sx_assert_eq(q.user, p.user, "user is read back");
        sx_assert(q.rating == p.rating, "rating is read back");
        sx_assert(q.playCounter == p.playCounter, "counter is read back");
        sx_assert(q.scale == TagType::Id3v2Tag, "scale");
        sx_reach("rating");
        break;
    }
    case 1: {
        const auto n = sx_val<std::uint64_t>("counter");
        TagValue v;
        v.assignUnsignedInteger(n);
        const std::uint32_t id = version < 3 ? Id3v2FrameIds::sPlayCounter : Id3v2FrameIds::lPlayCounter;
        Id3v2Frame f(id, v);
        const auto s = made(f, version, diag);
        const auto c = body(s, version, id);
        sx_assert(c.size() >= 4 && c.size() <= 8, "size of counter");
        sx_assert(rdbe(c, 0, static_cast<unsigned>(c.size())) == n, "counter is stored in big endian order");
        parsed(back, s, version, diag2);
        sx_assert(back.value().toUnsignedInteger() == n, "counter is read back");
        sx_reach("counter");
        break;
    }
    case 2: {
        const std::string data = sx_string(1 + sx_choice(4, "n"), "data");
        const std::uint32_t id = version < 3 ? 0x47454f : 0x47454f42; // GEO(B)
        Id3v2Frame f(id, TagValue(data.data(), data.size(), TagDataType::Undefined));
        const auto s = made(f, version, diag);
        sx_assert_eq(body(s, version, id), data, "data as it is");
        parsed(back, s, version, diag2);
        sx_assert_eq(back.value().data(), data, "data is read back");
        sx_reach("unknown");
        break;
    }
    }
}

// frames as other software might write them
//@ quick=60 thorough=600 threads=4 reach=values,none,wide
SX_HARNESS(foreign_text_frames)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    const bool url = sx_flag("url");
    const unsigned n = 1 + sx_choice(SX_THOROUGH ? 8 : 6, "n");
    std::string c = sx_string(n, "content");
    if (!url) sx_assume_((static_cast<unsigned char>(c[0]) < 4));
    const unsigned enc = url ? 0 : static_cast<unsigned>(sx_concretize(static_cast<unsigned char>(c[0])));
    const std::uint32_t id = version < 3 ? (url ? 0x574346 : Id3v2FrameIds::sAlbum) : (url ? 0x574f4146 : Id3v2FrameIds::lAlbum);
    const std::string s = version < 3 ? be(id, 3) + be(n, 3) + c : be(id, 4) + be(n, 4) + std::string(2, '\0') + c;
    // reference: strings separated by nulls, each possibly starting with a byte order mark
    std::vector<std::string> want;
    bool wide = enc == 1 || enc == 2, big = enc == 2;
    size_t p = url ? 0 : 1;
    while (p < n) {
        if (!wide && n - p >= 3 && c[p] == char(0xEF) && c[p + 1] == char(0xBB) && c[p + 2] == char(0xBF)) p += 3;
        if (wide && n - p >= 2) {
            if (c[p] == char(0xFF) && c[p + 1] == char(0xFE)) big = false, p += 2;
            else if (c[p] == char(0xFE) && c[p + 1] == char(0xFF)) big = true, p += 2;
        }
        std::string v;
        if (wide) {
            while (p + 1 < n && (c[p] || c[p + 1])) v += c[p], v += c[p + 1], p += 2;
            p += 2;
        } else {
            while (p < n && c[p]) v += c[p++];
            ++p;
        }
        if (!wide && v.size() >= 3) sx_assume(!(v[0] == char(0xEF) && v[1] == char(0xBB) && v[2] == char(0xBF)));
        if (wide && v.size() >= 2) sx_assume(!(v[0] == char(0xFE) && v[1] == char(0xFF)) && !(v[0] == char(0xFF) && v[1] == char(0xFE)));
        if (!v.empty()) want.push_back(v);
    }
    Id3v2Frame f;
    Diagnostics diag;
    Mem m(s + std::string("following"));
    BinaryReader r(&m);
    f.parse(r, version, static_cast<std::uint32_t>(s.size()), diag);
    std::vector<std::string> got;
    if (!f.value().isEmpty()) got.emplace_back(f.value().data());
    for (const auto &v : f.additionalValues()) got.emplace_back(v.data());
    sx_assert(got.size() == want.size(), "number of strings");
    for (size_t i = 0; i < want.size() && i < got.size(); ++i) sx_assert_eq(got[i], want[i], "string");
    if (!want.empty() && wide) sx_assert(txtWide(f.value().dataEncoding()), "encoding");
    sx_assert(f.totalSize() == s.size() && f.dataSize() == n, "sizes");
    sx_reach(want.empty() ? "none" : wide ? "wide" : "values");
}

// arbitrary bodies of all kinds of frames
//@ quick=60 thorough=900 threads=4 reach=parsed,refused
SX_HARNESS(damaged_frames)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    static const std::uint32_t S[] = { Id3v2FrameIds::sCover, Id3v2FrameIds::sComment, Id3v2FrameIds::sRating, Id3v2FrameIds::sPlayCounter, Id3v2FrameIds::sGenre, Id3v2FrameIds::sTrackPosition };
    static const std::uint32_t L[] = { Id3v2FrameIds::lCover, Id3v2FrameIds::lUnsynchronizedLyrics, Id3v2FrameIds::lRating, Id3v2FrameIds::lPlayCounter, Id3v2FrameIds::lGenre, Id3v2FrameIds::lTrackPosition };
    const unsigned k = sx_choice(6, "kind");
    const unsigned n = 1 + sx_choice(SX_THOROUGH ? 10 : k < 2 ? 8 : k < 4 ? 10 : 4, "n");
    const std::string c = sx_string(n, "content");
    const std::string s = version < 3 ? be(S[k], 3) + be(n, 3) + c : be(L[k], 4) + be(n, 4) + std::string(2, '\0') + c;
    Id3v2Frame f;
    Diagnostics diag;
    Mem m(s);
    BinaryReader r(&m);
    bool ok = true;
    try {
        f.parse(r, version, static_cast<std::uint32_t>(s.size()), diag);
    } catch (const Failure &) {
        ok = false;
    }
    sx_assert(f.totalSize() == s.size(), "the following frame can be found");
    if (!ok) sx_assert(diag.level() >= DiagLevel::Critical, "refused frames are reported");
    else if (k < 2) sx_assert(f.value().dataSize() <= n, "no more data than stored");
    else if (k == 2) {
        size_t z = 0;
        if (n >= 3 && c[0] == char(0xEF) && c[1] == char(0xBB) && c[2] == char(0xBF)) z = 3;
        const size_t b = z;
        while (z < n && c[z]) ++z;
        sx_assert(z + 1 < n, "incomplete popularimeters are refused");
        if (n - z - 2 > 8) sx_assert(diag.level() >= DiagLevel::Critical, "huge counter is reported");
        else {
            const auto p = f.value().toPopularity();
            sx_assert_eq(p.user, c.substr(b, z - b), "user");
            sx_assert(p.rating == static_cast<unsigned char>(c[z + 1]), "rating");
            sx_assert(p.playCounter == rdbe(c, z + 2, static_cast<unsigned>(n - z - 2)), "counter");
        }
    } else if (k == 3) {
        if (n > 8) sx_assert(diag.level() >= DiagLevel::Critical, "huge counter is reported");
        else sx_assert(f.value().toUnsignedInteger() == rdbe(c, 0, n), "counter");
    }
    sx_reach(ok ? "parsed" : "refused");
}

// arbitrary frame headers
//@ quick=60 thorough=400 threads=3 reach=padding,truncated,parsed,empty
SX_HARNESS(headers)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    std::string h = sx_string(version < 3 ? 6 : 10, "header");
    const auto avail = sx_range<std::uint32_t>(0, 40, "available");
    if (version >= 3) sx_assume_(h[9] == 0);
    // an unknown frame or padding
    sx_assume_((h[0] == 'G') | (h[0] == 0));
    if (version < 3) sx_assume_((h[1] == 'E') | (h[0] == 0));
    if (version >= 3) for (int i = 4; i < 8 && version > 3; ++i) sx_assume_(!(h[i] & 0x80));
    const std::uint64_t size = version < 3 ? rdbe(h, 3, 3) : version == 3 ? rdbe(h, 4, 4) : syncsafe(h, 4);
    const bool fits = size + h.size() <= avail;
    Id3v2Frame f;
    Diagnostics diag;
    Mem m(h + std::string(40, 'x'));
    BinaryReader r(&m);
    try {
        f.parse(r, version, avail, diag);
        sx_assert(h[0] != 0 && fits && size, "only complete frames are accepted");
        sx_assert(f.totalSize() == h.size() + size && f.dataSize() == size, "sizes");
        sx_reach("parsed");
    } catch (const NoDataFoundException &) {
        sx_assert(h[0] == 0 && f.hasPaddingReached(), "padding is recognised");
        sx_reach("padding");
    } catch (const TruncatedDataException &) {
        sx_assert(h[0] != 0 && !fits, "truncated frame is recognised");
        sx_assert(f.totalSize() >= avail, "nothing follows");
        sx_reach("truncated");
    } catch (const InvalidDataException &) {
        sx_assert(size == 0, "empty frame is recognised");
        sx_assert(f.totalSize() == h.size(), "sizes");
        sx_reach("empty");
    }
}

// frames with additional header fields and transformed contents
//@ quick=60 thorough=300 threads=4 reach=plain,encrypted,grouped,compressed,unsync,badlength
SX_HARNESS(frame_formats)
{
    const bool v4 = sx_flag("v4");
    const std::uint8_t version = v4 ? 4 : 3;
    const bool text = sx_flag("text");
    const bool discardTag = sx_flag("discardTag"), grouped = sx_flag("grouped"), compressed = sx_flag("compressed"), encrypted = !text && sx_flag("encrypted");
    const bool unsync = v4 && sx_flag("unsync"), length = v4 ? sx_flag("length") : compressed;
    const unsigned n = text ? 3 : 1 + sx_choice(SX_THOROUGH ? 5 : 2, "n");
    std::string c = sx_string(n, "content");
    if (text) {
        c[0] = 0; // Latin-1
        for (unsigned i = 1; i < n; ++i) sx_assume_(c[i] != 0);
    }
    const auto group = sx_val<std::uint8_t>("group");
    const std::uint32_t id = text ? Id3v2FrameIds::lAlbum : 0x47454f42;
    std::string data = compressed ? squeezed(c) : c;
    if (unsync) {
        std::string u;
        for (size_t i = 0; i < data.size(); ++i) {
            u += data[i];
            if (data[i] == char(0xFF) && (i + 1 == data.size() || !data[i + 1] || (data[i + 1] & 0xE0) == 0xE0)) u += '\0';
        }
        data = u;
    }
    const auto denoted = static_cast<std::uint32_t>(compressed && sx_flag("lie") ? sx_concretize(sx_range<std::uint8_t>(0, SX_THOROUGH ? 10 : 4, "denoted")) : n);
    unsigned flags;
    std::string extra;
    if (v4) {
        flags = (discardTag ? 0x4000 : 0) | (grouped ? 0x40 : 0) | (compressed ? 8 : 0) | (encrypted ? 4 : 0) | (unsync ? 2 : 0) | (length ? 1 : 0);
        if (grouped) extra += static_cast<char>(group);
        if (encrypted) extra += '\x01';
        if (length) extra += be(denoted, 4);
    } else {
        flags = (discardTag ? 0x8000 : 0) | (compressed ? 0x80 : 0) | (encrypted ? 0x40 : 0) | (grouped ? 0x20 : 0);
        if (length) extra += be(denoted, 4);
        if (encrypted) extra += '\x01';
        if (grouped) extra += static_cast<char>(group);
    }
    const std::string s = be(id, 4) + be(extra.size() + data.size(), 4) + be(flags, 2) + extra + data;
    Id3v2Frame f;
    Diagnostics diag;
    Mem m(s + "following");
    BinaryReader r(&m);
    bool ok = true;
    try {
        f.parse(r, version, static_cast<std::uint32_t>(s.size() + 9), diag);
    } catch (const Failure &) {
        ok = false;
        sx_assert(diag.level() >= DiagLevel::Warning, "refused frames are reported");
    }
    sx_assert(f.totalSize() == s.size(), "the following frame can be found");
    if (encrypted || (compressed && !length)) {
        sx_assert(!ok, "what can't be read is refused");
        sx_reach("encrypted");
        return;
    }
    if (denoted < n) {
        sx_assert(!ok, "wrong size of compressed data is noticed");
        sx_reach("badlength");
        return;
    }
    sx_assert(ok, "frame is read");
    if (!ok) return;
    sx_assert_eq(f.value().data(), text ? c.substr(1) : c, "content");
    sx_assert(f.dataSize() == n, "size of content");
    sx_assert(f.toDiscardWhenUnknownAndTagIsAltered() == discardTag && !f.toDiscardWhenUnknownAndFileIsAltered() && !f.isReadOnly(), "flags");
    sx_assert(f.hasGroupInformation() == grouped && f.isCompressed() == compressed && f.isUnsynchronized() == unsync && f.hasDataLengthIndicator() == length, "format flags");
    if (grouped) sx_assert(f.group() == group, "group");
    // written for either version
    const std::uint8_t other = sx_flag("other") ? (v4 ? 3 : 4) : version;
    Diagnostics diag2, diag3;
    const auto w = made(f, other, diag2);
    const unsigned want = other >= 4 ? (discardTag ? 0x4000u : 0u) | (grouped ? 0x40u : 0u) | (compressed ? 9u : 0u)
                                     : (discardTag ? 0x8000u : 0u) | (grouped ? 0x20u : 0u) | (compressed ? 0x80u : 0u);
    const auto b = body(w, other, id, static_cast<std::uint16_t>(want));
    const std::string plain = text ? c + '\0' : c; // (strings are terminated)
    std::string wantExtra = compressed ? be(plain.size(), 4) : std::string();
    if (grouped) wantExtra.insert(other >= 4 ? 0 : wantExtra.size(), 1, static_cast<char>(group));
    sx_assert_eq(b, wantExtra + (compressed ? squeezed(plain) : plain), "bytes written");
    Id3v2Frame back;
    parsed(back, w, other, diag3);
    sx_assert_eq(back.value().data(), text ? c.substr(1) : c, "content is read back");
    sx_assert(back.hasGroupInformation() == grouped && back.group() == (grouped ? group : 0) && back.isCompressed() == compressed, "format is read back");
    sx_assert(back.toDiscardWhenUnknownAndTagIsAltered() == discardTag, "flags are read back");
    sx_reach(unsync ? "unsync" : compressed ? "compressed" : grouped ? "grouped" : "plain");
}

// genre indexes and text in one frame
//@ quick=60 thorough=200 threads=3 reach=done
SX_HARNESS(mixed_genres)
{
    const std::uint8_t version = sx_flag("v4") ? 4 : 3;
    const auto e = TXT_ENC[sx_choice(4, "enc")];
    Txt t = symText(e, 1 + sx_choice(2, "n"), "text");
    for (auto cp : t.cps) sx_assume_((cp > 'A') & (cp != '(') & (cp != 0x660));
    static const int GENRES[] = { 0, 9, 10, 99, 100, 191 };
    const int genre = GENRES[sx_choice(6, "genre")];
    TagValue g;
    g.assignStandardGenreIndex(genre);
    const bool first = sx_flag("indexFirst");
    Id3v2Frame f(Id3v2FrameIds::lGenre, first ? g : t.value());
    f.additionalValues().emplace_back(first ? t.value() : g);
    Diagnostics diag, diag2;
    const auto s = made(f, version, diag);
    body(s, version, Id3v2FrameIds::lGenre);
    Id3v2Frame back;
    parsed(back, s, version, diag2);
    sx_assert(back.additionalValues().size() == 1, "both values are read back");
    if (back.additionalValues().size() != 1) return;
    const auto &bi = first ? back.value() : back.additionalValues().front();
    const auto &bt = first ? back.additionalValues().front() : back.value();
    sx_assert(bi.type() == TagDataType::StandardGenreIndex && bi.toStandardGenreIndex() == genre, "index is read back");
    sameText(bt, t.cps, "text is read back");
    sx_reach("done");
}
