// ID3v2 tags: what is made reads back, sizes and padding are right, damaged tags are read without leaving them.
#include "../engine/sx.h"
#include "io.h"
#include "txt.h"
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/id3/id3v2frameids.h>
#include <c++utilities/conversion/conversionexception.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: tags of ID3v2.2, 2.3 and 2.4 with a title, two comments, a track number, a cover and an unknown frame (each present or not), arbitrary padding up to 40 and some larger paddings and frame sizes around the boundaries of sync-safe numbers; dates made of arbitrary digits; every tag header and extended header; unsynchronised tags of two frames with four (thorough: up to seven) arbitrary bytes and an extended header; damaged tags of up to 16 (thorough: 22) bytes behind the header
//! outside: CRC of the extended header; contents of frames (I02)

static std::uint64_t syncsafe(const std::string &s, size_t o)
{
    std::uint64_t v = 0;
    for (unsigned i = 0; i < 4; ++i) {
        sx_assert(!(s.at(o + i) & 0x80), "sync-safe");
        v = (v << 7) | static_cast<unsigned char>(s.at(o + i));
    }
    return v;
}
static std::string made(Id3v2Tag &tag, std::uint32_t padding, Diagnostics &diag)
{
    auto maker = tag.prepareMaking(diag);
    Mem m;
    maker.make(m, padding, diag);
    auto s = m.str();
    sx_assert(s.size() == maker.requiredSize() + padding, "as many bytes as announced are written");
    sx_assert_eq(s.substr(0, 3), "ID3", "signature");
    sx_assert(s[3] == char(tag.majorVersion()) && s[4] == char(tag.revisionVersion()), "version");
    sx_assert(syncsafe(s, 6) == s.size() - 10, "size in the header");
    for (size_t i = s.size() - padding; i < s.size(); ++i) sx_assert(s[i] == 0, "padding is zero");
    return s;
}

//@ quick=60 thorough=400 threads=4 reach=done
SX_HARNESS(make_then_parse)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    const auto padding = static_cast<std::uint32_t>(sx_concretize(sx_range<std::uint8_t>(0, SX_THOROUGH ? 40 : 12, "padding")));
    const unsigned present = 1 + sx_choice(31, "present");
    const Txt title = symText(TagTextEncoding::Latin1, 1, "title");
    const std::string data = sx_string(2, "data");
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    if (present & 1) tag.setValue(KnownField::Title, title.value());
    if (present & 2) {
        std::vector<TagValue> v{ TagValue("first", 5, TagTextEncoding::Latin1), TagValue("second", 6, TagTextEncoding::Latin1) };
        tag.setValues(KnownField::Comment, v);
    }
    if (present & 4) tag.setValue(KnownField::TrackPosition, TagValue(PositionInSet(3, 12)));
    if (present & 8) {
        TagValue v(data.data(), 2, TagDataType::Picture);
        v.setMimeType("image/png");
        tag.setValue(KnownField::Cover, v);
    }
    if (present & 16) {
        const std::uint32_t id = version < 3 ? 0x47454f : 0x47454f42;
        tag.fields().emplace(id, Id3v2Frame(id, TagValue(data.data(), 2, TagDataType::Undefined)));
    }
    // fields set to nothing are left out
    tag.setValue(KnownField::Artist, TagValue());
    Diagnostics diag, diag2;
    const auto s = made(tag, padding, diag);
    sx_assert(!hasWarning(diag), "no complaints");
    sx_assert(s[5] == 0, "flags");
    Id3v2Tag back;
    const bool limit = sx_flag("limit");
    Mem m(s + "following data");
    back.parse(m, limit ? s.size() : 0, diag2);
    sx_assert(back.majorVersion() == version && back.revisionVersion() == 0, "version is read back");
    sx_assert(back.size() == s.size(), "size is read back");
    sx_assert(back.paddingSize() == padding, "padding is recognised");
    sx_assert(!hasWarning(diag2), "no complaints when reading");
    size_t n = 0;
    if (present & 1) ++n, sameText(back.value(KnownField::Title), title.cps, "title");
    if (present & 2) {
        n += 2;
        const auto v = back.values(KnownField::Comment);
        sx_assert(v.size() == 2 && v[0]->data() == "first" && v[1]->data() == "second", "both comments in order");
    }
    if (present & 4) ++n, sx_assert(back.value(KnownField::TrackPosition).toPositionInSet() == PositionInSet(3, 12), "track");
    if (present & 8) ++n, sx_assert_eq(back.value(KnownField::Cover).data(), data, "cover");
    if (present & 16) {
        ++n;
        const auto i = back.fields().find(version < 3 ? 0x47454f : 0x47454f42);
        sx_assert(i != back.fields().end(), "unknown frame is kept");
        if (i != back.fields().end()) sx_assert_eq(i->second.value().data(), data, "unknown frame's data");
    }
    sx_assert(back.fields().size() == n, "nothing else is read");
    // writing again changes nothing
    Diagnostics diag3;
    const auto again = made(back, padding, diag3);
    sx_assert_eq(again, s, "writing what was read yields the same bytes");
    sx_reach("done");
}

//@ quick=60 thorough=200 threads=3 reach=done
SX_HARNESS(sizes)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    static const unsigned N[] = { 1, 107, 108, 117, 118, 127, 128, 129, 255, 256, 16363, 16373, 16374, 16383, 16384, 16385 };
    static const unsigned P[] = { 0, 1, 10, 127, 128, 129, 16256, 16384 };
    const unsigned n = N[sx_choice(16, "n")], padding = P[sx_choice(8, "padding")];
    const std::uint32_t id = version < 3 ? 0x47454f : 0x47454f42;
    std::string data(n, 'x');
    sx_sym(&data[n - 1], 1, "last");
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    tag.fields().emplace(id, Id3v2Frame(id, TagValue(data.data(), n, TagDataType::Undefined)));
    tag.setValue(KnownField::Album, TagValue("album", 5, TagTextEncoding::Latin1));
    Diagnostics diag, diag2;
    const auto s = made(tag, padding, diag);
    Id3v2Tag back;
    Mem m("before" + s);
    m.seekg(6);
    back.parse(m, s.size(), diag2);
    sx_assert(!hasWarning(diag2), "no complaints when reading");
    sx_assert(back.size() == s.size() && back.paddingSize() == padding, "sizes are read back");
    sx_assert(back.fields().size() == 2, "number of frames");
    const auto i = back.fields().find(id);
    sx_assert(i != back.fields().end() && i->second.value().dataSize() == n, "frame is read back");
    if (i != back.fields().end()) sx_assert(i->second.value().data()[n - 1] == data[n - 1], "up to its end");
    sx_assert_eq(back.value(KnownField::Album).data(), "album", "other frame");
    sx_reach("done");
}

// dates: TYER/TDAT/TIME of older tags and TDRC denote the same
//@ quick=60 thorough=300 threads=4 reach=valid,invalid
SX_HARNESS(record_dates)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(2, "version"));
    const bool withDate = sx_flag("date"), withTime = sx_flag("time");
    std::string year("2020"), date("0101"), time("0000");
    switch (sx_choice(3, "which")) {
    case 0: sx_sym(&year[2], 2, "year"); if (withDate) date = "2902"; break;
    case 1: {
        sx_assume(withDate && !withTime);
        static const char *const PAIRS[] = { "??01", "??02", "??11", "??12", "01??", "31??", "30??" };
        date = PAIRS[sx_choice(SX_THOROUGH ? 7 : version < 3 ? 2 : 5, "pair")];
        sx_sym(&date[date[0] == '?' ? 0 : 2], 2, "date");
        break;
    }
    case 2: sx_assume(withTime && version == 3); sx_sym(&time[sx_flag("minute") ? 2 : 0], 2, "hourminute"); break;
    }
    for (const auto *p : { &year, &date, &time })
        for (char c : *p) sx_assume_((c >= '0') & (c <= '9'));
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    const auto put = [&](std::uint32_t id, const std::string &t) { tag.setValue(version < 3 ? Id3v2FrameIds::convertToShortId(id) : id, TagValue(t, TagTextEncoding::Latin1)); };
    put(Id3v2FrameIds::lYear, year);
    if (withDate) put(Id3v2FrameIds::lDate, date);
    if (withTime) put(Id3v2FrameIds::lTime, time);
    tag.setHandlingFlags(Id3v2HandlingFlags::None);
    Diagnostics diag, diag2, diag3, diag4;
    const auto s = made(tag, 0, diag);
    Id3v2Tag back;
    Mem m(s);
    back.parse(m, s.size(), diag2);
    const int y = (year[2] - '0') * 10 + (year[3] - '0') + 2000;
    const int d = withDate ? (date[0] - '0') * 10 + (date[1] - '0') : 1, mo = withDate ? (date[2] - '0') * 10 + (date[3] - '0') : 1;
    const int h = withTime ? (time[0] - '0') * 10 + (time[1] - '0') : 0, mi = withTime ? (time[2] - '0') * 10 + (time[3] - '0') : 0;
    static const int DAYS[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    const bool leap = y % 4 == 0; // 2000..2099
    const bool valid = mo >= 1 && mo <= 12 && d >= 1 && d <= DAYS[mo - 1] + (leap && mo == 2 ? 1 : 0) && h <= 23 && mi <= 59;
    const auto i = back.fields().find(Id3v2FrameIds::lRecordingTime);
    sx_assert(i != back.fields().end(), "the recording time is available");
    if (i == back.fields().end()) return;
    const auto expr = i->second.value().toDateTimeExpression();
    if (!valid) {
        sx_assert(hasWarning(diag2), "an invalid date is reported");
        sx_assert(expr.parts == DateTimeParts::Year && expr.value.year() == y, "the year is kept");
        sx_reach("invalid");
        return;
    }
    sx_assert(!hasWarning(diag2), "no complaints");
    auto parts = DateTimeParts::Year;
    if (withDate) parts |= DateTimeParts::Day | DateTimeParts::Month;
    if (withTime) parts |= DateTimeParts::Hour | DateTimeParts::Minute;
    sx_assert(expr.parts == parts, "parts");
    sx_assert(expr.value == DateTime::fromDateAndTime(y, mo, d, h, mi), "date and time");
    // and written again
    const auto again = made(back, 0, diag3);
    sx_assert_eq(again, s, "the same frames are written for the old version");
    Id3v2Tag back2;
    Mem m2(s);
    back2.parse(m2, s.size(), diag4);
    back2.setVersion(4, 0);
    const auto s4 = made(back2, 0, diag4);
    std::string want = year;
    if (withDate) want += '-' + date.substr(2) + '-' + date.substr(0, 2);
    if (withDate && withTime) want += 'T' + time.substr(0, 2) + ':' + time.substr(2);
    if (withDate || !withTime) {
        sx_assert_eq(s4.substr(10, 4), "TDRC", "recording time frame");
        std::string got = s4.substr(21);
        while (!got.empty() && got.back() == 0) got.pop_back();
        sx_assert_eq(got.substr(0, want.size()), want, "recording time");
    }
    sx_reach("valid");
}

// every header
//@ quick=60 thorough=300 threads=4 reach=parsed,refused,empty,footer,extended,limited
SX_HARNESS(headers)
{
    std::string h("ID3\0\0\0\0\0\0\0", 10);
    const bool sizes = sx_flag("sizes");
    if (sizes) {
        h[3] = static_cast<char>(2 + sx_choice(3, "version"));
        h[5] = static_cast<char>(sx_range<std::uint8_t>(0, 15, "otherflags") | (sx_flag("extended") ? 0x40 : 0) | (sx_flag("footer") ? 0x10 : 0));
        h[9] = static_cast<char>(sx_concretize(sx_range<std::uint8_t>(0, 40, "size")));
    } else {
        sx_sym(&h[0], 9, "header");
        h[9] = 20;
        sx_assume_(!(h[5] & 0x50));
    }
    const bool valid = h[0] == 'I' && h[1] == 'D' && h[2] == '3';
    const auto ver = static_cast<unsigned char>(h[3]);
    const bool ext = (h[5] & 0x40) && !(ver == 2), foot = (h[5] & 0x10) && ver >= 3;
    for (int i = 6; i < 10; ++i) sx_assume_(!(h[i] & 0x80));
    // the frame is an unknown one of 12 (14) bytes, followed by padding; the size says how much of it belongs to the tag
    const auto size = (static_cast<std::uint32_t>(h[6]) << 21) | (static_cast<std::uint32_t>(h[7]) << 14) | (static_cast<std::uint32_t>(h[8]) << 7) | static_cast<std::uint32_t>(h[9]);
    sx_assume(size <= 40);
    sx_assume(ver != 2 || !(h[5] & 0x40)); // means compression there
    const unsigned extSize = ext && ver >= 3 ? sx_flag("bigext") ? 10 : 6 : 0; // as stored
    const unsigned extTotal = extSize ? (ver == 3 ? extSize + 4 : extSize) : 0;
    std::string rest;
    if (extSize) {
        rest = be(extSize, 4);
        rest.resize(extTotal, '\1');
    }
    const std::string frame = ver == 2 ? std::string("GEO\0\0\6abcdef", 12) : std::string("GEOB\0\0\0\4\0\0abcd", 14);
    rest += frame;
    rest.resize(size, '\0');
    if (foot) rest += "3DI" + h.substr(3);
    static const unsigned CUT[] = { 0, 0, 1, 8 };
    const unsigned cut = CUT[sizes ? sx_choice(4, "cut") : 0];
    std::uint64_t maximal = 10 + rest.size();
    const bool unlimited = sx_flag("unlimited");
    if (unlimited) maximal = 0, sx_assume(cut == 0);
    else sx_assume(cut < maximal), maximal -= cut;
    Id3v2Tag tag;
    Diagnostics diag;
    Mem m(h + rest + "trailing");
    const bool supported = ver >= 2 && ver <= 4;
    bool ok = true;
    try {
        tag.parse(m, maximal, diag);
    } catch (const Failure &) {
        ok = false;
        sx_assert(hasWarning(diag), "refused tags are reported");
    }
    if (!valid || (maximal && maximal < 10)) {
        sx_assert(!ok, "no tag");
        sx_reach("refused");
        return;
    }
    if (!size) {
        sx_assert(ok && tag.fields().empty() && hasWarning(diag), "empty tag is reported");
        sx_reach("empty");
        return;
    }
    if (!supported) {
        sx_assert(!ok, "versions which are not known are refused");
        return;
    }
    sx_assert(tag.majorVersion() == ver && tag.revisionVersion() == static_cast<unsigned char>(h[4]), "version");
    if (extTotal && (extTotal > size || (maximal && maximal < 10 + extTotal))) {
        sx_assert(!ok, "truncated extended header");
        return;
    }
    const std::uint64_t avail = (maximal ? std::min<std::uint64_t>(size, maximal - 10) : size) - extTotal;
    const bool has = frame.size() <= avail;
    if (cut && !foot) sx_assert(diag.level() >= DiagLevel::Critical, "truncation is reported");
    if (foot && cut) {
        sx_assert(!ok, "missing footer is refused");
        sx_reach("limited");
    } else {
        sx_assert(ok, "the tag is read");
        sx_assert(tag.size() == 10 + size + (foot ? 10 : 0), "size");
        if (foot) {
            sx_assert(diag.level() < DiagLevel::Critical || !has, "footer is recognised");
            sx_reach("footer");
        }
        if (extTotal && has) sx_reach("extended");
    }
    sx_assert(tag.fields().size() == (has ? 1u : 0u), "only complete frames are read");
    if (has) sx_assert_eq(tag.fields().begin()->second.value().data(), frame.substr(ver == 2 ? 6 : 10), "frame's data");
    if (has && !cut) sx_assert(tag.paddingSize() == size - extTotal - frame.size() || size - extTotal == frame.size(), "padding");
    sx_reach("parsed");
}

//@ quick=60 thorough=900 threads=4 reach=frames,none
SX_HARNESS(damaged_tags)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    const unsigned n = SX_THOROUGH ? (version == 2 ? 16 : 28) : version == 2 ? 14 : 21;
    std::string b = sx_string(n, "frames");
    // an unknown frame of arbitrary size, then anything
    if (version == 2) sx_assume_((b[0] == 'G') & (b[1] == 'E') & (b[2] == 'O'));
    else sx_assume_((b[0] == 'G') & (b[1] == 'E') & (b[2] == 'O') & (b[3] == 'B') & (b[4] == 0) & (b[5] == 0) & (b[6] == 0) & (b[8] == 0) & (b[9] == 0));
    if (version > 2) sx_assume_(!(b[20] & 0x80)); // not compressed
    const std::string s = std::string("ID3") + static_cast<char>(version) + std::string(5, '\0') + static_cast<char>(n) + b;
    Id3v2Tag tag;
    Diagnostics diag;
    Mem m(s + std::string(8, '\0'));
    try {
        tag.parse(m, s.size(), diag);
    } catch (const Failure &) {
    }
    std::uint64_t total = 0;
    for (const auto &f : tag.fields()) if (f.second.dataSize()) total += f.second.dataSize() + (version == 2 ? 6 : 10); // (others are derived)
    sx_assert(total <= n, "frames do not exceed the tag");
    sx_reach(tag.fields().empty() ? "none" : "frames");
}

// order of frames
//@ quick=60 thorough=100 threads=2 reach=done
SX_HARNESS(frame_order)
{
    static const std::uint32_t IDS[] = { Id3v2FrameIds::lAlbum, Id3v2FrameIds::sAlbum, Id3v2FrameIds::lTitle, Id3v2FrameIds::sTitle, Id3v2FrameIds::lUniqueFileId, Id3v2FrameIds::sUniqueFileId,
        Id3v2FrameIds::lCover, Id3v2FrameIds::sCover, Id3v2FrameIds::lComment, Id3v2FrameIds::sComment, 0x545858, 0x47454f, 0x47454f42, Id3v2FrameIds::lMood, Id3v2FrameIds::lUserDefinedText, Id3v2FrameIds::lPublisherWebpage };
    const FrameComparer less;
    std::uint32_t a = IDS[sx_choice(16, "a")], b = sx_val<std::uint32_t>("b");
    sx_assume((b & 0xFF000000u) != 0 || (b & 0x00FF0000u) != 0);
    sx_assert(!less(b, b), "irreflexive");
    const bool ab = less(a, b), ba = less(b, a);
    sx_assert(!(ab && ba), "asymmetric");
    for (const auto c : IDS) {
        const bool bc = less(b, c), cb = less(c, b), ac = less(a, c), ca = less(c, a);
        sx_assert(!(ab && bc) || ac, "transitive");
        sx_assert(!(cb && ba) || ca, "transitive");
        sx_assert(!(!ab && !ba && !bc && !cb) || (!ac && !ca), "equivalence is transitive");
    }
    if (const auto l = Id3v2FrameIds::convertToLongId(b); l && Id3v2FrameIds::isShortId(b)) sx_assert(!less(b, l) && !less(l, b), "short and long form are equivalent");
    sx_reach("done");
}

// tags which avoid patterns of MPEG audio frames by inserting zeros
//@ quick=60 thorough=300 threads=4 reach=complete,truncated
SX_HARNESS(unsynchronised)
{
    const std::uint8_t version = static_cast<std::uint8_t>(2 + sx_choice(3, "version"));
    const bool ext = version == 3 && sx_flag("extended");
    const unsigned n = 1 + sx_choice(SX_THOROUGH ? 5 : 3, "n"), k = 1 + sx_choice(SX_THOROUGH ? 2 : 1, "k"), padding = sx_flag("padding") ? 5 : 0;
    // (0xFF and 0 are told apart from the others up front as the position of everything else depends on them)
    const auto bytes = [](unsigned count, const char *name) {
        std::string r(count, '\xFF');
        for (auto &c : r) {
            const unsigned w = sx_choice(3, "class");
            if (w == 1) c = 0;
            if (w == 2) c = static_cast<char>(sx_range<std::uint8_t>(1, 0xFE, name));
        }
        return r;
    };
    const std::string a = bytes(n, "first");
    const std::string b = bytes(k, "second");
    // only what a writer has to avoid: 0xFF followed by 0 or by 111xxxxx; 0xFF at the end
    const auto unsync = [](const std::string &s) {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i) {
            r += s[i];
            if (s[i] == char(0xFF) && (i + 1 == s.size() || !s[i + 1] || (s[i + 1] & 0xE0) == 0xE0)) r += '\0';
        }
        return r;
    };
    // since v2.4.0 it is done per frame and sizes are those in the file
    const auto frame = [&](const char *id, const std::string &data) {
        const auto d = version >= 4 ? unsync(data) : data;
        return version == 2 ? std::string(id, 3) + be(d.size(), 3) + d : std::string(id, 4) + be(d.size(), 4) + std::string(version >= 4 ? "\0\2" : "\0\0", 2) + d;
    };
    std::string content = ext ? std::string("\0\0\0\6\0\0\0\0\0\xFF", 10) : std::string();
    content += frame("GEOB", a) + frame("PRIV", b);
    const size_t plain = content.size();
    content.resize(plain + padding, '\0');
    const std::string stored = version >= 4 ? content : unsync(content);
    const std::string s = std::string("ID3") + static_cast<char>(version) + '\0' + static_cast<char>(0x80 | (ext ? 0x40 : 0)) + be(stored.size(), 4) + stored;
    const bool truncate = sx_flag("truncate");
    const bool unlimited = !truncate && sx_flag("unlimited");
    Id3v2Tag tag;
    Diagnostics diag, diag2, diag3;
    Mem m("before" + s + (truncate ? "" : "following"));
    m.seekg(6);
    tag.parse(m, truncate ? s.size() - padding - 1 : unlimited ? 0 : s.size(), diag);
    sx_assert(tag.isUnsynchronisationUsed() && tag.size() == s.size(), "size is the one in the file");
    const auto first = tag.fields().find(version == 2 ? 0x47454fu : 0x47454f42u), second = tag.fields().find(version == 2 ? 0x505249u : 0x50524956u);
    sx_assert(first != tag.fields().end(), "the first frame is read");
    if (first != tag.fields().end()) sx_assert_eq(first->second.value().data(), a, "first frame's data");
    if (truncate) {
        sx_assert(diag.level() >= DiagLevel::Critical, "truncation is reported");
        // (a truncated zero which would have been removed makes no difference)
        if (b.back() != char(0xFF)) sx_assert(tag.fields().size() == 1, "the truncated frame is not read");
        sx_reach("truncated");
        return;
    }
    sx_assert(diag.level() < DiagLevel::Critical, "no complaints");
    sx_assert(tag.fields().size() == 2 && second != tag.fields().end(), "the second frame is read");
    if (second != tag.fields().end()) sx_assert_eq(second->second.value().data(), b, "second frame's data");
    sx_assert(tag.paddingSize() == padding, "padding");
    // written without unsynchronisation
    const auto w = made(tag, 0, diag2);
    sx_assert(s[5] && w[5] == 0, "not unsynchronised when written");
    Id3v2Tag back;
    Mem m2(w);
    back.parse(m2, w.size(), diag3);
    sx_assert(back.fields().size() == 2, "number of frames");
    const auto third = back.fields().find(version == 2 ? 0x47454fu : 0x47454f42u);
    if (third != back.fields().end()) sx_assert_eq(third->second.value().data(), a, "first frame's data is read back");
    sx_reach("complete");
}
