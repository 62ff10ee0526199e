// Vorbis comments: what is made reads back, as the format demands it; reading never leaves the comment.
#include "../engine/sx.h"
#include "io.h"
#include "txt.h"
#include <tagparser/exceptions.h>
#include <tagparser/vorbis/vorbiscomment.h>
#include <tagparser/vorbis/vorbiscommentids.h>
#include <c++utilities/conversion/conversionexception.h>
#include <c++utilities/conversion/stringconversion.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: comments with up to three fields; names of up to two arbitrary printable ASCII characters besides the known ones; texts of up to two (thorough: three) code units in all four encodings; up to three covers of up to two (thorough: three) arbitrary bytes with descriptions and MIME types of up to two units; all combinations of the flags; damaged comments of up to 14 (thorough: 18) arbitrary bytes
//! outside: comments within Ogg streams (see the Ogg properties); comments of more than 4 GiB; null characters and byte order marks within texts
//! assume: field names consist of printable ASCII characters other than "=", as the format demands

static std::string utf8(const ref::Codepoints &cps)
{
    std::string s;
    const bool ok = ref::encode(cps, TagTextEncoding::Utf8, s);
    sx_assert(ok, "harness: representable as UTF-8");
    return s;
}
static std::string upper(std::string s)
{
    for (auto &c : s)
        if (c >= 'a' && c <= 'z') c -= 'a' - 'A';
    return s;
}
static VorbisCommentFlags symFlags()
{
    return static_cast<VorbisCommentFlags>(sx_choice(4, "flags"));
}
// splits a comment as the format defines it
struct Raw {
    std::string vendor;
    std::vector<std::string> fields;
};
static Raw split(const std::string &s, VorbisCommentFlags flags)
{
    Raw r;
    size_t o = 0;
    if (!(flags & VorbisCommentFlags::NoSignature)) {
        sx_assert(s.compare(0, 7, "\3vorbis") == 0, "signature");
        o = 7;
    }
    const auto len = [&] {
        sx_assert(s.size() >= o + 4, "length present");
        const auto n = rdle(s, o, 4);
        o += 4;
        return n;
    };
    auto n = sx_concretize(len());
    sx_assert(n <= s.size() - o, "vendor within the comment");
    r.vendor = s.substr(o, n);
    o += n;
    auto count = sx_concretize(len());
    for (; count; --count) {
        n = sx_concretize(len());
        sx_assert(n <= s.size() - o, "field within the comment");
        r.fields.push_back(s.substr(o, n));
        o += n;
    }
    if (!(flags & VorbisCommentFlags::NoFramingByte)) {
        sx_assert(o < s.size() && s[o] == 1, "framing byte");
        ++o;
    }
    sx_assert(o == s.size(), "nothing behind the comment");
    return r;
}
static std::string made(VorbisComment &vc, VorbisCommentFlags flags, Diagnostics &diag)
{
    Mem m;
    vc.make(m, flags, diag);
    return m.str();
}
static void parsed(VorbisComment &vc, const std::string &s, VorbisCommentFlags flags, Diagnostics &diag)
{
    Mem m(s + "following data");
    vc.parse(m, s.size() - (flags & VorbisCommentFlags::NoFramingByte ? 0 : 1), flags, diag);
    sx_assert(static_cast<size_t>(m.tellg()) == s.size(), "the comment is read entirely");
    sx_assert(vc.size() == s.size(), "size");
}
static std::string name(unsigned i)
{
    switch (i) {
    case 0: return "TITLE";
    case 1: return "ARTIST";
    case 2: return "title";
    default: {
        auto s = sx_string(1 + sx_choice(2, "idsize"), "id");
        for (char c : s) sx_assume_((c >= 0x20) & (c <= 0x7D) & (c != '='));
        return s;
    }
    }
}

//@ quick=60 thorough=600 threads=4 reach=done
SX_HARNESS(text_fields)
{
    const auto flags = symFlags();
    VorbisComment vc;
    const bool plain = sx_flag("plainvendor");
    const auto vendorEnc = TXT_ENC[plain ? 1 : sx_choice(4, "venc")];
    const Txt vendor = symText(vendorEnc, plain ? 0 : 1, "vendor");
    vc.setVendor(vendor.value());
    const auto e1 = TXT_ENC[plain ? sx_choice(4, "enc1") : 0];
    const Txt a = symText(e1, plain ? 1 + sx_choice(SX_THOROUGH ? 3 : 2, "n1") : 1, "text1");
    const auto id = name(plain ? sx_choice(4, "name") : 0);
    vc.fields().emplace(id, VorbisCommentField(id, a.value()));
    // an empty one isn't written
    vc.fields().emplace("GENRE", VorbisCommentField("GENRE", TagValue()));
    Diagnostics diag, diag2;
    const auto s = made(vc, flags, diag);
    const auto raw = split(s, flags);
    sx_assert_eq(raw.vendor, utf8(vendor.cps), "vendor is written as UTF-8");
    sx_assert(raw.fields.size() == 1, "one field");
    sx_assert_eq(raw.fields[0], id + '=' + utf8(a.cps), "field is written as UTF-8");
    VorbisComment back;
    parsed(back, s, flags, diag2);
    sameText(back.vendor(), vendor.cps, "vendor is read back");
    sx_assert(back.fields().size() == 1, "one field is read");
    sx_assert_eq(back.fields().begin()->first, id, "name is read back");
    sx_assert_eq(back.fields().begin()->second.id(), id, "name is read back");
    sameText(back.fields().begin()->second.value(), a.cps, "text is read back");
    sx_assert(!hasWarning(diag) && !hasWarning(diag2), "nothing to complain about");
    sx_reach("done");
}

//@ quick=60 thorough=600 threads=4 reach=kinds,multiple
SX_HARNESS(multiple_fields)
{
    const auto flags = symFlags();
    VorbisComment vc;
    Diagnostics diag, diag2;
    if (sx_flag("kinds")) {
        // other kinds of values
        static const std::int32_t TOTAL[] = { 0, 7, 255, 65536, 2147483647 };
        const auto pos = sx_range<std::int32_t>(0, SX_THOROUGH ? 999 : 127, "pos");
        const auto total = TOTAL[sx_choice(5, "total")];
        sx_assume((pos != 0) | (total != 0));
        vc.setValue(KnownField::TrackPosition, TagValue(PositionInSet(pos, total)));
        static const std::int32_t NUM[] = { 1, -1, 120, 2147483647, -2147483647 };
        const auto num = NUM[sx_choice(5, "num")];
        vc.setValue(KnownField::Bpm, TagValue(num));
        static const double RATING[] = { 1, 20, 50.5, 99, 100 };
        const auto rating = RATING[sx_choice(5, "rating")];
        TagValue pop;
        pop.assignPopularity(Popularity{ .rating = rating, .scale = TagType::VorbisComment });
        vc.setValue(KnownField::Rating, pop);
        const auto s = made(vc, flags, diag);
        sx_assert(split(s, flags).fields.size() == 3, "three fields");
        VorbisComment back;
        parsed(back, s, flags, diag2);
        const auto p = back.value(KnownField::TrackPosition).toPositionInSet();
        sx_assert(p.position() == pos && p.total() == total, "position is read back");
        sx_assert(back.value(KnownField::Bpm).toInteger() == num, "number is read back");
        sx_assert(back.value(KnownField::Rating).type() == TagDataType::Popularity, "a rating is read");
        const auto r = back.value(KnownField::Rating).toPopularity();
        sx_assert(r.rating == rating && r.scale == TagType::VorbisComment, "rating is read back");
        sx_reach("kinds");
        return;
    }
    // the order of several values of one field is kept
    std::vector<TagValue> values;
    std::vector<Txt> texts;
    const auto n = 1 + sx_choice(3, "n");
    for (unsigned i = 0; i < n; ++i) texts.push_back(symText(TagTextEncoding::Utf8, 1, "text"));
    for (auto &t : texts) values.push_back(t.value());
    vc.setValues(KnownField::Artist, values);
    const Txt other = symText(TagTextEncoding::Utf8, 1, "other");
    vc.setValue(KnownField::Title, other.value());
    const auto s = made(vc, flags, diag);
    const auto raw = split(s, flags);
    sx_assert(raw.fields.size() == n + 1, "number of fields");
    unsigned k = 0;
    for (const auto &f : raw.fields)
        if (f.compare(0, 7, "ARTIST=") == 0) sx_assert_eq(f.substr(7), texts.at(k++).s, "order of values");
    sx_assert(k == n, "all values are written");
    VorbisComment back;
    parsed(back, s, flags, diag2);
    const auto got = back.values(KnownField::Artist);
    sx_assert(got.size() == n, "all values are read");
    for (unsigned i = 0; i < n; ++i) sameText(*got.at(i), texts[i].cps, "values are read back in order");
    sameText(back.value(KnownField::Title), other.cps, "other field is read back");
    sx_assert(back.fieldCount() == n + 1, "number of fields");
    sx_reach("multiple");
}

//@ quick=60 thorough=600 threads=4 reach=written,skipped
SX_HARNESS(covers)
{
    const auto n = 1 + sx_choice(SX_THOROUGH ? 3 : 2, "covers");
    const auto flags = static_cast<VorbisCommentFlags>(n > 1 ? sx_choice(8, "flags") : 4 * sx_choice(2, "flags"));
    VorbisComment vc;
    struct Cover {
        std::string data, mime;
        Txt desc;
        std::uint32_t type;
    };
    std::vector<Cover> covers;
    for (unsigned i = 0; i < n; ++i) {
        Cover c;
        const bool plain = i || (n > 1 && !SX_THOROUGH);
        c.data = sx_string(1 + (plain ? 0 : sx_choice(SX_THOROUGH ? 3 : 2, "n")), "data");
        const auto e = TXT_ENC[plain ? i : sx_choice(4, "enc")];
        c.desc = symText(e, plain ? i : sx_choice(3, "nd"), "desc");
        c.mime = sx_string(plain ? 1 : sx_choice(2, "nm"), "mime");
        c.type = plain ? i : sx_val<std::uint32_t>("type");
        TagValue v(c.data.data(), c.data.size(), TagDataType::Picture);
        v.setMimeType(c.mime);
        v.setDescription(c.desc.s, e);
        VorbisCommentField f(std::string(VorbisCommentIds::cover()), v);
        f.setTypeInfo(c.type);
        vc.fields().emplace(f.id(), f);
        covers.push_back(c);
    }
    vc.setValue(KnownField::Title, TagValue("t", 1, TagTextEncoding::Utf8));
    Diagnostics diag, diag2;
    const auto s = made(vc, flags, diag);
    const auto raw = split(s, flags);
    VorbisComment back;
    parsed(back, s, flags, diag2);
    sx_assert(!hasWarning(diag) && !hasWarning(diag2), "nothing to complain about");
    sx_assert_eq(back.value(KnownField::Title).toString(), "t", "other fields are kept");
    if (flags & VorbisCommentFlags::NoCovers) {
        sx_assert(raw.fields.size() == 1, "covers are skipped");
        sx_reach("skipped");
        return;
    }
    sx_assert(raw.fields.size() == n + 1, "all covers are written");
    unsigned i = 0;
    for (auto r = back.fields().equal_range(std::string(VorbisCommentIds::cover())); r.first != r.second; ++r.first, ++i) {
        const auto &v = r.first->second.value();
        sx_assert(i < n, "as many covers as written");
        sx_assert(v.type() == TagDataType::Picture, "picture");
        sx_assert_eq(std::string_view(v.dataPointer(), v.dataSize()), covers[i].data, "data of cover is read back");
        sx_assert_eq(v.mimeType(), covers[i].mime, "MIME type is read back");
        sameChars(v.description(), v.descriptionEncoding(), covers[i].desc.cps, "description is read back");
        sx_assert(r.first->second.typeInfo() == covers[i].type, "type of cover is read back");
    }
    sx_assert(i == n, "all covers are read");
    sx_reach("written");
}

static std::string comment(const std::vector<std::string> &fields)
{
    auto s = le(1, 4) + "v" + le(fields.size(), 4);
    for (const auto &f : fields) s += le(f.size(), 4) + f;
    return s;
}

//@ quick=60 thorough=400 threads=4 reach=merged,kept,years,off,several,totals
SX_HARNESS(total_fields_and_years)
{
    constexpr auto flags = VorbisCommentFlags::NoSignature | VorbisCommentFlags::NoFramingByte;
    Diagnostics diag;
    VorbisComment vc;
    if (sx_flag("years")) {
        const auto date = sx_string(2, "date"), year = sx_string(2, "year");
        const bool hasDate = sx_flag("hasdate");
        std::vector<std::string> f{ "YEAR=" + year };
        if (sx_flag("several")) {
            // several values keep their order
            const auto year2 = sx_string(2, "year2");
            f.push_back("TITLE=x");
            f.push_back("YEAR=" + year2);
            if (hasDate) f.push_back("DATE=" + date);
            parsed(vc, comment(f), flags, diag);
            const auto values = vc.values(hasDate ? "YEAR" : "DATE");
            sx_assert(values.size() == 2 && vc.fieldCount() == f.size(), "all years are kept");
            sx_assert_eq(values[0]->toString(), year, "first year");
            sx_assert_eq(values[1]->toString(), year2, "second year");
            sx_reach("several");
            return;
        }
        if (hasDate) f.insert(sx_flag("first") ? f.begin() : f.end(), (sx_flag("lower") ? "date=" : "DATE=") + date);
        parsed(vc, comment(f), flags, diag);
        sx_assert_eq(vc.value(KnownField::RecordDate).toString(), hasDate ? date : year, "YEAR is used unless DATE exists");
        if (hasDate) sx_assert_eq(vc.value("YEAR").toString(), year, "YEAR is kept besides DATE");
        sx_reach("years");
        return;
    }
    if (sx_flag("totals")) {
        // as many totals as positions, more or less
        const auto np = sx_choice(3, "np"), nt = 1 + sx_choice(2, "nt");
        std::vector<std::string> f;
        std::string pos, tot;
        for (unsigned i = 0; i < np; ++i) {
            pos += sx_range<char>('1', '9', "pos");
            f.push_back(std::string("TRACKNUMBER=") + pos.back());
        }
        const bool first = sx_flag("first");
        for (unsigned i = 0; i < nt; ++i) {
            tot += sx_range<char>('1', '9', "tot");
            f.insert(first ? f.begin() + i : f.end(), std::string("TRACKTOTAL=") + tot.back());
        }
        parsed(vc, comment(f), flags | VorbisCommentFlags::ConvertTotalFields, diag);
        sx_assert(!vc.hasField("TRACKTOTAL"), "totals are incorporated");
        const auto values = vc.values(KnownField::TrackPosition);
        sx_assert(values.size() == std::max(np, nt), "number of positions");
        for (unsigned i = 0; i < values.size(); ++i) {
            const auto p = values[i]->toPositionInSet();
            sx_assert(p.position() == (i < np ? pos[i] - '0' : 0), "position");
            sx_assert(p.total() == (i < nt ? tot[i] - '0' : 0), "total");
        }
        sx_assert(hasWarning(diag) == (nt > np), "superfluous totals are reported");
        sx_reach("totals");
        return;
    }
    static const char *const POS[] = { "TRACKNUMBER", "DISCNUMBER", "PARTNUMBER" };
    static const char *const TOT[] = { "TRACKTOTAL", "DISCTOTAL", "PARTTOTAL" };
    static constexpr KnownField FIELD[] = { KnownField::TrackPosition, KnownField::DiskPosition, KnownField::PartNumber };
    const auto k = sx_choice(3, "field");
    // "pos" or "pos/tot" and the total as separate field
    const auto pos = sx_range<char>('1', '9', "pos"), tot = sx_range<char>('1', '9', "tot"), sep = sx_val<char>("sep");
    sx_assume_((sep != '-') & (sep != ' ') & (sep != 0)); // (treated as the number zero by c++utilities)
    const bool hasPos = sx_flag("haspos"), hasTot = sx_flag("hastot"), convert = sx_flag("convert");
    std::vector<std::string> f;
    if (hasPos) f.push_back(std::string(POS[k]) + '=' + pos + (hasTot ? std::string("/") + tot : std::string()));
    f.insert(sx_flag("first") ? f.begin() : f.end(), std::string(TOT[k]) + '=' + sep);
    parsed(vc, comment(f), convert ? flags | VorbisCommentFlags::ConvertTotalFields : flags, diag);
    const bool number = sep >= '0' && sep <= '9', has = vc.hasField(TOT[k]);
    if (!convert) {
        sx_assert(has && vc.fieldCount() == f.size(), "fields are kept as they are");
        sx_reach("off");
        return;
    }
    sx_assert(has == !number, "totals which are a number are incorporated");
    if (!number) {
        sx_assert(hasWarning(diag), "totals which aren't a number are reported");
        sx_assert_eq(vc.value(TOT[k]).toString(), std::string_view(&sep, 1), "totals which aren't a number are kept");
        if (hasPos) sx_assert(vc.value(FIELD[k]).toPositionInSet().position() == pos - '0', "position is kept");
        sx_reach("kept");
        return;
    }
    const auto p = vc.value(FIELD[k]).toPositionInSet();
    sx_assert(p.position() == (hasPos ? pos - '0' : 0), "position");
    sx_assert(p.total() == (hasPos && hasTot ? tot - '0' : sep - '0'), "total");
    if (hasPos && hasTot) sx_assert(hasWarning(diag) == (tot != sep), "contradicting totals are reported");
    sx_reach("merged");
}

//@ quick=30 thorough=60 threads=1 reach=known,unknown
SX_HARNESS(known_fields)
{
    // each field has one name of its own, which is understood regardless of its case
    VorbisComment vc;
    const auto i = sx_choice(static_cast<unsigned>(KnownField::PerformerWebpage) + 1, "field");
    const auto field = static_cast<KnownField>(i);
    const auto id = vc.fieldId(field);
    sx_assert(vc.supportsField(field) == !id.empty(), "supported fields have a name");
    const auto t = symText(TagTextEncoding::Utf8, 1, "text");
    if (field == KnownField::Vendor) {
        sx_assert(vc.setValue(field, t.value()), "vendor can be set");
        sameText(vc.value(field), t.cps, "vendor can be read");
        return;
    }
    if (id.empty()) {
        sx_assert(!vc.setValue(field, t.value()), "unsupported fields can't be set");
        sx_assert(!vc.fieldCount() && vc.value(field).isEmpty(), "unsupported fields stay empty");
        sx_reach("unknown");
        return;
    }
    sx_assert(vc.knownField(id) == field, "name denotes the field");
    for (unsigned o = 0; o <= static_cast<unsigned>(KnownField::PerformerWebpage); ++o)
        if (o != i) sx_assert(upper(vc.fieldId(static_cast<KnownField>(o))) != upper(id), "names are not used twice");
    auto other = id;
    const auto flip = sx_val<std::uint32_t>("case");
    for (size_t k = 0; k < other.size() && k < 4; ++k)
        if (other[k] >= 'A' && other[k] <= 'Z') other[k] = static_cast<char>(other[k] | (((flip >> k) & 1) << 5));
    sx_assert(vc.knownField(other) == field, "case doesn't matter");
    Diagnostics diag;
    parsed(vc, comment({ other + '=' + t.s }), VorbisCommentFlags::NoSignature | VorbisCommentFlags::NoFramingByte, diag);
    if (field != KnownField::Cover && field != KnownField::Rating) sameText(vc.value(field), t.cps, "field is found regardless of its case");
    sx_reach("known");
}

//@ quick=60 thorough=900 threads=4 reach=ok,failed
SX_HARNESS(damaged_comments)
{
    // (all bytes besides the high bytes of sizes, which just lead to the same rejection)
    const auto flags = VorbisCommentFlags::NoFramingByte | (sx_flag("convert") ? VorbisCommentFlags::ConvertTotalFields : VorbisCommentFlags::None)
        | (sx_flag("sig") ? VorbisCommentFlags::None : VorbisCommentFlags::NoSignature);
    std::string s = sx_string(SX_THOROUGH ? 18 : 14, "data");
    if (!(flags & VorbisCommentFlags::NoSignature)) s = "\3vorbis" + s;
    const auto size = sx_range<std::uint64_t>(0, s.size(), "size");
    Mem m(s + "following data");
    VorbisComment vc;
    Diagnostics diag;
    sx_alloc_limit(4096);
    bool failed = false;
    try {
        vc.parse(m, size, flags, diag);
    } catch (const Failure &) {
        failed = true;
    }
    sx_assert(static_cast<std::uint64_t>(m.tellg()) <= size, "nothing is read beyond the comment");
    sx_assert(vc.size() <= size, "size");
    if (failed) sx_assert(diag.has(DiagLevel::Critical), "failures are reported");
    sx_reach(failed ? "failed" : "ok");
}

//@ quick=60 thorough=600 threads=4 reach=cover,rejected,nothing
SX_HARNESS(damaged_fields)
{
    // a single field, specially one claiming to be a cover
    std::string content;
    switch (sx_choice(3, "kind")) {
    case 0: content = sx_string(sx_choice(4, "n"), "data"); break;
    case 1: content = "METADATA_BLOCK_PICTURE" + sx_string(sx_choice(SX_THOROUGH ? 6 : 5, "n"), "data"); break;
    default: {
        // truncated or contradicting picture structure
        std::string pic = be(3, 4) + be(sx_range<std::uint32_t>(0, 4, "mimesize"), 4) + "m" + be(sx_range<std::uint32_t>(0, 4, "descsize"), 4) + "d" + std::string(16, '\0')
            + be(sx_val<std::uint32_t>("datasize"), 4) + "d";
        const auto cut = sx_choice(static_cast<unsigned>(pic.size()) + 1, "size");
        pic.resize(cut);
        static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        std::string b64;
        for (size_t i = 0; i < pic.size(); i += 3) {
            std::uint32_t t = 0;
            for (size_t k = 0; k < 3; ++k) t = (t << 8) | (i + k < pic.size() ? static_cast<unsigned char>(pic[i + k]) : 0u);
            for (size_t k = 0; k < 4; ++k) b64 += i + k <= pic.size() || k < 2 ? al[(t >> (18 - 6 * k)) & 63] : '=';
        }
        content = "METADATA_BLOCK_PICTURE=" + b64;
    }
    }
    const std::string s = le(content.size(), 4) + content + "following";
    Mem m(s);
    VorbisCommentField f;
    std::uint64_t max = s.size() - (sx_flag("less") ? 9 : 0);
    Diagnostics diag;
    bool failed = false;
    try {
        f.parse(m, max, diag);
    } catch (const Failure &) {
        failed = true;
    }
    sx_assert(static_cast<size_t>(m.tellg()) == content.size() + 4, "the next field follows");
    const auto eq = content.find('=');
    if (failed) {
        sx_assert(diag.has(DiagLevel::Critical), "failures are reported");
        sx_assert(eq == 0 || eq == std::string::npos || content.compare(0, 22, "METADATA_BLOCK_PICTURE") == 0, "only fields without name or damaged covers are rejected");
        sx_reach("rejected");
    } else if (f.value().type() == TagDataType::Picture && !f.value().isEmpty()) {
        sx_reach("cover");
    } else if (f.value().isEmpty()) {
        sx_reach("nothing");
    }
}
