// EBML: IDs, sizes and integers are encoded as specified; elements are parsed as specified.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "media.h"
#include <sstream>
#include <tagparser/exceptions.h>
#include <tagparser/matroska/ebmlelement.h>
#include <tagparser/matroska/ebmlid.h>
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskaid.h>
#include <tagparser/mediafileinfo.h>
using namespace TagParser;
struct Element : EbmlElement {
    using EbmlElement::EbmlElement;
    Element(MatroskaContainer &c, std::uint64_t start, std::uint64_t max)
        : EbmlElement(c, start, max)
    {
    }
    bool isSizeUnknown() const { return m_sizeUnknown; }
};
//! bound: all 64-bit sizes and integers, all IDs; element headers of up to 12 arbitrary bytes within 0..16 available bytes; up to four (thorough: six) arbitrary bytes before an element; integers and floats of 0..9 bytes; trees of segments and clusters of known and unknown size with denotations of every length

// reads a size denotation
struct Denotation {
    unsigned length = 0;
    std::uint64_t value = 0;
    bool unknown = false;
};
static Denotation denotation(const std::string &s, size_t o)
{
    Denotation d;
    const auto b = static_cast<unsigned char>(s.at(o));
    for (d.length = 1; d.length <= 8 && !(b & (0x80u >> (d.length - 1))); ++d.length) { }
    if (d.length > 8) return d;
    d.value = rdbe(s, o, d.length) - (1ull << (7 * d.length));
    d.unknown = d.value == (1ull << (7 * d.length)) - 1;
    return d;
}
//@ quick=60 thorough=600 threads=4 reach=one,eight,impossible
SX_HARNESS(sizes)
{
    const auto size = sx_val<std::uint64_t>("size");
    const auto minBytes = sx_choice(9, "min");
    char buff[9] = { 'x', 'x', 'x', 'x', 'x', 'x', 'x', 'x', 'x' };
    unsigned n = 0, announced = 0;
    try {
        n = minBytes ? Element::makeSizeDenotation(size, buff, static_cast<std::uint8_t>(minBytes)) : Element::makeSizeDenotation(size, buff);
    } catch (const InvalidDataException &) {
        sx_assert(size >= (1ull << 56) - 1, "every size which can be denoted is denoted");
        bool thrown = false;
        try {
            Element::calculateSizeDenotationLength(size);
        } catch (const InvalidDataException &) {
            thrown = true;
        }
        sx_assert(thrown, "length of size denotation can't be calculated either");
        sx_reach("impossible");
        return;
    }
    announced = Element::calculateSizeDenotationLength(size);
    sx_assert(n >= 1 && n <= 8, "length within limits");
    sx_assert(minBytes > announced ? n == minBytes : n == announced, "length as announced");
    const auto d = denotation(std::string(buff, n), 0);
    sx_assert(d.length == n, "marker");
    sx_assert(d.value == size, "size");
    sx_assert(!d.unknown, "not the reserved value for unknown sizes");
    sx_assert(buff[8] == 'x', "nothing written beyond the buffer");
    sx_assert(n < 3 || minBytes >= n || size >= (1ull << (7 * (n - 1))) - 2, "no needlessly long denotation");
    if (n == 1) sx_reach("one");
    if (n == 8) sx_reach("eight");
}
//@ quick=60 thorough=600 threads=4 reach=id,impossible,integer
SX_HARNESS(ids_and_integers)
{
    char buff[9] = { 'x', 'x', 'x', 'x', 'x', 'x', 'x', 'x', 'x' };
    if (sx_flag("id")) {
        const auto id = sx_val<std::uint32_t>("id");
        unsigned n = 0;
        try {
            n = Element::makeId(id, buff);
        } catch (const InvalidDataException &) {
            sx_assert(id > 0x1FFFFFFF, "every ID is made");
            bool thrown = false;
            try {
                Element::calculateIdLength(id);
            } catch (const InvalidDataException &) {
                thrown = true;
            }
            sx_assert(thrown, "length of ID can't be calculated either");
            sx_reach("impossible");
            return;
        }
        sx_assert(n == Element::calculateIdLength(id), "length of ID as announced");
        // IDs of class A to D
        const bool valid = (id >= 0x80 && id <= 0xFE) || (id >= 0x4000 && id <= 0x7FFE) || (id >= 0x200000 && id <= 0x3FFFFE) || (id >= 0x10000000 && id <= 0x1FFFFFFE);
        if (valid) {
            sx_assert(n == (id > 0xFFFFFF ? 4u : id > 0xFFFF ? 3u : id > 0xFF ? 2u : 1u), "length of ID");
            sx_assert(rdbe(std::string(buff, n), 0, n) == id, "ID");
        }
        sx_reach("id");
        return;
    }
    const auto value = sx_val<std::uint64_t>("value");
    const auto minBytes = sx_choice(10, "min");
    const unsigned n = minBytes ? Element::makeUInteger(value, buff, static_cast<std::uint8_t>(minBytes)) : Element::makeUInteger(value, buff);
    sx_assert(n >= 1 && n <= 8, "length within limits");
    const unsigned minimum = Element::calculateUIntegerLength(value);
    sx_assert(minBytes > minimum ? n == (minBytes > 8 ? 8 : minBytes) : n == minimum, "length as announced");
    sx_assert(n == 1 || minBytes >= n || value >> (8 * (n - 1)), "no needlessly long integer");
    sx_assert(rdbe(std::string(buff, n), 0, n) == value, "value");
    sx_assert(buff[8] == 'x', "nothing written beyond the buffer");
    sx_reach("integer");
}
//@ quick=30 thorough=300 threads=4 reach=integer,text
SX_HARNESS(simple_elements)
{
    static const std::uint32_t ids[] = { 0xD7, 0x4282, 0x2AD7B1, 0x1549A966 };
    const auto id = ids[sx_choice(4, "id")];
    Mem m;
    std::string content;
    if (sx_flag("integer")) {
        const auto v = sx_val<std::uint64_t>("value");
        Element::makeSimpleElement(m, id, v);
        const auto n = Element::calculateUIntegerLength(v);
        content = be(v, n);
        sx_reach("integer");
    } else {
        content = sx_string(sx_choice(4, "size"), "text");
        static const unsigned sizes[] = { 0, 122, 123, 124, 125, 126, 127, 128, 16379, 16380, 16381, 16382, 16383 };
        content += std::string(sizes[sx_choice(13, "more")], 'y');
        Element::makeSimpleElement(m, id, std::string_view(content));
        sx_reach("text");
    }
    const auto s = m.str();
    const auto i = mkv::id(id);
    sx_assert_eq(s.substr(0, i.size()), i, "ID");
    const auto d = denotation(s, i.size());
    sx_assert(d.value == content.size() && !d.unknown, "size");
    sx_assert_eq(s.substr(i.size() + d.length), content, "content");
}
struct File {
    MediaFileInfo info;
    explicit File(const std::string &content)
        : info(std::string("f.mkv"))
    {
        fs_put("f.mkv", content);
        info.open(true);
    }
};
//@ quick=60 thorough=600 threads=4 reach=parent,other,unsupported
SX_HARNESS(any_id)
{
    // arbitrary ID with size 5
    Element::bytesToBeSkipped = 1;
    const auto n = sx_choice(6, "length of ID");
    auto s = sx_string(n ? n : 1, "id");
    if (!n || n > 4)
        sx_assume_((static_cast<unsigned char>(s[0]) & 0xF0) == 0);
    else
        sx_assume_(static_cast<unsigned char>(s[0]) >> (8 - n) == 1);
    File f(s + '\x85' + std::string(8, 'y'));
    MatroskaContainer c(f.info, 0);
    Element e(c, 0);
    Diagnostics diag;
    try {
        e.parse(diag);
    } catch (const InvalidDataException &) {
        sx_assert(!n || n > 4, "only unsupported IDs are reported");
        sx_assert(diag.has(DiagLevel::Critical), "unsupported IDs are reported");
        sx_reach("unsupported");
        return;
    }
    sx_assert(n && n <= 4, "unsupported IDs are reported");
    sx_assert(e.id() == rdbe(s, 0, n) && e.idLength() == n && e.sizeLength() == 1 && e.dataSize() == 5, "ID and size");
    sx_assert(e.nextSibling() && e.nextSibling()->startOffset() == n + 6, "sibling");
    sx_assert((e.firstChild() != nullptr) == e.isParent(), "child");
    sx_assert(!hasWarning(diag), "no needless warning");
    if (e.isParent()) sx_reach("parent");
    else
        sx_reach("other");
}
//@ quick=90 thorough=600 threads=6 reach=parsed,unknown,truncated,invalid,skipped
SX_HARNESS(header)
{
    Element::bytesToBeSkipped = 2;
    static const std::uint32_t ids[] = { 0xA0, 0x83, 0x7373, 0x4444, 0x2AD7B1, 0x1F43B675, 0x10203040 };
    const auto k = sx_choice(8, "ID");
    const auto s = (k == 7 ? sx_string(0, "id") + '\x08' : mkv::id(ids[k])) + sx_string(9, "size");
    if (k == 7) sx_assume_(static_cast<unsigned char>(s[1]) < 0x20 || s[1] == '\x86');
    const auto available = sx_choice(17, "available");
    File f(std::string(3, 'x') + s + std::string(30, 'y'));
    MatroskaContainer c(f.info, 0);
    const auto data = s + std::string(30, 'y');
    Element e(c, 3, available);
    Diagnostics diag;
    // expectation
    size_t o = 0;
    bool ok = false, truncated = false;
    Denotation d;
    unsigned idLength = 0;
    for (; o < 2; ++o) {
        if (available - o < 2 || available < o) {
            truncated = true;
            break;
        }
        const auto b = static_cast<unsigned char>(data[o]);
        for (idLength = 1; idLength <= 4 && !(b & (0x80u >> (idLength - 1))); ++idLength) { }
        if (idLength > 4) continue;
        d = denotation(data, o + idLength);
        if (d.length > 8 || idLength + d.length > available - o) continue;
        ok = true;
        break;
    }
    try {
        e.parse(diag);
    } catch (const TruncatedDataException &) {
        sx_assert(!ok && truncated, "only truncated elements are reported as such");
        sx_reach("truncated");
        return;
    } catch (const InvalidDataException &) {
        sx_assert(!ok && !truncated, "only invalid elements are reported as such");
        sx_assert(diag.has(DiagLevel::Critical), "invalid elements are reported");
        sx_reach("invalid");
        return;
    }
    sx_assert(ok, "invalid elements are reported");
    const auto left = available - o;
    sx_assert(e.startOffset() == 3 + o, "offset");
    sx_assert(e.idLength() == idLength, "length of ID");
    sx_assert(e.id() == rdbe(data, o, idLength), "ID");
    sx_assert(e.sizeLength() == d.length, "length of size");
    sx_assert(e.headerSize() == idLength + d.length && e.dataOffset() == e.startOffset() + e.headerSize(), "offset of data");
    sx_assert(e.totalSize() <= left, "element doesn't exceed the available size");
    if (d.unknown) {
        sx_assert(e.isSizeUnknown(), "size is unknown");
        sx_assert(e.totalSize() == left, "element of unknown size takes the available size");
        sx_reach("unknown");
    } else {
        sx_assert(!e.isSizeUnknown(), "size is known");
        const bool cut = d.value > left - e.headerSize();
        sx_assert(e.dataSize() == (cut ? left - e.headerSize() : d.value), "size");
        if (cut) sx_assert(hasWarning(diag), "truncation is reported");
        if (!cut && !o) sx_assert(!hasWarning(diag), "no needless warning");
    }
    if (o) {
        sx_assert(hasWarning(diag), "skipped bytes are reported");
        sx_reach("skipped");
    }
    sx_assert((e.nextSibling() != nullptr) == (e.totalSize() < left), "sibling");
    if (e.nextSibling()) sx_assert(e.nextSibling()->startOffset() == e.endOffset() && e.nextSibling()->maxTotalSize() == left - e.totalSize(), "offset of sibling");
    sx_assert((e.firstChild() != nullptr) == (e.isParent() && e.dataSize() > 0), "child");
    if (e.firstChild()) sx_assert(e.firstChild()->startOffset() == e.dataOffset() && e.firstChild()->maxTotalSize() == e.dataSize() && e.firstChild()->level() == 1, "offset of child");
    sx_reach("parsed");
}
//@ quick=60 thorough=600 threads=4 reach=found,lost
SX_HARNESS(junk)
{
    // elements are found again after invalid bytes
    const auto n = sx_choice(SX_THOROUGH ? 7 : 5, "junk");
    auto junk = sx_string(n, "junk");
    for (const auto b : junk) sx_assume_((static_cast<unsigned char>(b) & 0xF0) == 0); // IDs start with one of the upper four bits
    Element::bytesToBeSkipped = sx_choice(8, "limit");
    File f(junk + mkv::num(0xD7, 5) + mkv::num(0xD7, 6));
    MatroskaContainer c(f.info, 0);
    Element e(c, 0);
    Diagnostics diag;
    try {
        e.parse(diag);
    } catch (const InvalidDataException &) {
        sx_assert(n >= Element::bytesToBeSkipped, "found within the limit");
        sx_assert(diag.has(DiagLevel::Critical) || !Element::bytesToBeSkipped, "invalid elements are reported");
        sx_reach("lost");
        return;
    }
    sx_assert(n < Element::bytesToBeSkipped, "limit is obeyed");
    sx_assert(e.startOffset() == n && e.id() == 0xD7 && e.readUInteger() == 5 && e.totalSize() == 3, "element");
    sx_assert(hasWarning(diag) == (n > 0), "skipped bytes are reported");
    auto *const next = e.nextSibling();
    sx_assert(next && next->startOffset() == n + 3 && next->maxTotalSize() == 3, "sibling");
    next->parse(diag);
    sx_assert(next->id() == 0xD7 && next->readUInteger() == 6 && !next->nextSibling(), "content of sibling");
    sx_reach("found");
}
static double asDouble(std::uint64_t v)
{
    double d;
    memcpy(&d, &v, 8);
    return d;
}
//@ quick=60 thorough=600 threads=4 reach=integer,float,text
SX_HARNESS(content)
{
    const auto n = sx_choice(11, "size");
    const auto data = sx_string(n, "data");
    const auto tail = std::string(2, 'z');
    File f(std::string(1, 'x') + mkv::el(0xD7, data, sx_flag("long") ? 8 : 0) + tail);
    MatroskaContainer c(f.info, 0);
    Element e(c, 1);
    Diagnostics diag;
    e.parse(diag);
    sx_assert(e.dataSize() == n, "size");
    const auto number = e.readUInteger();
    sx_assert(number == rdbe(data, 0, n > 8 ? 8 : n), "integer");
    sx_reach("integer");
    sx_assert_eq(e.readString(), data, "text");
    sx_reach("text");
    const auto v = e.readFloat();
    std::uint64_t got;
    memcpy(&got, &v, 8);
    if (n == 8) {
        sx_assert(got == rdbe(data, 0, 8), "64-bit float");
    } else if (n != 4) {
        sx_assert(got == 0, "floats of other sizes are zero");
    } else {
        // exact except for NaNs
        const auto raw = static_cast<std::uint32_t>(rdbe(data, 0, 4));
        const auto exponent = raw >> 23 & 0xFF;
        if (exponent && exponent != 0xFF)
            sx_assert(got == ((static_cast<std::uint64_t>(raw >> 31) << 63) | (static_cast<std::uint64_t>(exponent + 896) << 52) | (static_cast<std::uint64_t>(raw & 0x7FFFFF) << 29)), "32-bit float");
        if ((raw & 0x7FFFFFFF) == 0) sx_assert((got << 1) == 0, "zero");
    }
    sx_reach("float");
}
//@ quick=90 thorough=600 threads=6 reach=unknown,known
SX_HARNESS(tree)
{
    // segment of known or unknown size holding clusters of known or unknown size
    const auto segmentLength = sx_choice(9, "segment");
    const auto clusterLength = sx_choice(9, "cluster"); // 0: known size
    const auto clusters = sx_choice(SX_THOROUGH ? 4 : 3, "clusters") + 1;
    const bool tail = sx_flag("tail");
    const auto unknown = [](unsigned n) { return be((1ull << (7 * n)) - 1 | 1ull << (7 * n), n); };
    const auto payload = sx_string(2, "payload");
    std::string content;
    for (unsigned i = 0; i < clusters; ++i) {
        const auto blocks = mkv::num(0xE7, i) + mkv::block(1, i, payload) + (i == 1 ? mkv::el(0xA0, mkv::el(0xA1, "b")) : std::string());
        content += mkv::id(0x1F43B675) + (clusterLength ? unknown(clusterLength) : mkv::size(blocks.size())) + blocks;
    }
    const auto tags = mkv::el(0x1254C367, mkv::tag("TITLE", "ab"));
    if (tail) content += tags;
    const auto data = mkv::header() + mkv::id(0x18538067) + (segmentLength ? unknown(segmentLength) : mkv::size(content.size())) + content;
    File f(data);
    MatroskaContainer c(f.info, 0);
    c.parseHeader(*std::make_unique<Diagnostics>(), *std::make_unique<AbortableProgressFeedback>());
    Diagnostics diag;
    auto *const segment = c.firstElement()->siblingById(MatroskaIds::Segment, diag);
    sx_assert(segment && segment->endOffset() == data.size() && segment->level() == 0 && !segment->nextSibling(), "segment");
    size_t o = segment->dataOffset();
    unsigned i = 0;
    auto *child = segment->firstChild();
    for (; child; child = child->nextSibling(), ++i) {
        child->parse(diag);
        sx_assert(child->startOffset() == o, "offset of level 1 element");
        sx_assert(child->parent() == segment && child->level() == 1, "parent");
        if (i == clusters) {
            sx_assert(tail && child->id() == MatroskaIds::Tags && child->endOffset() == data.size(), "tags");
            auto *const tag = child->subelementByPath(diag, MatroskaIds::Tags, MatroskaIds::Tag, MatroskaIds::SimpleTag, MatroskaIds::TagString);
            sx_assert(tag && tag->level() == 4 && tag->readString() == "ab" && tag->parent(4) == segment, "content of tags");
            continue;
        }
        sx_assert(i < clusters && child->id() == MatroskaIds::Cluster, "cluster");
        const auto header = 4 + (clusterLength ? clusterLength : 1);
        sx_assert(child->headerSize() == header, "header of cluster");
        o += header;
        unsigned k = 0;
        for (auto *level2 = child->firstChild(); level2; ++k) {
            level2->parse(diag);
            if (level2->parent() != child) {
                sx_assert(clusterLength && level2->parent() == segment, "only elements after an element of unknown size are found to belong elsewhere");
                break;
            }
            sx_assert(level2->startOffset() == o, "offset of level 2 element");
            sx_assert(level2->id() == (k == 0 ? 0xE7u : k == 1 ? 0xA3u : 0xA0u), "ID of level 2 element");
            if (k == 0) sx_assert(level2->readUInteger() == i, "time");
            if (k == 1) sx_assert_eq(level2->readString(), mkv::size(1) + be(i, 2) + '\x80' + payload, "block");
            if (k == 2) sx_assert(level2->firstChild() && level2->childById(0xA1, diag) && level2->childById(0xA1, diag)->readString() == "b", "block group");
            o = level2->endOffset();
            level2 = level2->nextSibling();
        }
        sx_assert(k == (i == 1 ? 3u : 2u), "number of level 2 elements");
        sx_assert(child->endOffset() == o, "size of cluster");
    }
    sx_assert(i == clusters + (tail ? 1 : 0), "number of level 1 elements");
    sx_assert(o == data.size() - (tail ? tags.size() : 0), "end of clusters");
    sx_assert(!hasWarning(diag), "no needless warning");
    if (clusterLength || segmentLength) sx_reach("unknown");
    else
        sx_reach("known");
}
