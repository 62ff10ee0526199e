// Ogg pages are read as RFC 3533 defines them; the iterator delivers exactly the segments of the wanted stream.
#include "../engine/sx.h"
#include "io.h"
#include "ogg.h"
#include <tagparser/exceptions.h>
#include <tagparser/ogg/oggiterator.h>
#include <tagparser/ogg/oggpage.h>
#include <c++utilities/io/binaryreader.h>
using namespace TagParser;
//! bound: page headers with arbitrary content and up to 3 (thorough: 5) arbitrary lacing values; checksums of pages with up to two arbitrary bytes anywhere; files of three pages of up to two streams with up to three segments each, every sequence of up to two (thorough: three) movements; up to six (thorough: eight) arbitrary bytes between pages; all segment sizes up to 1300
//! outside: streams of more than 2 GiB; reading failures of the underlying file

//@ quick=60 thorough=600 threads=4 qto=60000 reach=ok,truncated,invalid,unconcluded
SX_HARNESS(page_header)
{
    const auto start = sx_choice(2, "start") * 5;
    const auto n = sx_choice(SX_THOROUGH ? 6 : 4, "segments");
    const bool wrong = sx_flag("wrong");
    auto s = std::string(start, 'x') + sx_string(26, "header") + static_cast<char>(n);
    if (wrong) {
        sx_assume_((s[start] != 'O') | (s[start + 1] != 'g') | (s[start + 2] != 'g') | (s[start + 3] != 'S'));
    } else
        s.replace(start, 4, "OggS");
    std::vector<std::uint32_t> sizes;
    size_t total = 0;
    bool open = false;
    for (unsigned i = 0; i < n; ++i) {
        const auto l = sx_val<unsigned char>("lacing");
        s += static_cast<char>(l);
        if (!open) sizes.push_back(0);
        sizes.back() += l;
        total += l;
        open = l == 255;
    }
    const auto size = 27 + n + total;
    const auto available = sx_range<std::uint16_t>(0, 2000, "available");
    Mem m(s + "data");
    OggPage p;
    try {
        p.parseHeader(m, start, available);
    } catch (const TruncatedDataException &) {
        sx_assert(available < size, "only truncated pages are reported as such");
        sx_reach("truncated");
        return;
    } catch (const InvalidDataException &) {
        sx_assert(wrong, "only pages without capture pattern are reported as invalid");
        sx_reach("invalid");
        return;
    }
    sx_assert(!wrong && available >= size, "truncated and invalid pages are reported");
    sx_assert(p.startOffset() == start, "offset");
    sx_assert(p.streamStructureVersion() == rdle(s, start + 4, 1), "version");
    sx_assert(p.headerTypeFlag() == (rdle(s, start + 5, 1) & 0xF), "flags");
    sx_assert(p.isContinued() == !!(s[start + 5] & 1), "continued");
    sx_assert(p.isFirstpage() == !!(s[start + 5] & 2), "first");
    sx_assert(p.isLastPage() == !!(s[start + 5] & 4), "last");
    sx_assert(p.absoluteGranulePosition() == rdle(s, start + 6, 8), "granule position");
    sx_assert(p.streamSerialNumber() == rdle(s, start + 14, 4), "serial number");
    sx_assert(p.matchesStreamSerialNumber(static_cast<std::uint32_t>(rdle(s, start + 14, 4))), "serial number matches");
    sx_assert(!p.matchesStreamSerialNumber(static_cast<std::uint32_t>(rdle(s, start + 14, 4)) ^ 1), "other serial number doesn't match");
    sx_assert(p.sequenceNumber() == rdle(s, start + 18, 4), "sequence number");
    sx_assert(p.checksum() == rdle(s, start + 22, 4), "checksum");
    sx_assert(p.segmentTableSize() == n, "size of segment table");
    sx_assert(p.segmentSizes().size() == sizes.size(), "number of segments");
    for (size_t i = 0; i < sizes.size(); ++i) sx_assert(p.segmentSizes()[i] == sizes[i], "size of segment");
    sx_assert(p.isLastSegmentUnconcluded() == open, "unconcluded");
    sx_assert(p.headerSize() == 27 + n, "header size");
    sx_assert(p.dataSize() == total, "data size");
    sx_assert(p.totalSize() == size, "total size");
    size_t o = start + 27 + n;
    for (size_t i = 0; i < sizes.size(); ++i) {
        sx_assert(p.dataOffset(i) == o, "offset of segment");
        o += sizes[i];
    }
    if (open) sx_reach("unconcluded");
    // parsing another page replaces everything
    const auto other = ogg::page(2, 3, 4, 5, { 7 }, "1234567");
    Mem m2(other);
    p.parseHeader(m2, 0, static_cast<std::int32_t>(other.size()));
    sx_assert(p.segmentSizes().size() == 1 && p.segmentSizes()[0] == 7 && p.totalSize() == 35 && p.sequenceNumber() == 5, "re-used page");
    sx_assert(!p.isLastSegmentUnconcluded(), "re-used page has no unconcluded segment");
    sx_reach("ok");
}
//@ quick=60 thorough=300 threads=2 reach=ok
SX_HARNESS(page_checksum)
{
    const auto start = sx_choice(2, "start") * 3;
    const auto l = sx_choice(3, "size");
    auto page = ogg::page(2, 0x1234, 7, 1, l == 0 ? std::vector<unsigned>() : l == 1 ? std::vector<unsigned>{ 3 } : std::vector<unsigned>{ 255, 2, 3 },
        l == 0 ? std::string() : l == 1 ? "abc" : std::string(260, 'z'));
    // arbitrary bytes anywhere but in the capture pattern and the sizes
    const size_t spots[] = { 5, 6, 13, 14, 18, 21, page.size() - 1, page.size() - 2, 25, 22 };
    const auto pos = spots[sx_choice(10, "position")];
    sx_assume_((pos < 26) | (l != 0));
    page[pos] = sx_val<char>("byte");
    if (pos != 5) page[5] = sx_val<char>("flags");
    const auto expected = ogg::crc(page);
    Mem m(std::string(start, 'x') + page + "rest");
    sx_assert(OggPage::computeChecksum(m, start) == expected, "checksum as defined by RFC 3533");
    OggPage::updateChecksum(m, start);
    auto updated = page;
    updated.replace(22, 4, le(expected, 4));
    sx_assert_eq(m.str(), std::string(start, 'x') + updated + "rest", "only the checksum is updated");
    sx_reach("ok");
}
//@ quick=20 thorough=60 threads=1 reach=ok
SX_HARNESS(segment_size_denotation)
{
    const auto size = sx_range<std::uint32_t>(0, 1300, "size");
    Mem m;
    const auto n = OggPage::makeSegmentSizeDenotation(m, size);
    const auto s = m.str();
    sx_assert(n == s.size() && n == size / 255 + 1, "number of bytes");
    std::uint32_t sum = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        const auto b = static_cast<unsigned char>(s[i]);
        sx_assert((b == 255) == (i + 1 < s.size()), "all but the last one are 255");
        sum += b;
    }
    sx_assert(sum == size, "size");
    sx_reach("ok");
}

struct Seg {
    size_t page, segment, offset, size;
};
//@ quick=120 thorough=800 threads=6 reach=read,truncated,filtered,backward
SX_HARNESS(iterator)
{
    std::string s(1, 'x');
    const auto start = s.size();
    const bool filter = sx_flag("filter");
    std::vector<Seg> segs; // matching the filter
    std::vector<std::vector<Seg>> bypage;
    static const std::vector<unsigned> tables[] = { {}, { 3, 1 }, { 255, 1, 0, 2 }, { 1, 255 } };
    const auto serials = filter ? sx_choice(3, "serials") + 1 : 0;
    for (unsigned p = 0; p < 3; ++p) {
        const auto &lacing = tables[sx_choice(4, "table")];
        const auto serial = (serials >> p) & 1;
        size_t total = 0;
        for (const auto l : lacing) total += l;
        auto data = std::string(total, static_cast<char>('a' + p));
        if (total && p == 1) data[total > 200 ? 254 : 0] = sx_val<char>("byte");
        const auto bytes = ogg::page(0, 0, serial, p, lacing, data);
        bypage.emplace_back();
        if (!serial) {
            size_t o = s.size() + 27 + lacing.size();
            bool open = false;
            for (const auto l : lacing) {
                if (!open) bypage.back().push_back({ p, bypage.back().size(), o, 0 });
                bypage.back().back().size += l;
                o += l;
                open = l == 255;
            }
            for (const auto &g : bypage.back()) segs.push_back(g);
        }
        s += bytes;
    }
    const auto size = s.size();
    s += "trailing";
    if (filter) s[s.size() - 1] = sx_val<char>("byte");
    Mem m(s);
    OggIterator it(m, start, size);
    sx_assert(!it, "invalid unless reset");
    if (filter) it.setFilter(0);
    it.reset();
    size_t at = 0, off = 0;
    const unsigned steps = SX_THOROUGH ? 3 : 2;
    for (unsigned step = 0; step <= steps; ++step) {
        sx_assert(!!it == (at < segs.size()), "valid as long as there are segments");
        if (at >= segs.size()) {
            sx_assert(it.isLastPageFetched(), "all pages are fetched");
            sx_assert(it.pages().size() == 3, "number of pages");
            return;
        }
        const auto &g = segs[at];
        sx_assert(it.currentPageIndex() == g.page, "page");
        sx_assert(it.currentSegmentIndex() == g.segment, "segment");
        sx_assert(it.currentSegmentOffset() == g.offset, "offset of segment");
        sx_assert(it.currentSegmentSize() == g.size, "size of segment");
        sx_assert(it.currentCharacterOffset() == g.offset + off && it.tellg() == g.offset + off, "offset of character");
        sx_assert(it.bytesReadFromCurrentSegment() == off && it.remainingBytesInCurrentSegment() == g.size - off, "bytes read");
        sx_assert(it.bytesRemaining(size - g.offset - off) && !it.bytesRemaining(size + 1 - g.offset + start - off + start), "bytes remaining");
        if (step == steps) return;
        static const size_t counts[] = { 1, 3, 300 };
        const auto what = sx_choice(9, "what");
        switch (what) {
        case 0:
            ++it;
            ++at, off = 0;
            break;
        case 1:
            it.nextPage();
            while (at < segs.size() && segs[at].page == g.page) ++at;
            off = 0;
            break;
        case 2:
        case 3: {
            size_t to = at;
            if (what == 2) {
                --it;
                to = at ? at - 1 : segs.size();
            } else {
                it.previousPage();
                while (to && segs[to].page == g.page) --to;
                if (segs[to].page == g.page) to = segs.size();
            }
            if (to == segs.size()) {
                sx_assert(!it, "no previous one");
                return;
            }
            at = to, off = 0;
            sx_reach("backward");
            break;
        }
        case 4:
        case 5:
        case 6: {
                auto count = what == 4 ? counts[sx_choice(3, "count")] : what == 5 ? 300 : 1 + sx_choice(3, "count");
            std::string expected;
            size_t pos = at, o = off, left = count;
            while (pos < segs.size() && left > segs[pos].size - o) {
                expected += s.substr(segs[pos].offset + o, segs[pos].size - o);
                left -= segs[pos].size - o;
                ++pos, o = 0;
            }
            if (pos < segs.size()) {
                expected += s.substr(segs[pos].offset + o, left);
                o += left;
            }
            std::string got(count + 2, '#');
            if (what == 5) {
                const auto n = it.readAll(got.data(), count);
                sx_assert(n == expected.size(), "number of bytes which could be read");
                sx_assert_eq(got.substr(0, n), expected, "data");
                sx_assert_eq(got.substr(n), std::string(count + 2 - n, '#'), "nothing else written");
            } else
                try {
                    if (what == 4)
                        it.read(got.data(), count);
                    else
                        it.ignore(count);
                    sx_assert(pos < segs.size(), "not enough data is reported");
                    if (what == 4) sx_assert_eq(got, expected + "##", "data");
                    sx_reach("read");
                } catch (const TruncatedDataException &) {
                    sx_assert(pos >= segs.size(), "enough data");
                    sx_reach("truncated");
                    return;
                }
            if (pos < segs.size() && filter && segs[pos].page != g.page) sx_reach("filtered");
            at = pos, off = o;
            break;
        }
        case 7:
            it.reset();
            at = off = 0;
            break;
        case 8: {
            const auto page = sx_choice(static_cast<unsigned>(it.pages().size()), "page");
            if (bypage[page].empty()) return;
            const auto seg = sx_choice(static_cast<unsigned>(bypage[page].size()), "segment");
            it.setPageIndex(page);
            if (seg || sx_flag("explicit")) it.setSegmentIndex(seg);
            for (at = 0; segs[at].page != page || segs[at].segment != seg;) ++at;
            off = 0;
            break;
        }
        }
    }
}
//@ quick=60 thorough=600 threads=4 reach=found,notfound,refused
SX_HARNESS(resync)
{
    const auto first = ogg::page(2, 0, 1, 0, { 3 }, "abc"), second = ogg::page(0, 1, 1, 1, { 2, 1 }, "def");
    const auto junk = sx_choice(SX_THOROUGH ? 9 : 7, "junk");
    const auto garbage = sx_string(junk, "garbage");
    const bool present = sx_flag("present");
    const auto cut = present ? 0 : sx_choice(2, "cut");
    const auto s = first + garbage + (present ? second : cut ? second.substr(0, second.size() - 1) : std::string());
    Mem m(s);
    OggIterator it(m, 0, s.size());
    it.reset();
    it.read(std::string(2, 0).data(), 2);
    const auto offset = sx_choice(2, "early") ? first.size() - 1 : first.size();
    const auto found = it.resyncAt(offset);
    if (found) {
        sx_assert(s.compare(it.currentPageOffset(), 4, "OggS") == 0, "a page is found");
        if (it.currentPageOffset() < first.size() + junk) return; // the arbitrary bytes form a page
        sx_assert(present && offset == first.size(), "only complete pages are found");
        sx_assert(it.pages().size() == 2 && it.currentPageIndex() == 1 && it.currentSegmentIndex() == 0, "iterator is set to the page");
        sx_assert(it.currentPageOffset() == first.size() + junk, "the next page is found");
        sx_assert(it.currentPage().totalSize() == second.size() && it.currentPage().sequenceNumber() == 1, "page is read");
        sx_assert(it.currentCharacterOffset() == s.size() - 3, "iterator is set to the first segment");
        ++it;
        sx_assert(!!it && it.currentSegmentIndex() == 1, "iteration continues");
        ++it;
        sx_assert(!it, "end");
        sx_reach("found");
    } else {
        sx_assert(!present || offset != first.size(), "the page is found");
        sx_assert(it.pages().size() == 1 && it.currentPageIndex() == 0 && it.bytesReadFromCurrentSegment() == 2, "iterator is kept");
        if (offset == first.size())
            sx_reach("notfound");
        else
            sx_reach("refused");
    }
}
