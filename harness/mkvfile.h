// Builds whole Matroska files and reads them independently of the library (positions are resolved to what they point to).
#pragma once
#include "media.h"
#include <algorithm>
#include <functional>
#include <map>
#include <vector>
namespace mkvfile {
inline std::string crc32(const std::string &data)
{
    std::uint32_t crc = 0xFFFFFFFF;
    for (const char c : data) {
        crc ^= static_cast<unsigned char>(c);
        for (unsigned i = 0; i < 8; ++i) crc = (crc >> 1) ^ (0xEDB88320u & (0u - (crc & 1)));
    }
    return le(~crc, 4);
}
using mkv::el;
using mkv::num;
struct Ref {
    unsigned time = 0;
    int cluster = -1, number = -1, state = -1;
    bool operator==(const Ref &o) const { return time == o.time && cluster == o.cluster && number == o.number && state == o.state; }
};
struct TrackPos {
    unsigned track = 1;
    int cluster = 0, block = -1; // block: index of the block the relative position refers to
    int duration = -1, number = -1, state = -1; // state: index of cluster
    std::vector<Ref> refs;
    bool operator==(const TrackPos &o) const
    {
        return track == o.track && cluster == o.cluster && block == o.block && duration == o.duration && number == o.number && state == o.state && refs == o.refs;
    }
};
struct Cue {
    unsigned time = 0;
    std::vector<TrackPos> positions;
    bool operator==(const Cue &o) const { return time == o.time && positions == o.positions; }
};
struct Cluster {
    std::vector<std::string> blocks; // raw elements in order
    bool position = false, prevSize = false;
    unsigned positionWidth = 0; // minimal if zero
    bool unknownPosition = false; // whether to store zero
    bool crc = false;
    std::string front; // elements to put at the front, e.g. "Void"- or "CRC-32"-elements
    int sizeLength = 0; // minimal if zero, unknown size if -1
};
enum Part { SeekHead, Info, Tracks, Chapters, Tags, Attachments, Cues, Void, Clusters, SeekHead2, PartCount };
static const std::uint32_t partIds[] = { 0x114D9B74, 0x1549A966, 0x1654AE6B, 0x1043A770, 0x1254C367, 0x1941A469, 0x1C53BB6B, 0xEC, 0x1F43B675, 0x114D9B74 };
struct Segment {
    std::vector<Part> order;
    std::string parts[PartCount]; // raw elements except for those which are generated
    std::vector<Part> seek, seek2; // what to refer to
    std::vector<Cluster> clusters;
    std::vector<Cue> cues;
    unsigned voidSize = 0; // total size of "Void"-element
    bool crc = false;
    int sizeLength = 8;
    unsigned cueWidth = 2, seekWidth = 4; // number of bytes of positions
};
inline std::string voidEl(unsigned total)
{
    if (!total) return {};
    return total < 66 ? el(0xEC, std::string(total - 2, '\0'), 1) : el(0xEC, std::string(total - 9, '\0'), 8);
}
inline std::string build(const Segment &seg)
{
    std::vector<size_t> clusterPos(seg.clusters.size()), clusterSize(seg.clusters.size());
    std::vector<std::vector<size_t>> blockPos(seg.clusters.size());
    size_t partPos[PartCount] = {};
    std::string s;
    for (unsigned pass = 0; pass < 2; ++pass) {
        s = seg.crc ? el(0xBF, std::string(4, '\0')) : std::string();
        const auto seekHead = [&](const std::vector<Part> &parts) {
            std::string r;
            for (const auto p : parts) r += el(0x4DBB, el(0x53AB, mkv::id(partIds[p])) + num(0x53AC, p == Clusters ? (clusterPos.empty() ? 0 : clusterPos[0]) : partPos[p], seg.seekWidth));
            return el(0x114D9B74, r);
        };
        for (const auto p : seg.order) {
            partPos[p] = s.size();
            switch (p) {
            case SeekHead: s += seekHead(seg.seek); break;
            case SeekHead2: s += seekHead(seg.seek2); break;
            case Void: s += voidEl(seg.voidSize); break;
            case Cues: {
                std::string r;
                for (const auto &cue : seg.cues) {
                    auto c = num(0xB3, cue.time, 2);
                    for (const auto &t : cue.positions) {
                        auto x = num(0xF7, t.track) + num(0xF1, clusterPos[static_cast<size_t>(t.cluster)], seg.cueWidth);
                        if (t.block >= 0) x += num(0xF0, pass ? blockPos[static_cast<size_t>(t.cluster)][static_cast<size_t>(t.block)] : 0, seg.cueWidth);
                        if (t.duration >= 0) x += num(0xB2, static_cast<unsigned>(t.duration));
                        if (t.number >= 0) x += num(0x5378, static_cast<unsigned>(t.number));
                        if (t.state >= 0) x += num(0xEA, clusterPos[static_cast<size_t>(t.state)], seg.cueWidth);
                        for (const auto &ref : t.refs) {
                            auto y = num(0x96, ref.time);
                            if (ref.cluster >= 0) y += num(0x97, clusterPos[static_cast<size_t>(ref.cluster)], seg.cueWidth);
                            if (ref.number >= 0) y += num(0x535F, static_cast<unsigned>(ref.number));
                            if (ref.state >= 0) y += num(0xEB, clusterPos[static_cast<size_t>(ref.state)], seg.cueWidth);
                            x += el(0xDB, y);
                        }
                        c += el(0xB7, x);
                    }
                    r += el(0xBB, c);
                }
                s += el(0x1C53BB6B, r);
                break;
            }
            case Clusters:
                for (size_t i = 0; i < seg.clusters.size(); ++i) {
                    const auto &c = seg.clusters[i];
                    clusterPos[i] = s.size();
                    blockPos[i].clear();
                    const size_t offset = c.crc ? 6 : 0;
                    auto d = c.front + num(0xE7, static_cast<unsigned>(i) * 100, 2);
                    if (c.position) d += num(0xA7, c.unknownPosition ? 0 : clusterPos[i], c.positionWidth ? c.positionWidth : clusterPos[i] > 0xFFFF ? 3 : clusterPos[i] > 0xFF ? 2 : 1);
                    if (c.prevSize && i) d += num(0xAB, clusterSize[i - 1], 2);
                    for (const auto &b : c.blocks) {
                        blockPos[i].push_back(offset + d.size());
                        d += b;
                    }
                    if (c.crc) d = el(0xBF, crc32(d)) + d;
                    s += c.sizeLength < 0 ? mkv::id(0x1F43B675) + std::string(1, '\xff') + d : el(0x1F43B675, d, static_cast<unsigned>(c.sizeLength));
                    clusterSize[i] = s.size() - clusterPos[i];
                }
                break;
            default:
                s += seg.parts[p];
            }
        }
    }
    if (seg.crc) {
        const auto crc = crc32(s.substr(6));
        s.replace(2, 4, crc);
    }
    return seg.sizeLength < 0 ? mkv::id(0x18538067) + std::string("\x01\xff\xff\xff\xff\xff\xff\xff", 8) + s : el(0x18538067, s, static_cast<unsigned>(seg.sizeLength));
}
// what's in a segment (independent of the layout)
struct Content {
    std::vector<std::string> info, tracks, chapters, attachments, tags; // raw children
    std::vector<std::vector<std::string>> clusters; // raw children
    std::vector<Cue> cues;
    unsigned padding = 0, seekHeads = 0, crcs = 0, infos = 0;
    bool tagsBefore = false, tagsAfter = false, cuesBefore = false, cuesAfter = false, positions = false;
};
inline bool isLevel1(std::uint32_t id)
{
    for (const auto p : partIds)
        if (id == p && p != 0xEC) return true;
    return false;
}
inline Content read(const std::string &s, const mkvref::El &seg)
{
    Content r;
    std::map<size_t, int> clusterAt;
    std::vector<std::map<size_t, int>> blockAt;
    std::vector<size_t> sizes;
    std::map<size_t, std::uint32_t> idAt;
    std::vector<mkvref::El> cues, seeks;
    bool afterCluster = false;
    unsigned padding = 0;
    const auto raws = [&](const mkvref::El &e, std::vector<std::string> &to) {
        for (const auto &c : mkvref::children(s, e))
            if (c.id != 0xEC && c.id != 0xBF) to.push_back(s.substr(c.start, c.end - c.start));
    };
    for (size_t o = seg.data; o < seg.end;) {
        auto e = mkvref::read(s, o, seg.end);
        idAt[o - seg.data] = e.id;
        switch (e.id) {
        case 0xBF:
            sx_assert(o == seg.data, "CRC-32 comes first");
            sx_assert_eq(s.substr(e.data, e.end - e.data), crc32(s.substr(e.end, seg.end - e.end)), "CRC-32 of segment");
            ++r.crcs;
            break;
        case 0xEC: padding += static_cast<unsigned>(e.end - e.start); break;
        case 0x114D9B74: seeks.push_back(e), ++r.seekHeads; break;
        case 0x1549A966: raws(e, r.info), ++r.infos; break;
        case 0x1654AE6B: raws(e, r.tracks); break;
        case 0x1043A770: raws(e, r.chapters); break;
        case 0x1254C367: raws(e, r.tags), (afterCluster ? r.tagsAfter : r.tagsBefore) = true; break;
        case 0x1941A469: raws(e, r.attachments); break;
        case 0x1C53BB6B: cues.push_back(e), (afterCluster ? r.cuesAfter : r.cuesBefore) = true; break;
        case 0x1F43B675: {
            if (!afterCluster) r.padding = padding;
            afterCluster = true;
            const auto index = static_cast<int>(r.clusters.size());
            clusterAt[o - seg.data] = index;
            r.clusters.emplace_back();
            blockAt.emplace_back();
            const auto unknown = static_cast<unsigned char>(s[o + 4]) == 0xff || s.compare(o + 4, 8, std::string("\x01\xff\xff\xff\xff\xff\xff\xff", 8)) == 0;
            size_t p = e.data;
            int blocks = 0;
            while (p < e.end) {
                const auto c = mkvref::read(s, p, e.end);
                if (unknown && isLevel1(c.id)) {
                    e.end = p;
                    break;
                }
                switch (c.id) {
                case 0xEC: break;
                case 0xBF:
                    sx_assert_eq(s.substr(c.data, c.end - c.data), crc32(s.substr(c.end, e.end - c.end)), "CRC-32 of cluster");
                    break;
                case 0xA7:
                    if (const auto v = rdbe(s, c.data, static_cast<unsigned>(c.end - c.data))) {
                        sx_assert(v == o - seg.data, "Position of cluster");
                        r.positions = true;
                    }
                    break;
                case 0xAB:
                    sx_assert(!sizes.empty() && rdbe(s, c.data, static_cast<unsigned>(c.end - c.data)) == sizes.back(), "PrevSize of cluster");
                    break;
                case 0xA3:
                case 0xA0:
                    blockAt.back()[c.start - e.data] = blocks++;
                    [[fallthrough]];
                default:
                    r.clusters.back().push_back(s.substr(c.start, c.end - c.start));
                }
                p = c.end;
            }
            sizes.push_back(e.end - e.start);
            break;
        }
        default:
            sx_assert(false, "unexpected element in segment");
        }
        o = e.end;
    }
    for (const auto &seek : seeks) {
        for (const auto &c : mkvref::children(s, seek)) {
            if (c.id == 0xEC || c.id == 0xBF) continue;
            sx_assert(c.id == 0x4DBB, "Seek");
            const auto x = mkvref::children(s, c);
            sx_assert(x.size() == 2 && x[0].id == 0x53AB && x[1].id == 0x53AC, "children of Seek");
            const auto pos = rdbe(s, x[1].data, static_cast<unsigned>(x[1].end - x[1].data));
            const auto i = idAt.find(pos);
            sx_assert(i != idAt.end() && i->second == rdbe(s, x[0].data, static_cast<unsigned>(x[0].end - x[0].data)), "SeekHead points to element");
        }
    }
    const auto value = [&](const mkvref::El &e) { return rdbe(s, e.data, static_cast<unsigned>(e.end - e.data)); };
    const auto cluster = [&](const mkvref::El &e) {
        const auto i = clusterAt.find(value(e));
        sx_assert(i != clusterAt.end(), "cue points to cluster");
        return i->second;
    };
    for (const auto &cue : cues) {
        for (const auto &p : mkvref::children(s, cue)) {
            if (p.id == 0xEC || p.id == 0xBF) continue;
            sx_assert(p.id == 0xBB, "CuePoint");
            Cue out;
            for (const auto &c : mkvref::children(s, p)) {
                if (c.id == 0xB3) {
                    out.time = static_cast<unsigned>(value(c));
                } else if (c.id == 0xB7) {
                    TrackPos t;
                    size_t relative = 0;
                    bool hasRelative = false;
                    t.cluster = -1;
                    for (const auto &x : mkvref::children(s, c)) {
                        switch (x.id) {
                        case 0xF7: t.track = static_cast<unsigned>(value(x)); break;
                        case 0xF1: t.cluster = cluster(x); break;
                        case 0xF0: relative = value(x), hasRelative = true; break;
                        case 0xB2: t.duration = static_cast<int>(value(x)); break;
                        case 0x5378: t.number = static_cast<int>(value(x)); break;
                        case 0xEA: t.state = cluster(x); break;
                        case 0xDB: {
                            Ref ref;
                            for (const auto &y : mkvref::children(s, x)) {
                                switch (y.id) {
                                case 0x96: ref.time = static_cast<unsigned>(value(y)); break;
                                case 0x97: ref.cluster = cluster(y); break;
                                case 0x535F: ref.number = static_cast<int>(value(y)); break;
                                case 0xEB: ref.state = cluster(y); break;
                                default: sx_assert(false, "unexpected element in CueReference");
                                }
                            }
                            t.refs.push_back(ref);
                            break;
                        }
                        default: sx_assert(false, "unexpected element in CueTrackPositions");
                        }
                    }
                    sx_assert(t.cluster >= 0, "CueClusterPosition is present");
                    if (hasRelative) {
                        const auto &b = blockAt[static_cast<size_t>(t.cluster)];
                        const auto i = b.find(relative);
                        sx_assert(i != b.end(), "CueRelativePosition points to block");
                        t.block = i->second;
                    }
                    out.positions.push_back(t);
                } else {
                    sx_assert(c.id == 0xEC || c.id == 0xBF, "unexpected element in CuePoint");
                }
            }
            r.cues.push_back(out);
        }
    }
    return r;
}
struct File {
    std::vector<std::string> header; // raw children
    std::vector<Content> segments;
};
inline File readFile(const std::string &s)
{
    File f;
    bool first = true;
    for (const auto &e : mkvref::children(s, 0, s.size())) {
        if (first) {
            sx_assert(e.id == 0x1A45DFA3, "EBML header comes first");
            for (const auto &c : mkvref::children(s, e))
                if (c.id != 0xEC && c.id != 0xBF) f.header.push_back(s.substr(c.start, c.end - c.start));
            first = false;
        } else if (e.id == 0x18538067) {
            f.segments.push_back(read(s, e));
        } else {
            sx_assert(e.id == 0xEC, "unexpected element at top-level");
        }
    }
    return f;
}
// children of an element with the integers in minimal form; sorted as the order usually does not matter
inline std::vector<std::string> normalized(const std::string &raw, std::initializer_list<std::uint32_t> integers)
{
    std::vector<std::string> r;
    for (const auto &c : mkvref::children(raw, mkvref::read(raw, 0, raw.size()))) {
        if (c.id == 0xEC || c.id == 0xBF) continue;
        auto data = c.content(raw);
        if (std::find(integers.begin(), integers.end(), c.id) != integers.end()) data = be(rdbe(data, 0, static_cast<unsigned>(data.size())), 8);
        r.push_back(mkv::id(c.id) + data);
    }
    std::stable_sort(r.begin(), r.end(), [](const std::string &a, const std::string &b) { return a.substr(0, 2) < b.substr(0, 2); });
    return r;
}
inline void same(const std::vector<std::string> &a, const std::vector<std::string> &b, const char *what)
{
    sx_assert(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size(); ++i) {
        sx_assert(a[i].size() == b[i].size(), what);
        sx_assert_eq(a[i], b[i], what);
    }
}
} // namespace mkvfile
