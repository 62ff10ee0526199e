// Reads MP4 atoms as specified (ISO/IEC 14496-12).
#pragma once
#include "../engine/sx.h"
#include "io.h"
#include <string>
#include <vector>
namespace mp4ref {
struct Atom {
    std::string id;
    size_t start = 0, data = 0, end = 0;
    std::string content(const std::string &s) const { return s.substr(data, end - data); }
    std::string all(const std::string &s) const { return s.substr(start, end - start); }
};
inline Atom read(const std::string &s, size_t o, size_t end)
{
    Atom a;
    a.start = o;
    sx_assert(end - o >= 8, "atom header is complete");
    std::uint64_t size = rdbe(s, o, 4);
    a.id = s.substr(o + 4, 4);
    a.data = o + 8;
    if (size == 1) {
        sx_assert(end - o >= 16, "64-bit atom header is complete");
        size = rdbe(s, o + 8, 8);
        a.data = o + 16;
    } else if (size == 0)
        size = end - o;
    sx_assert(size >= a.data - o && size <= end - o, "atom doesn't exceed its parent");
    a.end = o + static_cast<size_t>(size);
    return a;
}
// children exactly fill the range
inline std::vector<Atom> children(const std::string &s, size_t o, size_t end)
{
    std::vector<Atom> r;
    for (; o < end; o = r.back().end) r.push_back(read(s, o, end));
    return r;
}
inline std::vector<Atom> children(const std::string &s, const Atom &a, size_t skip = 0) { return children(s, a.data + skip, a.end); }
inline std::vector<Atom> byId(const std::vector<Atom> &atoms, const std::string &id)
{
    std::vector<Atom> r;
    for (const auto &a : atoms)
        if (a.id == id) r.push_back(a);
    return r;
}
struct Data {
    unsigned type = 0, country = 0, language = 0;
    std::string value;
};
struct Field {
    std::string id, mean, name;
    std::vector<Data> data;
};
inline Field field(const std::string &s, const Atom &a)
{
    Field f;
    f.id = a.id;
    for (const auto &c : children(s, a)) {
        const auto v = c.content(s);
        sx_assert(v.size() >= 4, "child of field is complete");
        if (c.id == "data") {
            sx_assert(v.size() >= 8 && v[0] == 0, "version of data atom");
            f.data.push_back({ static_cast<unsigned>(rdbe(v, 1, 3)), static_cast<unsigned>(rdbe(v, 4, 2)), static_cast<unsigned>(rdbe(v, 6, 2)), v.substr(8) });
        } else {
            sx_assert((c.id == "mean" || c.id == "name") && rdbe(v, 0, 4) == 0, "child of field");
            (c.id == "mean" ? f.mean : f.name) = v.substr(4);
        }
    }
    return f;
}
// fields of a "meta" atom written by the library
inline std::vector<Field> fields(const std::string &s, const Atom &meta)
{
    std::vector<Field> r;
    sx_assert(meta.id == "meta" && rdbe(s, meta.data, 4) == 0, "meta atom");
    const auto c = children(s, meta, 4);
    sx_assert(!c.empty() && c[0].id == "hdlr" && c[0].end - c[0].data == 25 && s.substr(c[0].data + 8, 8) == "mdirappl", "handler of meta atom");
    sx_assert(c.size() <= 2 && (c.size() < 2 || c[1].id == "ilst"), "children of meta atom");
    if (c.size() == 2)
        for (const auto &f : children(s, c[1])) r.push_back(field(s, f));
    return r;
}
} // namespace mp4ref
