// In-memory file system behind NativeFileStream and std::filesystem.
#include "../engine/sx.h"
#include "fs.h"
#include <c++utilities/io/nativefilestream.h>
#include <cerrno>
#include <cstring>
#include <ctime>
#include <filesystem>
#include <map>
#include <memory>
#include <streambuf>
#include <system_error>

namespace {
struct MemFile {
    std::string data;
};
struct State {
    std::map<std::string, std::shared_ptr<MemFile>> files;
    unsigned ops = 0, failAt = 0;
    unsigned times = 1;
    bool sticky = false, hit = false;
    std::string hitOp;
};
State &st()
{
    static State *s = new State;
    return *s;
}
bool fault(const char *op, const std::string &what)
{
    auto &s = st();
    ++s.ops;
    if (s.failAt && (s.ops == s.failAt || (s.sticky && s.ops > s.failAt) || (s.ops > s.failAt && s.ops - s.failAt < s.times))) {
        if (!s.hit) s.hitOp = op + (" " + what);
        s.hit = true;
        return true;
    }
    return false;
}
std::string norm(const std::string &p)
{
    std::string r = p;
    // the model's working directory is "/w"
    if (r.compare(0, 3, "/w/") == 0) r.erase(0, 3);
    while (r.compare(0, 2, "./") == 0) r.erase(0, 2);
    return r;
}
class MemBuf : public std::basic_streambuf<char> {
public:
    std::shared_ptr<MemFile> f;
    std::string name;
    std::ios_base::openmode mode;
    std::int64_t pos = 0;
    bool opened = true;
    std::string pending; // written but not in the file yet, like std::filebuf; pos denotes where it belongs

    ~MemBuf() override { close(); }
    bool flush()
    {
        if (pending.empty()) return true;
        if (fault("write", name)) return false;
        auto &d = f->data;
        if (mode & std::ios_base::app) pos = static_cast<std::int64_t>(d.size());
        if (pos < 0) return false;
        const std::int64_t n = static_cast<std::int64_t>(pending.size());
        if (static_cast<std::uint64_t>(pos + n) > (1u << 24)) throw std::length_error("sx: file too large for the file system model");
        if (static_cast<size_t>(pos + n) > d.size()) d.resize(static_cast<size_t>(pos + n));
        memcpy(&d[static_cast<size_t>(pos)], pending.data(), static_cast<size_t>(n));
        pos += n;
        pending.clear();
        return true;
    }
    // closing gives no account of failures (as the real class does not)
    void close()
    {
        if (!opened) return;
        try {
            flush();
        } catch (const std::length_error &) {
        }
        pending.clear();
        opened = false;
    }

protected:
    std::streamsize xsgetn(char *p, std::streamsize n) override
    {
        if (!opened || !(mode & std::ios_base::in) || n <= 0 || !flush()) return 0;
        const std::int64_t size = static_cast<std::int64_t>(f->data.size());
        if (pos >= size) return 0;
        pos = static_cast<std::int64_t>(sx_concretize(static_cast<std::uint64_t>(pos)));
        const std::int64_t avail = size - pos;
        if (n > avail) n = avail;
        n = static_cast<std::int64_t>(sx_concretize(static_cast<std::uint64_t>(n)));
        memcpy(p, f->data.data() + pos, static_cast<size_t>(n));
        pos += n;
        return n;
    }
    int_type underflow() override
    {
        if (!opened || !(mode & std::ios_base::in) || !flush()) return traits_type::eof();
        if (pos >= static_cast<std::int64_t>(f->data.size())) return traits_type::eof();
        pos = static_cast<std::int64_t>(sx_concretize(static_cast<std::uint64_t>(pos)));
        return static_cast<unsigned char>(f->data[static_cast<size_t>(pos)]);
    }
    int_type uflow() override
    {
        const auto c = underflow();
        if (c != traits_type::eof()) ++pos;
        return c;
    }
    int_type pbackfail(int_type) override
    {
        if (!opened || !flush() || pos <= 0) return traits_type::eof();
        --pos;
        return 0;
    }
    std::streamsize showmanyc() override
    {
        const auto size = static_cast<std::int64_t>(f->data.size());
        return pos < size ? size - pos : -1;
    }
    std::streamsize xsputn(const char *p, std::streamsize n) override
    {
        if (!opened || !(mode & std::ios_base::out) || n <= 0) return 0;
        pos = static_cast<std::int64_t>(sx_concretize(static_cast<std::uint64_t>(pos)));
        n = static_cast<std::int64_t>(sx_concretize(static_cast<std::uint64_t>(n)));
        if (static_cast<std::uint64_t>(n) > (1u << 24)) throw std::length_error("sx: file too large for the file system model");
        const size_t before = pending.size();
        pending.append(p, static_cast<size_t>(n));
        if (pending.size() >= 8191 && !flush()) {
            pending.resize(before);
            return 0;
        }
        return n;
    }
    int_type overflow(int_type c) override
    {
        if (c == traits_type::eof()) return 0;
        const char ch = static_cast<char>(c);
        return xsputn(&ch, 1) == 1 ? static_cast<unsigned char>(ch) : traits_type::eof();
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        if (!opened) return pos_type(off_type(-1));
        if (dir == std::ios_base::cur && off == 0) return pos_type(pos + static_cast<std::int64_t>(pending.size()));
        if (!flush()) return pos_type(off_type(-1));
        std::int64_t base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? pos : static_cast<std::int64_t>(f->data.size());
        const std::int64_t np = base + off;
        if (np < 0) return pos_type(off_type(-1));
        pos = np;
        return pos_type(np);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
    int sync() override { return !opened || flush() ? 0 : -1; }
};
} // namespace

void fs_put(const std::string &path, const std::string &bytes)
{
    auto &e = st().files[norm(path)];
    e = std::make_shared<MemFile>();
    e->data = bytes;
}
std::string fs_get(const std::string &path)
{
    auto i = st().files.find(norm(path));
    return i == st().files.end() ? std::string() : i->second->data;
}
void fs_remove(const std::string &path) { st().files.erase(norm(path)); }
bool fs_exists(const std::string &path) { return st().files.count(norm(path)) != 0; }
std::vector<std::string> fs_list()
{
    std::vector<std::string> r;
    for (auto &e : st().files) r.push_back(e.first);
    return r;
}
void fs_fail_at(unsigned n, bool sticky)
{
    st().failAt = n;
    st().sticky = sticky;
    st().times = 1;
    st().ops = 0;
    st().hit = false;
}
void fs_fail_times(unsigned n, unsigned times)
{
    fs_fail_at(n, false);
    st().times = times;
}
bool fs_fault_hit() { return st().hit; }
unsigned fs_op_count() { return st().ops; }
std::string fs_fault_op() { return st().hitOp; }
void fs_fail_off() { st().failAt = 0; }

namespace CppUtilities {
NativeFileStream::FileBuffer::FileBuffer(std::basic_streambuf<char> *b)
    : buffer(b)
{
}
NativeFileStream::NativeFileStream()
    : std::iostream(nullptr)
    , m_data(nullptr)
{
    // starts like the real one: a buffer which is not open, state good
    auto b = std::make_unique<MemBuf>();
    b->f = std::make_shared<MemFile>();
    b->opened = false;
    b->mode = std::ios_base::in;
    m_data = FileBuffer(b.release());
    init(m_data.buffer.get());
}
NativeFileStream::~NativeFileStream() { }
bool NativeFileStream::isOpen() const { return m_data.buffer && static_cast<MemBuf *>(m_data.buffer.get())->opened; }
void NativeFileStream::setData(FileBuffer data, std::ios_base::openmode openMode)
{
    rdbuf(data.buffer.get());
    m_data = std::move(data);
    m_openMode = openMode;
}
void NativeFileStream::open(const std::string &path, std::ios_base::openmode mode)
{
    using namespace std;
    auto fail = [](int e) { throw std::ios_base::failure("Unable to open file", std::error_code(e, std::system_category())); };
    auto p = norm(path);
    auto &files = st().files;
    auto i = files.find(p);
    if (fault("open", p)) fail(EACCES);
    if ((mode & ios_base::trunc) || ((mode & ios_base::out) && !(mode & ios_base::in)) || (mode & ios_base::app)) {
        if (i == files.end()) {
            auto slash = p.rfind('/');
            if (slash != std::string::npos && slash > 0) {
                // the directory must hold a file already or be a plain scratch directory
                bool any = false;
                for (auto &e : files)
                    if (e.first.compare(0, slash + 1, p, 0, slash + 1) == 0) any = true;
                if (!any) fail(ENOENT);
            }
            i = files.emplace(p, std::make_shared<MemFile>()).first;
        } else if (!(mode & ios_base::app))
            i->second->data.clear();
    } else if (i == files.end())
        fail(ENOENT);
    auto b = std::make_unique<MemBuf>();
    b->f = i->second;
    b->name = p;
    b->mode = mode;
    if (mode & ios_base::ate) b->pos = static_cast<std::int64_t>(b->f->data.size());
    setData(FileBuffer(b.release()), mode);
}
void NativeFileStream::close()
{
    if (!m_data.buffer) return;
    static_cast<MemBuf *>(m_data.buffer.get())->close();
}
} // namespace CppUtilities

namespace std::filesystem {
static std::string ps(const path &p) { return norm(p.native()); }
static bool isDir(const std::string &p)
{
    if (p.empty() || p == "." || p == "/" || p == "..") return true;
    std::string d = p;
    if (d.back() != '/') d += '/';
    for (auto &e : st().files)
        if (e.first.compare(0, d.size(), d) == 0) return true;
    return false;
}
path canonical(const path &p, error_code &ec)
{
    ec.clear();
    if (!st().files.count(ps(p)) && !isDir(ps(p))) {
        ec.assign(ENOENT, generic_category());
        return path();
    }
    return path("/w/" + ps(p));
}
file_status status(const path &p, error_code &ec) noexcept
{
    ec.clear();
    if (st().files.count(ps(p))) return file_status(file_type::regular, perms::owner_all);
    if (isDir(ps(p))) return file_status(file_type::directory, perms::owner_all);
    ec.assign(ENOENT, generic_category());
    return file_status(file_type::not_found);
}
void rename(const path &a, const path &b, error_code &ec) noexcept
{
    ec.clear();
    auto &f = st().files;
    auto i = f.find(ps(a));
    if (fault("rename", ps(a))) {
        ec.assign(EXDEV, generic_category());
        return;
    }
    auto slash = ps(b).rfind('/');
    if (i == f.end() || (slash != std::string::npos && !isDir(ps(b).substr(0, slash)))) {
        ec.assign(ENOENT, generic_category());
        return;
    }
    auto file = i->second;
    f.erase(i);
    f[ps(b)] = file;
}
bool copy_file(const path &a, const path &b, copy_options, error_code &ec)
{
    ec.clear();
    auto &f = st().files;
    auto i = f.find(ps(a));
    if (fault("copy_file", ps(a))) {
        // leaves an incomplete copy, like running out of space does
        const auto slash = ps(b).rfind('/');
        if (i != f.end() && !f.count(ps(b)) && (slash == std::string::npos || isDir(ps(b).substr(0, slash)))) {
            auto part = std::make_shared<MemFile>();
            part->data = i->second->data.substr(0, i->second->data.size() / 2);
            f[ps(b)] = part;
        }
        ec.assign(EIO, generic_category());
        return false;
    }
    const auto slash = ps(b).rfind('/');
    if (i == f.end() || (slash != std::string::npos && !isDir(ps(b).substr(0, slash)))) {
        ec.assign(ENOENT, generic_category());
        return false;
    }
    if (f.count(ps(b))) {
        ec.assign(EEXIST, generic_category());
        return false;
    }
    auto n = std::make_shared<MemFile>();
    n->data = i->second->data;
    f[ps(b)] = n;
    return true;
}
bool remove(const path &p, error_code &ec) noexcept
{
    ec.clear();
    if (fault("remove", ps(p))) {
        ec.assign(EACCES, generic_category());
        return false;
    }
    return st().files.erase(ps(p)) != 0;
}
void resize_file(const path &p, uintmax_t n, error_code &ec) noexcept
{
    ec.clear();
    auto i = st().files.find(ps(p));
    if (fault("resize_file", ps(p))) {
        ec.assign(EIO, generic_category());
        return;
    }
    if (i == st().files.end()) {
        ec.assign(ENOENT, generic_category());
        return;
    }
    n = sx_concretize(n);
    if (n > (1u << 24)) {
        ec.assign(EFBIG, generic_category());
        return;
    }
    i->second->data.resize(n);
}
} // namespace std::filesystem
