// Harness file access in replay: real files in the scratch directory the replay runs in.
#include "fs.h"
#include <algorithm>
#include <filesystem>
#include <stdexcept>
#include <fstream>
#include <sstream>
namespace fs = std::filesystem;
static std::string rel(const std::string &p)
{
    // harnesses use plain relative names; never leave the scratch directory
    if (p.empty() || p[0] == '/' || p.find("..") != std::string::npos) throw std::runtime_error("harness path outside of the scratch directory: " + p);
    return p;
}
void fs_put(const std::string &path, const std::string &bytes)
{
    auto p = fs::path(rel(path));
    if (p.has_parent_path()) fs::create_directories(p.parent_path());
    std::ofstream(p, std::ios::binary | std::ios::trunc) << bytes;
}
std::string fs_get(const std::string &path)
{
    std::ifstream f(rel(path), std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
void fs_remove(const std::string &path) { fs::remove(rel(path)); }
bool fs_exists(const std::string &path) { return fs::is_regular_file(rel(path)); }
std::vector<std::string> fs_list()
{
    std::vector<std::string> r;
    for (auto &e : fs::recursive_directory_iterator("."))
        if (e.is_regular_file()) r.push_back(e.path().lexically_normal().string());
    std::sort(r.begin(), r.end());
    return r;
}
void fs_fail_times(unsigned, unsigned) { throw std::runtime_error("fault injection needs the file-system model"); }
void fs_fail_at(unsigned, bool) { throw std::runtime_error("fault injection needs the file-system model"); }
bool fs_fault_hit() { return false; }
unsigned fs_op_count() { return 0; }
std::string fs_fault_op() { return {}; }
void fs_fail_off() { }
