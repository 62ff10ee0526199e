// Native replay of one input: same harness API, no instrumentation. argv: harness input-hex. Runs in a scratch directory.
// exit: 0 passed, 1 assertion failed, 2 uncaught exception, 3 assumption not met, 4 allocation limit, 5 timeout, 6 crash, 7 memory error (ASan)
#include "sx.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <set>
#include <string>
#include <typeinfo>
#include <filesystem>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static std::string input;
static size_t pos;
static std::set<std::string> reached;
static uint64_t allocLimit = uint64_t(64) << 20;
static bool active;

static void finish(int code, const char *what, const char *msg)
{
    active = false;
    for (auto &r : reached) printf("reach %s\n", r.c_str());
    printf("%s %s\n", what, msg);
    fflush(stdout);
    fflush(stderr);
    _exit(code);
}
extern "C" {
void sx_sym(void *p, size_t n, const char *)
{
    for (size_t i = 0; i < n; ++i) ((unsigned char *)p)[i] = pos < input.size() ? (unsigned char)input[pos] : 0, ++pos;
}
void sx_assume_(int c)
{
    if (!c) finish(3, "assumption", "not met");
}
void sx_assert_(int c, const char *msg)
{
    if (!c) finish(1, "assert", msg);
}
void sx_assert_eqmem(const void *a, const void *b, size_t n, const char *msg)
{
    for (size_t i = 0; i < n; ++i)
        if (((unsigned char *)a)[i] != ((unsigned char *)b)[i]) {
            char t[1024];
            snprintf(t, sizeof t, "%s (byte %zu: %02x instead of %02x)", msg, i, ((unsigned char *)a)[i], ((unsigned char *)b)[i]);
            finish(1, "assert", t);
        }
}
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_reach(const char *l) { reached.insert(std::string(l).substr(0, 47)); }
void sx_pause(void) { }
void sx_resume(void) { }
int sx_native(void) { return 1; }
int sx_is_symbolic(const void *, size_t) { return 0; }
void sx_note(const char *f, ...)
{
    va_list a;
    va_start(a, f);
    vfprintf(stdout, f, a);
    va_end(a);
    fputc('\n', stdout);
}
void sx_alloc_limit(uint64_t b) { allocLimit = b; }
void sx_untrack(void *, size_t) { }
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
void __asan_on_error()
{
    fflush(stdout);
}
const char *__asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=0:abort_on_error=0:exitcode=7:alloc_dealloc_mismatch=1:"
           "detect_odr_violation=0:detect_container_overflow=0";
}
}
static void onMalloc(const volatile void *, size_t n)
{
    if (active && n > allocLimit) finish(4, "resource", "allocation limit of the harness");
}
static void onFree(const volatile void *) { }
SxHarnessEntry *&SxHarnessEntry::list()
{
    static SxHarnessEntry *l = nullptr;
    return l;
}
SxHarnessEntry::SxHarnessEntry(const char *n, void (*f)())
    : name(n)
    , fn(f)
{
    next = list();
    list() = this;
}
int main(int argc, char **argv)
{
    if (argc < 3) {
        for (auto *e = SxHarnessEntry::list(); e; e = e->next) puts(e->name);
        return 0;
    }
    void (*fn)() = nullptr;
    for (auto *e = SxHarnessEntry::list(); e; e = e->next)
        if (!strcmp(e->name, argv[1])) fn = e->fn;
    if (!fn) return 9;
    const std::string h = argv[2];
    for (size_t k = 0; k + 1 < h.size(); k += 2) input += (char)strtoul(h.substr(k, 2).c_str(), nullptr, 16);
    char dir[] = "/tmp/sxreplay.XXXXXX";
    if (!mkdtemp(dir) || chdir(dir)) return 9;
    pid_t pid = fork();
    if (!pid) {
        struct rlimit rl = { 20, 21 }, rc = { 0, 0 };
        setrlimit(RLIMIT_CPU, &rl);
        setrlimit(RLIMIT_CORE, &rc);
        alarm(120);
        if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
        active = true;
        try {
            fn();
        } catch (const std::exception &e) {
            int st = 0;
            char *d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
            finish(2, "uncaught exception", ((d ? d : "?") + std::string(": ") + e.what()).c_str());
        } catch (...) {
            auto *ti = abi::__cxa_current_exception_type();
            int st = 0;
            char *d = ti ? abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st) : nullptr;
            finish(2, "uncaught exception", d ? d : "?");
        }
        finish(0, "passed", "");
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::error_code ec;
    std::filesystem::current_path("/", ec);
    std::filesystem::remove_all(dir, ec);
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) {
        puts("timeout");
        return 5;
    }
    printf("crash: signal %d\n", WTERMSIG(st));
    return 6;
}
