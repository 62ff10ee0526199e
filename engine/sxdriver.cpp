// Explores every feasible path of a harness: runs the instrumented code on an input, takes the recorded
// path constraints and asks the solver, for each place where the run could have gone another way, whether
// some input does so. Ends when no alternative is left (exhaustive within the harness's bounds) or the budget is used up.
#include "sxproto.h"
#include "sxeval.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <mutex>
#include <poll.h>
#include <queue>
#include <random>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
using Clock = std::chrono::steady_clock;
static double secs(Clock::time_point a, Clock::time_point b) { return std::chrono::duration<double>(b - a).count(); }
static inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

// ------------------------------------------------------------------ options and results
static std::string exe, harness, outFile;
static unsigned threads = 8, queryTimeout = 10000, runTimeout = 10, enumCap = 300;
static double budget = 60;
static u64 maxPaths = ~0ull;
static u64 seed = 1;
static bool verbose = false, stopFirst = false;
static u64 maxViol = 12;
static Clock::time_point t0;

struct Job {
    std::vector<u8> in;
    u32 bound = 0; // constraints below this index are inherited
    u64 prefix = 0; // hash of the inherited constraints
    u32 site = 0;
    int prio = 0;
    u64 rnd = 0;
};
struct JobLess {
    bool operator()(const std::shared_ptr<Job> &a, const std::shared_ptr<Job> &b) const
    {
        return a->prio != b->prio ? a->prio > b->prio : a->rnd > b->rnd;
    }
};
static std::priority_queue<std::shared_ptr<Job>, std::vector<std::shared_ptr<Job>>, JobLess> jobs;
static std::mutex jobMx;
static std::condition_variable jobCv;
static unsigned busy = 0;
static std::atomic<bool> stopAll { false };
static std::unordered_map<u64, u32> siteCount;

struct Violation {
    std::string kind, message;
    std::vector<u8> in;
    std::string vars;
};
static struct {
    std::mutex mx;
    u64 paths = 0, ok = 0, assume = 0, limit = 0, resource = 0, timeout = 0, viol = 0, diverged = 0;
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, byteDomain = 0, trivial = 0, enumCapHit = 0;
    u64 asserts = 0, symAsserts = 0, assertProved = 0, boundsProved = 0;
    u64 lostRuns = 0, sampledRuns = 0;
    double solver = 0, maxQuery = 0;
    std::map<std::string, u64> reach, lostMsg, limitMsg, divMsg, unkMsg;
    std::vector<Violation> violations;
    std::set<std::string> violKeys;
    u64 maxVars = 0, maxCons = 0;
    std::vector<std::string> samples;
    std::map<std::string, double> siteTime;
} R;

static std::string jsonStr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (c < 32 || c > 126)
            snprintf(b, sizeof b, "\\u%04x", c), o += b;
        else
            o += c;
    }
    return o + "\"";
}
static std::string hex(const std::vector<u8> &v)
{
    std::string s;
    char b[4];
    for (u8 c : v) snprintf(b, sizeof b, "%02x", c), s += b;
    return s;
}

// ------------------------------------------------------------------ query cache
struct Cached {
    bool sat;
    std::vector<std::pair<u32, u8>> model;
};
struct Key {
    u64 a, b;
    bool operator==(const Key &o) const { return a == o.a && b == o.b; }
};
struct KeyHash {
    size_t operator()(const Key &k) const { return k.a ^ (k.b * 0x9e3779b97f4a7c15ull); }
};
static struct {
    std::mutex mx;
    std::unordered_map<Key, Cached, KeyHash> m;
} cacheShard[64];

typedef std::bitset<256> ByteSet;

// ------------------------------------------------------------------ worker
struct Worker {
    unsigned id;
    SxShared *G = nullptr;
    int shm = -1, toChild = -1, fromChild = -1;
    pid_t pid = -1;
    Z3_context ctx = nullptr;
    Z3_solver solver = nullptr;
    std::mt19937_64 rng;
    u64 sinceReset = 0;

    // per-run memo
    std::vector<Z3_ast> ast; // by node
    std::vector<u32> astTouched;
    std::vector<u32> vsetOf; // node -> var set id + 1
    std::vector<u32> vsetTouched;
    std::vector<std::vector<u32>> vsets;
    std::map<std::pair<u32, u32>, u32> vunion;
    std::map<std::vector<u32>, u32> vsetIds;

    SxNode &N(u32 i) { return G->nodes[i]; }

    bool start()
    {
        if (!G) {
            shm = memfd_create("sx", 0);
            if (shm < 0 || ftruncate(shm, sizeof(SxShared))) return false;
            G = (SxShared *)mmap(nullptr, sizeof(SxShared), PROT_READ | PROT_WRITE, MAP_SHARED, shm, 0);
            if (G == MAP_FAILED) return false;
        }
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return false;
        static std::mutex forkMx;
        std::lock_guard<std::mutex> l(forkMx);
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            close(a[1]);
            close(b[0]);
            // fixed descriptor numbers, so that every worker's process looks alike
            dup2(shm, 200), dup2(a[0], 201), dup2(b[1], 202);
            for (int f = 3; f < 190; ++f) close(f);
            personality(ADDR_NO_RANDOMIZE);
            char t[16];
            snprintf(t, sizeof t, "%u", runTimeout);
            static char env1[] = "TZ=UTC", env2[] = "LC_ALL=C";
            char *envp[] = { env1, env2, nullptr };
            const char *argv[] = { "sxharness", harness.c_str(), "200", "201", "202", t, nullptr };
            execve(exe.c_str(), const_cast<char **>(argv), envp);
            _exit(127);
        }
        close(a[0]);
        close(b[1]);
        fcntl(a[1], F_SETFD, FD_CLOEXEC);
        fcntl(b[0], F_SETFD, FD_CLOEXEC);
        toChild = a[1];
        fromChild = b[0];
        return pid > 0;
    }
    void stop()
    {
        if (pid > 0) {
            close(toChild);
            close(fromChild);
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            int st;
            waitpid(pid, &st, 0);
            pid = -1;
        }
    }
    // returns wait status or -1
    int run(const std::vector<u8> &in)
    {
        SxHeader &h = G->h;
        h.inputLen = std::min<size_t>(in.size(), SX_MAX_INPUT);
        memcpy(h.input, in.data(), h.inputLen);
        h.status = SXS_RUNNING;
        h.nNodes = 1;
        h.nConstraints = h.nAlts = h.nElems = 0;
        h.varCount = 0;
        h.wantLog = getenv("SX_LOG") != nullptr;
        char c = 1;
        if (write(toChild, &c, 1) != 1) return -1;
        struct pollfd pf = { fromChild, POLLIN, 0 };
        int st;
        if (poll(&pf, 1, (int)runTimeout * 5000 + 5000) <= 0 || read(fromChild, &st, sizeof st) != sizeof st) {
            stop();
            start();
            return -1;
        }
        return st;
    }

    // ---------------------------------------------------------- Z3
    void newContext()
    {
        if (ctx) {
            Z3_solver_dec_ref(ctx, solver);
            Z3_del_context(ctx);
        }
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        ctx = Z3_mk_context(cfg);
        Z3_set_error_handler(ctx, nullptr);
        Z3_del_config(cfg);
        solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, solver);
        setParams(solver);
        sinceReset = 0;
        // Z3_mk_context (without rc) keeps every ast of this context alive
    }
    void setParams(Z3_solver s)
    {
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), queryTimeout);
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
    }
    std::unordered_map<u32, Z3_ast> varAst;
    Z3_ast var(u32 v)
    {
        auto it = varAst.find(v);
        if (it != varAst.end()) return it->second;
        return varAst[v] = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), Z3_mk_bv_sort(ctx, 8));
    }
    Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
    bool hasFp = false;
    Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
    Z3_ast toF(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, a, fsort(w)); }
    Z3_ast bvOfBool(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }

    Z3_ast mux(SxTable &t, Z3_ast idx, unsigned bit, u32 lo, u32 n, std::map<std::vector<u32>, Z3_ast> *memo)
    {
        (void)memo;
        // elements [lo, lo+n) with n a power of two (elements past the end are don't-care)
        u32 first = 0;
        bool same = true;
        for (u32 i = lo; i < lo + n && i < t.count; ++i) {
            u32 e = G->elems[t.first + i];
            if (!first)
                first = e;
            else if (e != first)
                same = false;
        }
        if (!first) return nullptr;
        if (same || n == 1) return tr(first);
        u32 half = n / 2;
        Z3_ast a = mux(t, idx, bit - 1, lo, half, memo), b = mux(t, idx, bit - 1, lo + half, half, memo);
        if (!b) return a;
        if (a == b) return a;
        return Z3_mk_ite(ctx, Z3_mk_eq(ctx, Z3_mk_extract(ctx, bit - 1, bit - 1, idx), num(1, 1)), b, a);
    }
    Z3_ast tr(u32 root)
    {
        if (ast[root]) return ast[root];
        std::vector<u32> st { root };
        while (!st.empty()) {
            u32 i = st.back();
            if (ast[i]) {
                st.pop_back();
                continue;
            }
            SxNode &n = N(i);
            bool ready = true;
            auto need = [&](u32 k) {
                if (k && !ast[k]) st.push_back(k), ready = false;
            };
            switch (n.op) {
            case SX_CONST:
            case SX_VAR: break;
            case SX_EXTRACT:
            case SX_FROUND: need(n.a); break;
            case SX_TABLE: {
                need(n.a);
                SxTable &t = G->tables[n.b];
                for (u32 k = 0; k < t.count; ++k) need(G->elems[t.first + k]);
                break;
            }
            default: need(n.a), need(n.b), need(n.c);
            }
            if (!ready) continue;
            st.pop_back();
            ast[i] = build(n);
            astTouched.push_back(i);
        }
        return ast[root];
    }
    Z3_ast build(SxNode &n)
    {
        auto A = [&] { return ast[n.a]; };
        auto B = [&] { return ast[n.b]; };
        unsigned w = n.width, wa = n.op > SX_VAR ? N(n.a).width : 0;
        Z3_ast r = nullptr;
        switch (n.op) {
        case SX_CONST: return num(n.val, w);
        case SX_VAR: return var(n.a);
        case SX_ADD: return Z3_mk_bvadd(ctx, A(), B());
        case SX_SUB: return Z3_mk_bvsub(ctx, A(), B());
        case SX_MUL: return Z3_mk_bvmul(ctx, A(), B());
        case SX_UDIV: return Z3_mk_bvudiv(ctx, A(), B());
        case SX_SDIV: return Z3_mk_bvsdiv(ctx, A(), B());
        case SX_UREM: return Z3_mk_bvurem(ctx, A(), B());
        case SX_SREM: return Z3_mk_bvsrem(ctx, A(), B());
        case SX_AND: return Z3_mk_bvand(ctx, A(), B());
        case SX_OR: return Z3_mk_bvor(ctx, A(), B());
        case SX_XOR: return Z3_mk_bvxor(ctx, A(), B());
        case SX_SHL: return Z3_mk_bvshl(ctx, A(), B());
        case SX_LSHR: return Z3_mk_bvlshr(ctx, A(), B());
        case SX_ASHR: return Z3_mk_bvashr(ctx, A(), B());
        case SX_EQ: return bvOfBool(Z3_mk_eq(ctx, A(), B()));
        case SX_ULT: return bvOfBool(Z3_mk_bvult(ctx, A(), B()));
        case SX_ULE: return bvOfBool(Z3_mk_bvule(ctx, A(), B()));
        case SX_SLT: return bvOfBool(Z3_mk_bvslt(ctx, A(), B()));
        case SX_SLE: return bvOfBool(Z3_mk_bvsle(ctx, A(), B()));
        case SX_NOT: return Z3_mk_bvnot(ctx, A());
        case SX_ITE: return Z3_mk_ite(ctx, Z3_mk_eq(ctx, A(), num(1, 1)), B(), ast[n.c]);
        case SX_EXTRACT: return Z3_mk_extract(ctx, n.b + w - 1, n.b, A());
        case SX_CONCAT: return Z3_mk_concat(ctx, A(), B());
        case SX_ZEXT: return Z3_mk_zero_ext(ctx, w - wa, A());
        case SX_SEXT: return Z3_mk_sign_ext(ctx, w - wa, A());
        case SX_TABLE: {
            SxTable &t = G->tables[n.b];
            u32 sz = 1, bits = 0;
            while (sz < t.count) sz *= 2, ++bits;
            return mux(t, A(), bits, 0, sz, nullptr);
        }
        default:;
        }
        hasFp = true;
        Z3_ast rne = Z3_mk_fpa_rne(ctx);
        switch (n.op) {
        case SX_FADD: r = Z3_mk_fpa_add(ctx, rne, toF(A(), w), toF(B(), w)); break;
        case SX_FSUB: r = Z3_mk_fpa_sub(ctx, rne, toF(A(), w), toF(B(), w)); break;
        case SX_FMUL: r = Z3_mk_fpa_mul(ctx, rne, toF(A(), w), toF(B(), w)); break;
        case SX_FDIV: r = Z3_mk_fpa_div(ctx, rne, toF(A(), w), toF(B(), w)); break;
        case SX_FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne, toF(A(), w)); break;
        case SX_FROUND: {
            Z3_ast m = n.b == 0 ? Z3_mk_fpa_rtn(ctx) : n.b == 1 ? Z3_mk_fpa_rtp(ctx) : n.b == 2 ? Z3_mk_fpa_rtz(ctx) : n.b == 3 ? Z3_mk_fpa_rna(ctx) : rne;
            r = Z3_mk_fpa_round_to_integral(ctx, m, toF(A(), w));
            break;
        }
        case SX_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, A(), fsort(w)); break;
        case SX_SITOFP: r = Z3_mk_fpa_to_fp_signed(ctx, rne, A(), fsort(w)); break;
        case SX_FPCVT: r = Z3_mk_fpa_to_fp_float(ctx, rne, toF(A(), wa), fsort(w)); break;
        case SX_FPTOUI: return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), toF(A(), wa), w);
        case SX_FPTOSI: return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), toF(A(), wa), w);
        case SX_FEQ: return bvOfBool(Z3_mk_fpa_eq(ctx, toF(A(), wa), toF(B(), wa)));
        case SX_FLT: return bvOfBool(Z3_mk_fpa_lt(ctx, toF(A(), wa), toF(B(), wa)));
        case SX_FLE: return bvOfBool(Z3_mk_fpa_leq(ctx, toF(A(), wa), toF(B(), wa)));
        case SX_FUNO: {
            Z3_ast x[2] = { Z3_mk_fpa_is_nan(ctx, toF(A(), wa)), Z3_mk_fpa_is_nan(ctx, toF(B(), wa)) };
            return bvOfBool(Z3_mk_or(ctx, 2, x));
        }
        default: fprintf(stderr, "sxdriver: unknown op %u\n", n.op); abort();
        }
        return Z3_mk_fpa_to_ieee_bv(ctx, r);
    }

    // ---------------------------------------------------------- variable sets
    u32 internSet(std::vector<u32> &&v)
    {
        auto it = vsetIds.find(v);
        if (it != vsetIds.end()) return it->second;
        u32 id = vsets.size();
        vsets.push_back(v);
        vsetIds.emplace(std::move(v), id);
        return id;
    }
    u32 unite(u32 a, u32 b)
    {
        if (a == b || !b) return a;
        if (!a) return b;
        if (a > b) std::swap(a, b);
        auto it = vunion.find({ a, b });
        if (it != vunion.end()) return it->second;
        std::vector<u32> v;
        std::set_union(vsets[a].begin(), vsets[a].end(), vsets[b].begin(), vsets[b].end(), std::back_inserter(v));
        u32 id = internSet(std::move(v));
        vunion[{ a, b }] = id;
        return id;
    }
    u32 vset(u32 root)
    {
        std::vector<u32> st { root };
        while (!st.empty()) {
            u32 i = st.back();
            if (vsetOf[i]) {
                st.pop_back();
                continue;
            }
            SxNode &n = N(i);
            u32 ch[3], nc = 0;
            bool table = false;
            switch (n.op) {
            case SX_CONST: break;
            case SX_VAR: break;
            case SX_EXTRACT:
            case SX_FROUND: ch[nc++] = n.a; break;
            case SX_TABLE:
                ch[nc++] = n.a;
                table = true;
                break;
            default:
                if (n.a) ch[nc++] = n.a;
                if (n.b) ch[nc++] = n.b;
                if (n.c) ch[nc++] = n.c;
            }
            bool ready = true;
            for (u32 k = 0; k < nc; ++k)
                if (!vsetOf[ch[k]]) st.push_back(ch[k]), ready = false;
            if (table) {
                SxTable &t = G->tables[n.b];
                for (u32 k = 0; k < t.count; ++k)
                    if (!vsetOf[G->elems[t.first + k]]) st.push_back(G->elems[t.first + k]), ready = false;
            }
            if (!ready) continue;
            st.pop_back();
            u32 s = 0;
            if (n.op == SX_VAR)
                s = internSet({ n.a });
            else {
                for (u32 k = 0; k < nc; ++k) s = unite(s, vsetOf[ch[k]] - 1);
                if (table) {
                    SxTable &t = G->tables[n.b];
                    for (u32 k = 0; k < t.count; ++k) s = unite(s, vsetOf[G->elems[t.first + k]] - 1);
                }
            }
            vsetOf[i] = s + 1;
            vsetTouched.push_back(i);
        }
        return vsetOf[root] - 1;
    }

    // ---------------------------------------------------------- evaluation of a node under a one-byte assignment
    std::vector<u32> order; // scratch: nodes below a root in topological order
    std::unordered_map<u32, u64> ev;
    static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
    bool topo(u32 root, std::vector<u32> &out, size_t cap)
    {
        std::unordered_set<u32> done;
        std::vector<std::pair<u32, bool>> st { { root, false } };
        while (!st.empty()) {
            auto [i, post] = st.back();
            st.pop_back();
            if (done.count(i)) continue;
            if (post) {
                done.insert(i);
                out.push_back(i);
                if (out.size() > cap) return false;
                continue;
            }
            SxNode &n = N(i);
            st.push_back({ i, true });
            if (n.op == SX_CONST || n.op == SX_VAR) continue;
            if (n.op == SX_EXTRACT || n.op == SX_FROUND)
                st.push_back({ n.a, false });
            else if (n.op == SX_TABLE) {
                st.push_back({ n.a, false });
                SxTable &t = G->tables[n.b];
                if (t.count > 512) return false;
                for (u32 k = 0; k < t.count; ++k) st.push_back({ G->elems[t.first + k], false });
            } else {
                if (n.a) st.push_back({ n.a, false });
                if (n.b) st.push_back({ n.b, false });
                if (n.c) st.push_back({ n.c, false });
            }
        }
        return true;
    }
    // satisfying values of a constraint over one byte; false if not handled
    std::unordered_map<u64, ByteSet> byteSets;
    bool byteSet(u32 node, ByteSet &out)
    {
        u64 h = N(node).hash;
        auto it = byteSets.find(h);
        if (it != byteSets.end()) {
            out = it->second;
            return true;
        }
        std::vector<u32> ord;
        if (!topo(node, ord, 600)) return false;
        std::unordered_map<u32, u32> pos;
        std::vector<u64> val(ord.size());
        for (u32 i = 0; i < ord.size(); ++i) pos[ord[i]] = i;
        struct P {
            u32 a, b, c;
        };
        std::vector<P> ps(ord.size());
        for (u32 i = 0; i < ord.size(); ++i) {
            SxNode &n = N(ord[i]);
            if (n.op == SX_CONST || n.op == SX_VAR) continue;
            ps[i].a = pos[n.a];
            if (n.op != SX_EXTRACT && n.op != SX_TABLE && n.op != SX_FROUND) {
                ps[i].b = n.b ? pos[n.b] : 0;
                ps[i].c = n.c ? pos[n.c] : 0;
            }
        }
        out.reset();
        for (unsigned v = 0; v < 256; ++v) {
            for (u32 i = 0; i < ord.size(); ++i) {
                SxNode &n = N(ord[i]);
                unsigned w = n.width;
                u64 m = maskw(w);
                if (n.op == SX_CONST) {
                    val[i] = n.val;
                    continue;
                }
                if (n.op == SX_VAR) {
                    val[i] = v;
                    continue;
                }
                u64 x = val[ps[i].a];
                unsigned wa = N(n.a).width;
                if (n.op == SX_TABLE) {
                    SxTable &t = G->tables[n.b];
                    val[i] = x < t.count ? val[pos[G->elems[t.first + x]]] : 0;
                    continue;
                }
                if (n.op == SX_EXTRACT || n.op == SX_FROUND) {
                    val[i] = evalVals(n.op, w, x, wa, 0, 0, 0, n.b);
                    continue;
                }
                u64 r = evalVals(n.op, w, x, wa, n.b ? val[ps[i].b] : 0, n.b ? N(n.b).width : 0, n.c ? val[ps[i].c] : 0, 0);
                val[i] = r;
            }
            if (val.back()) out.set(v);
        }
        byteSets[h] = out;
        return true;
    }

    // ---------------------------------------------------------- slicing
    std::vector<u32> ufParent;
    std::vector<std::vector<u32>> compCons; // by representative var
    u32 find(u32 x)
    {
        while (ufParent[x] != x) x = ufParent[x] = ufParent[ufParent[x]];
        return x;
    }
    void addToSlices(u32 ci, u32 set)
    {
        if (vsets[set].empty()) return;
        u32 r = find(vsets[set][0]);
        for (u32 v : vsets[set]) {
            u32 q = find(v);
            if (q == r) continue;
            if (compCons[q].size() > compCons[r].size()) std::swap(q, r);
            ufParent[q] = r;
            auto &a = compCons[r], &b = compCons[q];
            a.insert(a.end(), b.begin(), b.end());
            b.clear();
            b.shrink_to_fit();
        }
        compCons[r].push_back(ci);
    }

    enum Res { SAT, UNSAT, UNKNOWN };
    // decides prefix(slice) and the extra nodes; on SAT writes the model into in
    Res query(const std::vector<u32> &extra, u32 set, std::vector<u8> &in)
    {
        std::vector<u32> slice; // constraint nodes
        {
            std::set<u32> comps;
            for (u32 v : vsets[set]) comps.insert(find(v));
            for (u32 c : comps)
                for (u32 ci : compCons[c]) slice.push_back(G->constraints[ci].node);
        }
        // one byte only: decided over its 256 values
        std::set<u32> allVars(vsets[set].begin(), vsets[set].end());
        for (u32 n : slice) {
            if (allVars.size() > 1) break;
            auto &s = vsets[vset(n)];
            allVars.insert(s.begin(), s.end());
        }
        if (allVars.size() == 1) {
            ByteSet acc, b;
            acc.set();
            bool good = true;
            for (u32 n : slice)
                if (!(good = good && byteSet(n, b)))
                    break;
                else
                    acc &= b;
            for (u32 n : extra)
                if (!(good = good && byteSet(n, b)))
                    break;
                else
                    acc &= b;
            if (good) {
                std::lock_guard<std::mutex> l(R.mx);
                ++R.byteDomain;
                if (acc.none()) {
                    ++R.unsat;
                    return UNSAT;
                }
                ++R.sat;
                u32 v = *allVars.begin();
                if (in.size() <= v) in.resize(v + 1);
                in[v] = (u8)acc._Find_first();
                return SAT;
            }
        }
        std::sort(slice.begin(), slice.end());
        slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
        // cache
        std::vector<u64> hs;
        for (u32 n : slice) hs.push_back(N(n).hash);
        for (u32 n : extra) hs.push_back(mix(N(n).hash, 7));
        std::sort(hs.begin(), hs.end());
        Key k { 1, 2 };
        for (u64 h : hs) k.a = mix(k.a, h), k.b = mix(k.b ^ 0x1234567, h * 31 + 11);
        auto &sh = cacheShard[k.a & 63];
        {
            std::lock_guard<std::mutex> l(sh.mx);
            auto it = sh.m.find(k);
            if (it != sh.m.end()) {
                {
                    std::lock_guard<std::mutex> l2(R.mx);
                    ++R.cached;
                    it->second.sat ? ++R.sat : ++R.unsat;
                }
                for (auto &[v, b] : it->second.model) {
                    if (in.size() <= v) in.resize(v + 1);
                    in[v] = b;
                }
                return it->second.sat ? SAT : UNSAT;
            }
        }
        hasFp = false;
        auto q0 = Clock::now();
        std::vector<Z3_ast> as;
        for (u32 n : slice) as.push_back(Z3_mk_eq(ctx, tr(n), num(1, 1)));
        for (u32 n : extra) as.push_back(Z3_mk_eq(ctx, tr(n), num(1, 1)));
        bool fp = hasFp;
        if (!fp)
            for (u32 n : slice) fp = fp || usesFp(n);
        if (!fp)
            for (u32 n : extra) fp = fp || usesFp(n);
        Z3_solver s = solver;
        if (fp) {
            s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
            Z3_solver_inc_ref(ctx, s);
            setParams(s);
        } else
            Z3_solver_reset(ctx, s);
        for (auto a : as) Z3_solver_assert(ctx, s, a);
        Z3_lbool r = Z3_solver_check(ctx, s);
        Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
        std::vector<std::pair<u32, u8>> model;
        if (res == SAT) {
            Z3_model m = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, m);
            std::set<u32> vars;
            for (u32 n : slice) vars.insert(vsets[vset(n)].begin(), vsets[vset(n)].end());
            vars.insert(vsets[set].begin(), vsets[set].end());
            for (u32 v : vars) {
                Z3_ast o = nullptr;
                uint64_t x = 0;
                if (Z3_model_eval(ctx, m, var(v), true, &o) && Z3_get_numeral_uint64(ctx, o, &x)) {
                    if (in.size() <= v) in.resize(v + 1);
                    in[v] = (u8)x;
                    model.push_back({ v, (u8)x });
                }
            }
            Z3_model_dec_ref(ctx, m);
        }
        if (fp) Z3_solver_dec_ref(ctx, s);
        double dt = secs(q0, Clock::now());
        {
            std::lock_guard<std::mutex> l(R.mx);
            ++R.queries;
            R.solver += dt;
            R.maxQuery = std::max(R.maxQuery, dt);
            res == SAT ? ++R.sat : res == UNSAT ? ++R.unsat : ++R.unknown;
        }
        if (res != UNKNOWN) {
            std::lock_guard<std::mutex> l(sh.mx);
            if (sh.m.size() < 200000) sh.m[k] = { res == SAT, model };
        }
        ++sinceReset;
        return res;
    }
    std::unordered_map<u32, bool> fpMemo;
    bool usesFp(u32 root)
    {
        auto it = fpMemo.find(root);
        if (it != fpMemo.end()) return it->second;
        std::unordered_set<u32> seen;
        std::vector<u32> st { root };
        bool r = false;
        while (!st.empty() && !r) {
            u32 i = st.back();
            st.pop_back();
            if (!seen.insert(i).second) continue;
            SxNode &n = N(i);
            if (n.op >= SX_FADD) r = true;
            if (n.op == SX_CONST || n.op == SX_VAR) continue;
            st.push_back(n.a);
            if (n.op == SX_EXTRACT || n.op == SX_FROUND) continue;
            if (n.op == SX_TABLE) {
                SxTable &t = G->tables[n.b];
                for (u32 k = 0; k < t.count; ++k) st.push_back(G->elems[t.first + k]);
                continue;
            }
            if (n.b) st.push_back(n.b);
            if (n.c) st.push_back(n.c);
        }
        return fpMemo[root] = r;
    }
    bool evalNode(u32 root, const std::vector<u8> &in, u64 &out)
    {
        std::unordered_map<u32, u64> memo;
        std::vector<u32> st { root };
        while (!st.empty()) {
            u32 i = st.back();
            if (memo.count(i)) {
                st.pop_back();
                continue;
            }
            SxNode &n = N(i);
            if (n.op == SX_CONST) {
                memo[i] = n.val;
                st.pop_back();
                continue;
            }
            if (n.op == SX_VAR) {
                memo[i] = n.a < in.size() ? in[n.a] : 0;
                st.pop_back();
                continue;
            }
            bool ready = true;
            auto need = [&](u32 k) {
                if (k && !memo.count(k)) st.push_back(k), ready = false;
            };
            need(n.a);
            if (n.op == SX_TABLE) {
                if (!ready) continue;
                SxTable &t = G->tables[n.b];
                u64 x = memo[n.a];
                if (x >= t.count) return false;
                u32 e = G->elems[t.first + x];
                need(e);
                if (!ready) continue;
                memo[i] = memo[e];
                st.pop_back();
                continue;
            }
            if (n.op != SX_EXTRACT && n.op != SX_FROUND) need(n.b), need(n.c);
            if (!ready) continue;
            u64 x = memo[n.a], y = 0, z = 0;
            unsigned wb = 0;
            if (n.op != SX_EXTRACT && n.op != SX_FROUND) {
                if (n.b) y = memo[n.b], wb = N(n.b).width;
                if (n.c) z = memo[n.c];
            }
            memo[i] = evalVals(n.op, n.width, x, N(n.a).width, y, wb, z, n.b);
            st.pop_back();
        }
        out = memo[root];
        return true;
    }

    // ---------------------------------------------------------- one run
    void push(std::shared_ptr<Job> j)
    {
        j->rnd = rng();
        std::lock_guard<std::mutex> l(jobMx);
        jobs.push(j);
        jobCv.notify_one();
    }
    std::string varDump(const std::vector<u8> &in)
    {
        SxHeader &h = G->h;
        std::string s = "{";
        for (u32 i = 0; i < h.nVarNames && i < 64; ++i) {
            u32 a = h.varFirst[i], b = i + 1 < h.nVarNames ? h.varFirst[i + 1] : h.varCount;
            if (i) s += ", ";
            char nm[25] = {};
            memcpy(nm, h.varName[i], 24);
            s += jsonStr(nm + std::string("#") + std::to_string(i)) + ": \"";
            for (u32 k = a; k < b && k < in.size(); ++k) {
                char t[4];
                snprintf(t, sizeof t, "%02x", in[k]);
                s += t;
            }
            s += "\"";
        }
        return s + "}";
    }
    void process(Job &job)
    {
        int st = run(job.in);
        SxHeader &h = G->h;
        u32 status = h.status;
        std::vector<u8> in(h.input, h.input + std::min<u32>(h.varCount, SX_MAX_INPUT));
        std::string kind;
        bool timedOut = false;
        if (st == -1 || (status == SXS_RUNNING && WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)))
            kind = "timeout", timedOut = true;
        else if (status == SXS_RUNNING) {
            kind = "crash";
            snprintf(h.message, sizeof h.message, "the process ended with wait status 0x%x", st);
        } else if (status == SXS_ASSERT)
            kind = "assert";
        else if (status == SXS_EXCEPTION)
            kind = "exception";
        else if (status == SXS_ASAN)
            kind = "memory";
        h.message[sizeof h.message - 1] = 0;
        // the run must follow the inherited constraints
        u64 px = 0;
        bool diverged = false;
        if (h.nConstraints < job.bound) {
            diverged = job.bound > 0 && !(status != SXS_OK && h.nConstraints + 1 >= job.bound);
        }
        u32 lim = std::min(job.bound ? job.bound - 1 : 0, h.nConstraints);
        for (u32 i = 0; i < lim; ++i) px = mix(px, N(G->constraints[i].node).hash);
        if (job.bound && (px != job.prefix)) diverged = true;
        {
            std::lock_guard<std::mutex> l(R.mx);
            ++R.paths;
            R.maxVars = std::max<u64>(R.maxVars, h.varCount);
            R.maxCons = std::max<u64>(R.maxCons, h.nConstraints);
            R.asserts += h.asserts;
            R.symAsserts += h.symAsserts;
            if (h.lost) {
                ++R.lostRuns;
                h.lostMsg[sizeof h.lostMsg - 1] = 0;
                ++R.lostMsg[h.lostMsg];
            }
            if (h.nSampled) ++R.sampledRuns;
            for (u32 i = 0; i < h.reach && i < SX_MAX_REACH; ++i) ++R.reach[std::string(h.reachLabel[i], strnlen(h.reachLabel[i], 48))];
            if (diverged) {
                ++R.diverged;
                ++R.divMsg["bound " + std::to_string(job.bound) + " status " + std::to_string(status)];
            }
            if (status == SXS_OK) {
                ++R.ok;
                if (h.nConstraints) { // reservoir of passing runs, replayed against the native build
                    size_t slot = R.samples.size();
                    if (slot >= 16) slot = rng() % R.ok;
                    if (slot < 16) {
                        std::string rl;
                        for (u32 i = 0; i < h.reach && i < SX_MAX_REACH; ++i)
                            rl += (i ? ", " : "") + jsonStr(std::string(h.reachLabel[i], strnlen(h.reachLabel[i], 48)));
                        std::string e = "{\"input\": \"" + hex(in) + "\", \"reach\": [" + rl + "], \"vars\": " + varDump(in) + "}";
                        if (slot < R.samples.size()) R.samples[slot] = e;
                        else R.samples.push_back(e);
                    }
                }
            } else if (status == SXS_ASSUME)
                ++R.assume;
            else if (status == SXS_LIMIT)
                ++R.limit, ++R.limitMsg[h.message];
            else if (status == SXS_RESOURCE)
                ++R.resource, ++R.limitMsg[h.message];
            if (timedOut) ++R.timeout;
            if (!kind.empty()) {
                ++R.viol;
                std::string key = kind + "|" + h.message;
                // strip numbers that vary
                std::string k2;
                for (char c : key)
                    if (!isdigit((unsigned char)c)) k2 += c;
                int n = 0;
                for (auto &v : R.violations)
                    if (v.kind == kind && v.message == h.message) ++n;
                if (n < 3 && R.violations.size() < maxViol * 3) R.violations.push_back({ kind, timedOut ? "run did not finish" : h.message, in, varDump(in) });
                R.violKeys.insert(k2);
                if (stopFirst || R.violKeys.size() >= maxViol) {
                    stopAll = true;
                    jobCv.notify_all();
                }
            }
        }
        if (verbose)
            fprintf(stderr, "[%u] path status %u bound %u cons %u nodes %u vars %u %s %s\n", id, status, job.bound, h.nConstraints, h.nNodes, h.varCount, h.message,
                hex(in).substr(0, 64).c_str());
        if (diverged) return;
        expand(job, in);
    }
    void expand(Job &job, const std::vector<u8> &in)
    {
        SxHeader &h = G->h;
        u32 nn = h.nNodes;
        if (ast.size() < nn) ast.resize(nn + nn / 2), vsetOf.resize(ast.size());
        for (u32 i : astTouched) ast[i] = nullptr;
        for (u32 i : vsetTouched) vsetOf[i] = 0;
        astTouched.clear();
        vsetTouched.clear();
        fpMemo.clear();
        if (sinceReset > 3000 || vsets.size() > 400000) {
            newContext();
            varAst.clear();
        }
        if (vsets.size() > 400000 || vsets.empty()) {
            vsets.clear();
            vsetIds.clear();
            vunion.clear();
            vsets.push_back({});
            vsetIds[{}] = 0;
        }
        if (byteSets.size() > 200000) byteSets.clear();
        ufParent.resize(h.varCount);
        compCons.assign(h.varCount, {});
        for (u32 i = 0; i < h.varCount; ++i) ufParent[i] = i;
        u64 px = 0; // hash of constraints [0, i)
        for (u32 i = 0; i < h.nConstraints; ++i) {
            if (stopAll) return;
            SxConstraint &c = G->constraints[i];
            u32 cs = vset(c.node);
            if (i >= job.bound) {
                for (u32 a = 0; a < (c.kind == SXK_ADDR ? 1 : c.nAlt); ++a) {
                    u32 alt = G->alts[c.firstAlt + a];
                    std::vector<u32> extra { alt };
                    u32 as = vset(alt);
                    if (c.kind == SXK_ADDR) {
                        // enumerate the other values of the expression
                        u32 e = G->alts[c.firstAlt + 1];
                        unsigned n = 0;
                        std::vector<u8> cur;
                        while (true) {
                            if (stopAll) return;
                            cur = in;
                            Res r = query(extra, as, cur);
                            if (r == UNKNOWN) noteUnknown(c);
                            if (r != SAT) break;
                            addJob(cur, i, px, c, 0);
                            if (++n >= enumCap) {
                                std::lock_guard<std::mutex> l(R.mx);
                                ++R.enumCapHit;
                                break;
                            }
                            u64 v;
                            u32 neq = 0;
                            if (evalNode(e, cur, v)) neq = mkNeq(e, v);
                            if (!neq) {
                                std::lock_guard<std::mutex> l(R.mx);
                                ++R.enumCapHit;
                                break;
                            }
                            extra.push_back(neq);
                        }
                        continue;
                    }
                    std::vector<u8> cur = in;
                    Res r = query(extra, as, cur);
                    if (r == SAT)
                        addJob(cur, i, px, c, c.kind == SXK_ASSERT ? -1000 : 0);
                    else if (r == UNSAT) {
                        if (c.kind == SXK_ASSERT || c.kind == SXK_BOUNDS) {
                            std::lock_guard<std::mutex> l(R.mx);
                            c.kind == SXK_ASSERT ? ++R.assertProved : ++R.boundsProved;
                        }
                    } else
                        noteUnknown(c);
                }
            }
            addToSlices(i, cs);
            px = mix(px, N(c.node).hash);
        }
    }
    void noteUnknown(SxConstraint &c)
    {
        std::lock_guard<std::mutex> l(R.mx);
        char b[64];
        snprintf(b, sizeof b, "kind %u site %llx", c.kind, (unsigned long long)c.site);
        ++R.unkMsg[b];
    }
    u32 mkNode(uint16_t op, unsigned w, u32 a, u32 b, u64 val, u64 hash)
    {
        u32 i = G->h.nNodes;
        if (i >= SX_CAP_NODES - 1) return 0;
        G->h.nNodes++;
        G->nodes[i] = SxNode { op, (uint16_t)w, a, b, 0, val, hash };
        if (ast.size() <= i) ast.resize(i + 1024), vsetOf.resize(ast.size());
        ast[i] = nullptr;
        vsetOf[i] = 0;
        return i;
    }
    u32 mkNeq(u32 e, u64 v)
    {
        unsigned w = N(e).width;
        u32 k = mkNode(SX_CONST, w, 0, 0, v, mix(mix(SX_CONST * 131 + w, 0), v));
        if (!k) return 0;
        u32 q = mkNode(SX_EQ, 1, e, k, 0, mix(mix(N(e).hash, N(k).hash), 77));
        if (!q) return 0;
        return mkNode(SX_NOT, 1, q, 0, 1, mix(N(q).hash, 99));
    }
    void addJob(std::vector<u8> &in, u32 i, u64 px, SxConstraint &c, int prio)
    {
        auto j = std::make_shared<Job>();
        j->in = in;
        j->bound = i + 1;
        j->prefix = px;
        {
            std::lock_guard<std::mutex> l(jobMx);
            u32 &n = siteCount[mix(c.site, c.kind)];
            j->prio = prio ? prio : (int)std::min<u32>(n, 1000000);
            ++n;
        }
        push(j);
    }

    void loop()
    {
        rng.seed(seed * 7919 + id);
        if (!start()) return;
        newContext();
        for (;;) {
            std::shared_ptr<Job> j;
            {
                std::unique_lock<std::mutex> l(jobMx);
                while (jobs.empty() && busy && !stopAll) jobCv.wait_for(l, std::chrono::milliseconds(200));
                if (stopAll || (jobs.empty() && !busy)) {
                    jobCv.notify_all();
                    break;
                }
                j = jobs.top();
                jobs.pop();
                ++busy;
            }
            process(*j);
            {
                std::lock_guard<std::mutex> l(jobMx);
                --busy;
                if (jobs.empty() && !busy) jobCv.notify_all();
            }
        }
        stop();
    }
};

int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN);
    std::vector<std::vector<u8>> seeds;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--exe") exe = next();
        else if (a == "--harness") harness = next();
        else if (a == "--threads") threads = atoi(next().c_str());
        else if (a == "--budget") budget = atof(next().c_str());
        else if (a == "--query-timeout") queryTimeout = atoi(next().c_str());
        else if (a == "--run-timeout") runTimeout = atoi(next().c_str());
        else if (a == "--max-paths") maxPaths = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--enum-cap") enumCap = atoi(next().c_str());
        else if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--out") outFile = next();
        else if (a == "--max-viol") maxViol = atoi(next().c_str());
        else if (a == "--stop-first") stopFirst = true;
        else if (a == "-v") verbose = true;
        else if (a == "--input") {
            std::string h = next();
            std::vector<u8> v;
            for (size_t k = 0; k + 1 < h.size(); k += 2) v.push_back((u8)strtoul(h.substr(k, 2).c_str(), nullptr, 16));
            seeds.push_back(v);
        }
    }
    t0 = Clock::now();
    if (seeds.empty()) seeds.push_back({});
    for (auto &s : seeds) {
        auto j = std::make_shared<Job>();
        j->in = s;
        jobs.push(j);
    }
    std::vector<std::unique_ptr<Worker>> ws;
    std::vector<std::thread> ts;
    for (unsigned i = 0; i < threads; ++i) {
        ws.emplace_back(new Worker);
        ws.back()->id = i;
    }
    bool stuck = false;
    auto report = [&] {
    double wall = secs(t0, Clock::now());
    bool complete = !stuck && !stopAll && jobs.empty() && R.paths > 0;
    bool exhaustive = complete && !R.unknown && !R.diverged && !R.limit && !R.timeout && !R.enumCapHit && !R.lostRuns && !R.sampledRuns && !R.resource;
    auto mapJson = [](const std::map<std::string, u64> &m) {
        std::string s = "{";
        for (auto &[k, v] : m) s += (s.size() > 1 ? ", " : "") + jsonStr(k) + ": " + std::to_string(v);
        return s + "}";
    };
    std::string o = "{\n";
    auto num = [&](const char *k, u64 v) { o += std::string("  \"") + k + "\": " + std::to_string(v) + ",\n"; };
    o += "  \"harness\": " + jsonStr(harness) + ",\n";
    num("paths", R.paths), num("ok", R.ok), num("assume", R.assume), num("limit", R.limit), num("resource", R.resource), num("timeout", R.timeout);
    num("violating_paths", R.viol), num("diverged", R.diverged), num("pending", jobs.size());
    num("solver_queries", R.queries), num("sat", R.sat), num("unsat", R.unsat), num("unknown", R.unknown), num("cached", R.cached), num("byte_domain", R.byteDomain);
    num("enum_cap", R.enumCapHit), num("asserts", R.asserts), num("sym_asserts", R.symAsserts), num("asserts_proved", R.assertProved), num("bounds_proved", R.boundsProved);
    num("lost_runs", R.lostRuns), num("sampled_runs", R.sampledRuns), num("max_vars", R.maxVars), num("max_constraints", R.maxCons);
    char b[200];
    snprintf(b, sizeof b, "  \"solver_s\": %.3f,\n  \"max_query_s\": %.3f,\n  \"wall_s\": %.3f,\n  \"complete\": %s,\n  \"exhaustive\": %s,\n", R.solver, R.maxQuery, wall,
        complete ? "true" : "false", exhaustive ? "true" : "false");
    o += b;
    o += "  \"reach\": " + mapJson(R.reach) + ",\n  \"lost\": " + mapJson(R.lostMsg) + ",\n  \"limits\": " + mapJson(R.limitMsg) + ",\n  \"divergences\": " + mapJson(R.divMsg)
        + ",\n  \"unknowns\": " + mapJson(R.unkMsg) + ",\n";
    o += "  \"samples\": [";
    for (size_t i = 0; i < R.samples.size(); ++i) o += (i ? ", " : "") + R.samples[i];
    o += "],\n  \"violations\": [";
    for (size_t i = 0; i < R.violations.size(); ++i) {
        auto &v = R.violations[i];
        o += std::string(i ? ",\n    " : "\n    ") + "{\"kind\": " + jsonStr(v.kind) + ", \"message\": " + jsonStr(v.message) + ", \"input\": \"" + hex(v.in)
            + "\", \"vars\": " + v.vars + "}";
    }
    o += "]\n}\n";
    if (outFile.empty())
        fputs(o.c_str(), stdout), fflush(stdout);
    else {
        FILE *f = fopen(outFile.c_str(), "w");
        if (!f) _exit(2);
        fputs(o.c_str(), f);
        fclose(f);
    }
    _exit(0);
    };
    std::atomic<bool> done { false };
    for (auto &w : ws) ts.emplace_back([&w] { w->loop(); });
    std::thread timer([&] {
        double last = 0;
        while (!done) {
            std::this_thread::sleep_for(std::chrono::milliseconds(50));
            double t = secs(t0, Clock::now());
            u64 p;
            {
                std::lock_guard<std::mutex> l(R.mx);
                p = R.paths;
            }
            if (t > budget || p >= maxPaths) {
                stopAll = true;
                jobCv.notify_all();
                for (auto &w : ws)
                    if (t > budget + 1 && w->ctx) Z3_interrupt(w->ctx);
                if (t > budget + 20) { // a query that does not react
                    R.mx.lock();
                    jobMx.lock();
                    stuck = true;
                    report();
                }
            }
            if (getenv("SX_PROGRESS") && t - last > 5) {
                last = t;
                std::lock_guard<std::mutex> l(jobMx);
                fprintf(stderr, "%.0fs paths %llu jobs %zu viol %llu queries %llu solver %.1f\n", t, (unsigned long long)p, jobs.size(), (unsigned long long)R.viol,
                    (unsigned long long)R.queries, R.solver);
            }
        }
    });
    for (auto &t : ts) t.join();
    done = true;
    timer.join();
    report();
}
