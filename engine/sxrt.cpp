// Runtime linked into the instrumented harness: builds expressions and records path constraints.
#include "sx.h"
#include "sxproto.h"
#include "sxeval.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>
#include <sys/prctl.h>

typedef uint32_t u32;
typedef uint64_t u64;
typedef uint8_t u8;

extern "C" {
u32 __sx_args[64];
u32 __sx_ret[16];
void *__sx_tag;
u32 __sx_n;
void *__sx_foreign; // uninstrumented function which called back into instrumented code
const char *__asan_locate_address(void *addr, char *name, size_t name_size, void **region_address, size_t *region_size) __attribute__((weak));
void *__asan_region_is_poisoned(void *beg, size_t size) __attribute__((weak));
const char *__asan_get_report_description() __attribute__((weak));
void __asan_on_error();
void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
}

static SxShared *G;
static bool active, inRt;
static int paused;
static u64 allocLimit = 64u << 20;
#define ON (active && !paused)

static void finish(u32 status, const char *fmt, ...) __attribute__((noreturn));
static void finish(u32 status, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(G->h.message, sizeof G->h.message, fmt, ap);
    va_end(ap);
    G->h.status = status;
    _exit(0);
}

// ---------------------------------------------------------------- expressions
static inline SxNode &N(u32 i) { return G->nodes[i]; }
static u32 *htab;
static const u32 HSIZE = 1u << 23;

static inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

static u64 evalOp(u32 op, unsigned w, u32 a, u32 b, u32 c)
{
    bool lit = op == SX_EXTRACT || op == SX_FROUND;
    return evalVals(op, w, a ? N(a).val : 0, a ? N(a).width : 0, !lit && b ? N(b).val : 0, !lit && b ? N(b).width : 0, c ? N(c).val : 0, b);
}

static u32 mkRaw(u32 op, unsigned w, u32 a, u32 b, u32 c, u64 val)
{
    u64 h = mix(op * 131 + w, 0);
    if (op == SX_CONST)
        h = mix(h, val);
    else if (op == SX_VAR)
        h = mix(h, a);
    else {
        h = mix(h, a ? N(a).hash : 0);
        if (op == SX_EXTRACT || op == SX_FROUND)
            h = mix(h, b);
        else if (op == SX_TABLE) {
            SxTable &t = G->tables[b];
            for (u32 i = 0; i < t.count; ++i) h = mix(h, N(G->elems[t.first + i]).hash);
        } else
            h = mix(h, b ? N(b).hash : 0);
        h = mix(h, c ? N(c).hash : 0);
    }
    u32 pos = (u32)(h >> 20) & (HSIZE - 1);
    while (u32 i = htab[pos]) {
        SxNode &n = N(i);
        if (n.hash == h && n.op == op && n.width == w && n.a == a && n.b == b && n.c == c && (op != SX_CONST || n.val == val)) return i;
        pos = (pos + 1) & (HSIZE - 1);
    }
    u32 i = G->h.nNodes;
    if (i >= SX_CAP_NODES - 1) finish(SXS_LIMIT, "too many expression nodes");
    G->h.nNodes = i + 1;
    SxNode &n = N(i);
    n.op = op;
    n.width = w;
    n.a = a;
    n.b = b;
    n.c = c;
    n.val = val;
    n.hash = h;
    htab[pos] = i;
    return i;
}
static u32 K(u64 v, unsigned w) { return mkRaw(SX_CONST, w, 0, 0, 0, v & maskw(w)); }
static inline bool isK(u32 e) { return N(e).op == SX_CONST; }
static u32 mk(u32 op, unsigned w, u32 a, u32 b = 0, u32 c = 0)
{
    u64 v = evalOp(op, w, a, b, c);
    bool allK = isK(a) && (op == SX_EXTRACT || op == SX_FROUND || !b || isK(b)) && (!c || isK(c));
    if (allK) return K(v, w);
    return mkRaw(op, w, a, b, c, v);
}

static u32 ext(u32 e, unsigned lo, unsigned w);
static u32 cat(u32 h, u32 l);
static u32 zx(u32 e, unsigned w);
static u32 bin(u32 op, u32 a, u32 b);
static u32 notE(u32 a);

static u64 kz(u32 e, int depth = 0) // bits known to be zero
{
    SxNode &n = N(e);
    u64 m = maskw(n.width);
    if (depth > 8) return 0;
    switch (n.op) {
    case SX_CONST: return ~n.val & m;
    case SX_ZEXT: return (m & ~maskw(N(n.a).width)) | kz(n.a, depth + 1);
    case SX_CONCAT: return (kz(n.a, depth + 1) << N(n.b).width) | kz(n.b, depth + 1);
    case SX_AND: return kz(n.a, depth + 1) | kz(n.b, depth + 1);
    case SX_OR:
    case SX_XOR: return kz(n.a, depth + 1) & kz(n.b, depth + 1);
    case SX_ITE: return kz(n.b, depth + 1) & kz(n.c, depth + 1);
    case SX_EXTRACT: return (kz(n.a, depth + 1) >> n.b) & m;
    case SX_UREM:
        if (isK(n.b) && N(n.b).val) {
            u64 mx = N(n.b).val - 1, r = m;
            while (mx) {
                r <<= 1;
                mx >>= 1;
            }
            return r & m;
        }
        return 0;
    case SX_MUL: {
        u64 t = ~kz(n.a, depth + 1) & m, u = ~kz(n.b, depth + 1) & m;
        unsigned tz = (t ? __builtin_ctzll(t) : 0) + (u ? __builtin_ctzll(u) : 0);
        return tz >= 64 ? m : ((1ull << tz) - 1) & m;
    }
    case SX_ADD: {
        u64 t = ~(kz(n.a, depth + 1) & kz(n.b, depth + 1)) & m; // maybe-one bits of either
        unsigned tz = t ? __builtin_ctzll(t) : 63;
        return ((1ull << tz) - 1) & m;
    }
    default: return 0;
    }
}

static u32 mergeDisjoint(u32 a, u32 b, unsigned w) // requires kz(a)|kz(b) == all
{
    u64 za = kz(a);
    u32 r = 0;
    unsigned p = 0;
    while (p < w) {
        bool fromB = (za >> p) & 1;
        unsigned q = p;
        while (q < w && (bool)((za >> q) & 1) == fromB) ++q;
        u32 piece = ext(fromB ? b : a, p, q - p);
        r = r ? cat(piece, r) : piece;
        p = q;
    }
    return r;
}
static bool fewRuns(u64 z, unsigned w)
{
    unsigned runs = 1;
    for (unsigned i = 1; i < w; ++i)
        if (((z >> i) & 1) != ((z >> (i - 1)) & 1)) ++runs;
    return runs <= 16;
}

static u32 ext(u32 e, unsigned lo, unsigned w)
{
    SxNode n = N(e);
    if (lo == 0 && w == n.width) return e;
    switch (n.op) {
    case SX_CONST: return K(n.val >> lo, w);
    case SX_EXTRACT: return ext(n.a, n.b + lo, w);
    case SX_CONCAT: {
        unsigned lw = N(n.b).width;
        if (lo >= lw) return ext(n.a, lo - lw, w);
        if (lo + w <= lw) return ext(n.b, lo, w);
        return cat(ext(n.a, 0, lo + w - lw), ext(n.b, lo, lw - lo));
    }
    case SX_ZEXT: {
        unsigned sw = N(n.a).width;
        if (lo >= sw) return K(0, w);
        if (lo + w <= sw) return ext(n.a, lo, w);
        return zx(ext(n.a, lo, sw - lo), w);
    }
    case SX_SEXT: {
        unsigned sw = N(n.a).width;
        if (lo + w <= sw) return ext(n.a, lo, w);
        break;
    }
    case SX_AND:
    case SX_OR:
    case SX_XOR: return bin(n.op, ext(n.a, lo, w), ext(n.b, lo, w));
    case SX_NOT: return notE(ext(n.a, lo, w));
    case SX_ADD:
    case SX_SUB:
    case SX_MUL:
        if (lo == 0) return bin(n.op, ext(n.a, 0, w), ext(n.b, 0, w));
        break;
    case SX_ITE:
        if (isK(n.b) || isK(n.c)) return mk(SX_ITE, w, n.a, ext(n.b, lo, w), ext(n.c, lo, w));
        break;
    default:;
    }
    return mk(SX_EXTRACT, w, e, lo);
}

static u32 cat(u32 h, u32 l)
{
    unsigned w = N(h).width + N(l).width;
    if (isK(h) && isK(l)) return K((N(h).val << N(l).width) | N(l).val, w);
    if (isK(h) && !N(h).val) return zx(l, w);
    SxNode nh = N(h), nl = N(l);
    if (nh.op == SX_ZEXT) return zx(cat(nh.a, l), w);
    if (nh.op == SX_CONCAT) return cat(nh.a, cat(nh.b, l)); // right-assoc
    if (nh.op == SX_EXTRACT) {
        if (nl.op == SX_EXTRACT && nl.a == nh.a && nl.b + nl.width == nh.b) return ext(nh.a, nl.b, w);
        if (nl.op == SX_CONCAT) {
            SxNode lh = N(nl.a);
            if (lh.op == SX_EXTRACT && lh.a == nh.a && lh.b + lh.width == nh.b) return cat(ext(nh.a, lh.b, lh.width + nh.width), nl.b);
        }
        if (nl.width == nh.b && N(nh.a).width >= w && l == ext(nh.a, 0, nl.width)) return ext(nh.a, 0, w);
    }
    if (nl.op == SX_CONCAT && isK(h) && isK(nl.a)) return cat(cat(h, nl.a), nl.b);
    return mk(SX_CONCAT, w, h, l);
}
static u32 zx(u32 e, unsigned w)
{
    SxNode n = N(e);
    if (n.width == w) return e;
    if (n.op == SX_CONST) return K(n.val, w);
    if (n.op == SX_ZEXT) return zx(n.a, w);
    return mk(SX_ZEXT, w, e);
}
static u32 sxx(u32 e, unsigned w)
{
    SxNode n = N(e);
    if (n.width == w) return e;
    if (n.op == SX_CONST) return K((u64)sx64(n.val, n.width), w);
    if (n.op == SX_ZEXT) return zx(n.a, w);
    if (n.op == SX_SEXT) return sxx(n.a, w);
    if (kz(e) >> (n.width - 1)) return zx(e, w);
    return mk(SX_SEXT, w, e);
}
static u32 notE(u32 a)
{
    SxNode n = N(a);
    if (n.op == SX_CONST) return K(~n.val, n.width);
    if (n.op == SX_NOT) return n.a;
    return mk(SX_NOT, n.width, a);
}
static u32 iteE(u32 c, u32 a, u32 b)
{
    if (isK(c)) return N(c).val ? a : b;
    if (a == b) return a;
    if (N(c).op == SX_NOT) return iteE(N(c).a, b, a);
    if (N(a).width == 1) {
        if (isK(a)) return N(a).val ? bin(SX_OR, c, b) : bin(SX_AND, notE(c), b);
        if (isK(b)) return N(b).val ? bin(SX_OR, notE(c), a) : bin(SX_AND, c, a);
    }
    return mk(SX_ITE, N(a).width, c, a, b);
}

static u32 eqE(u32 a, u32 b)
{
    if (a == b) return K(1, 1);
    if (isK(a)) std::swap(a, b);
    SxNode x = N(a), y = N(b);
    if (x.op == SX_CONST && y.op == SX_CONST) return K(x.val == y.val, 1);
    if (x.width == 1 && y.op == SX_CONST) return y.val ? a : notE(a);
    if (y.op == SX_CONST) {
        switch (x.op) {
        case SX_ZEXT:
            if (y.val & ~maskw(N(x.a).width)) return K(0, 1);
            return eqE(x.a, K(y.val, N(x.a).width));
        case SX_SEXT: {
            unsigned w = N(x.a).width;
            if (((u64)sx64(y.val, w) & maskw(x.width)) != y.val) return K(0, 1);
            return eqE(x.a, K(y.val, w));
        }
        case SX_CONCAT: {
            unsigned lw = N(x.b).width;
            if (isK(x.a)) return N(x.a).val == y.val >> lw ? eqE(x.b, K(y.val, lw)) : K(0, 1);
            if (isK(x.b)) return N(x.b).val == (y.val & maskw(lw)) ? eqE(x.a, K(y.val >> lw, x.width - lw)) : K(0, 1);
            break;
        }
        case SX_ADD:
            if (isK(x.b)) return eqE(x.a, K(y.val - N(x.b).val, x.width));
            break;
        case SX_XOR:
            if (isK(x.b)) return eqE(x.a, K(y.val ^ N(x.b).val, x.width));
            break;
        case SX_NOT: return eqE(x.a, K(~y.val, x.width));
        case SX_ITE:
            if (isK(x.b) && isK(x.c)) {
                bool p = N(x.b).val == y.val, q = N(x.c).val == y.val;
                return p && q ? K(1, 1) : p ? x.a : q ? notE(x.a) : K(0, 1);
            }
            if (isK(x.b) && N(x.b).val != y.val) return bin(SX_AND, notE(x.a), eqE(x.c, b));
            if (isK(x.c) && N(x.c).val != y.val) return bin(SX_AND, x.a, eqE(x.b, b));
            break;
        default:;
        }
        if (y.val & kz(a)) return K(0, 1);
    } else if (x.op == SX_ZEXT && y.op == SX_ZEXT && N(x.a).width == N(y.a).width)
        return eqE(x.a, y.a);
    if (N(a).hash > N(b).hash) std::swap(a, b);
    return mk(SX_EQ, 1, a, b);
}
static u32 ultE(u32 a, u32 b)
{
    if (a == b) return K(0, 1);
    SxNode x = N(a), y = N(b);
    if (y.op == SX_CONST && y.val == 0) return K(0, 1);
    if (x.op == SX_CONST && x.val == maskw(x.width)) return K(0, 1);
    if (y.op == SX_CONST && (maskw(x.width) & ~kz(a)) < y.val) return K(1, 1);
    if (x.op == SX_CONST && (maskw(y.width) & ~kz(b)) <= x.val) return K(0, 1);
    if (x.op == SX_ZEXT && y.op == SX_ZEXT) {
        unsigned w = std::max(N(x.a).width, N(y.a).width);
        return ultE(zx(x.a, w), zx(y.a, w));
    }
    if (x.op == SX_ZEXT && y.op == SX_CONST) return ultE(x.a, K(y.val, N(x.a).width)); // y fits, else decided above
    if (x.op == SX_CONST && y.op == SX_ZEXT) return ultE(K(x.val, N(y.a).width), y.a);
    if (y.op == SX_CONST && y.val == 1) return eqE(a, K(0, x.width));
    if (x.width == 1) return bin(SX_AND, notE(a), b);
    return mk(SX_ULT, 1, a, b);
}
static u32 sltE(u32 a, u32 b)
{
    if (a == b) return K(0, 1);
    unsigned w = N(a).width;
    u64 top = 1ull << (w - 1);
    bool na = kz(a) & top, nb = kz(b) & top;
    if (isK(a) && isK(b)) return K(sx64(N(a).val, w) < sx64(N(b).val, w), 1);
    if (na && nb) return ultE(a, b);
    if (na && isK(b) && (N(b).val & top)) return K(0, 1);
    if (nb && isK(a) && (N(a).val & top)) return K(1, 1);
    SxNode x = N(a), y = N(b);
    if (x.op == SX_SEXT && y.op == SX_SEXT && N(x.a).width == N(y.a).width) return sltE(x.a, y.a);
    if (x.op == SX_SEXT && isK(b)) {
        unsigned sw = N(x.a).width;
        if ((u64)sx64(y.val, sw) == (u64)sx64(y.val, w)) return sltE(x.a, K(y.val, sw));
    }
    if (y.op == SX_SEXT && isK(a)) {
        unsigned sw = N(y.a).width;
        if ((u64)sx64(x.val, sw) == (u64)sx64(x.val, w)) return sltE(K(x.val, sw), y.a);
    }
    return mk(SX_SLT, 1, a, b);
}

static u32 bin(u32 op, u32 a, u32 b)
{
    unsigned w = N(a).width;
    u64 m = maskw(w);
    // constants to the right
    if (isK(a) && !isK(b) && (op == SX_ADD || op == SX_MUL || op == SX_AND || op == SX_OR || op == SX_XOR)) std::swap(a, b);
    bool kb = isK(b);
    u64 bv = N(b).val;
    switch (op) {
    case SX_ADD:
        if (kb && !bv) return a;
        if (kb && N(a).op == SX_ADD && isK(N(a).b)) return bin(SX_ADD, N(a).a, K(bv + N(N(a).b).val, w));
        if (!kb || !isK(a)) {
            u64 za = kz(a);
            if ((za | kz(b)) == m && fewRuns(za, w)) return mergeDisjoint(a, b, w);
        }
        if (!kb && N(a).op == SX_ADD && isK(N(a).b)) return bin(SX_ADD, bin(SX_ADD, N(a).a, b), N(a).b);
        if (!kb && N(b).op == SX_ADD && isK(N(b).b)) return bin(SX_ADD, bin(SX_ADD, a, N(b).a), N(b).b);
        break;
    case SX_SUB:
        if (a == b) return K(0, w);
        if (kb) return bin(SX_ADD, a, K(0 - bv, w));
        if (N(a).op == SX_ADD && N(a).a == b) return N(a).b;
        if (N(a).op == SX_ADD && N(a).b == b) return N(a).a;
        break;
    case SX_MUL:
        if (kb && bv == 0) return b;
        if (kb && bv == 1) return a;
        if (kb && !(bv & (bv - 1))) return bin(SX_SHL, a, K(__builtin_ctzll(bv), w));
        break;
    case SX_AND:
        if (a == b) return a;
        if (kb) {
            if (!bv) return b;
            if (bv == m) return a;
            u64 z = kz(a);
            if (!(bv & ~z)) return K(0, w);
            unsigned p = __builtin_ctzll(bv), q = 64 - __builtin_clzll(bv);
            if (bv == (maskw(q) & ~maskw(p))) {
                u32 r = ext(a, p, q - p);
                if (p) r = cat(r, K(0, p));
                return zx(r, w);
            }
            if (((~bv & m) & ~z) == 0) return a;
            if (N(a).op == SX_AND && isK(N(a).b)) return bin(SX_AND, N(a).a, K(bv & N(N(a).b).val, w));
        }
        if (w == 1 && a == notE(b)) return K(0, 1);
        break;
    case SX_OR:
        if (a == b) return a;
        if (kb && !bv) return a;
        if (kb && bv == m) return b;
        if (w == 1 && a == notE(b)) return K(1, 1);
        if (w > 1) {
            u64 za = kz(a);
            if ((za | kz(b)) == m && fewRuns(za, w)) return mergeDisjoint(a, b, w);
            if (kb && fewRuns(bv, w)) { // constant ones: replace these bits
                u32 r = 0;
                unsigned p = 0;
                while (p < w) {
                    bool one = (bv >> p) & 1;
                    unsigned q = p;
                    while (q < w && (bool)((bv >> q) & 1) == one) ++q;
                    u32 piece = one ? K(~0ull, q - p) : ext(a, p, q - p);
                    r = r ? cat(piece, r) : piece;
                    p = q;
                }
                return r;
            }
        }
        break;
    case SX_XOR:
        if (a == b) return K(0, w);
        if (kb && !bv) return a;
        if (kb && bv == m) return notE(a);
        break;
    case SX_SHL:
        if (kb) {
            if (bv >= w) return K(0, w);
            if (!bv) return a;
            return cat(ext(a, 0, w - bv), K(0, bv));
        }
        break;
    case SX_LSHR:
        if (kb) {
            if (bv >= w) return K(0, w);
            return zx(ext(a, bv, w - bv), w);
        }
        break;
    case SX_ASHR:
        if (kb) {
            if (bv >= w) bv = w - 1;
            return sxx(ext(a, bv, w - bv), w);
        }
        break;
    case SX_UDIV:
        if (kb && bv && !(bv & (bv - 1))) return bin(SX_LSHR, a, K(__builtin_ctzll(bv), w));
        break;
    case SX_UREM:
        if (kb && bv && !(bv & (bv - 1))) return bin(SX_AND, a, K(bv - 1, w));
        break;
    default:;
    }
    return mk(op, w, a, b);
}

// ---------------------------------------------------------------- constraints
static u32 *conSeen; // open addressing set of constraint nodes
static const u32 CSEEN = 1u << 21;
static bool seenConstraint(u32 n)
{
    u32 p = (n * 2654435761u) & (CSEEN - 1);
    while (conSeen[p]) {
        if (conSeen[p] == n) return true;
        p = (p + 1) & (CSEEN - 1);
    }
    conSeen[p] = n;
    return false;
}
static void addCon(u32 holds, u32 kind, const u32 *alts, u32 nAlt, const char *site)
{
    if (isK(holds)) return;
    if (seenConstraint(holds)) return;
    SxHeader &h = G->h;
    if (h.nConstraints >= SX_CAP_CONSTR - 1 || h.nAlts + nAlt >= SX_CAP_ALTS || h.nConstraints * 2 > CSEEN) finish(SXS_LIMIT, "too many constraints");
    SxConstraint &c = G->constraints[h.nConstraints];
    c.node = holds;
    c.kind = kind;
    c.firstAlt = h.nAlts;
    c.nAlt = nAlt;
    c.site = (u64)site;
    for (u32 i = 0; i < nAlt; ++i) G->alts[h.nAlts++] = alts[i];
    ++h.nConstraints;
    if (h.wantLog) {
        static const char *kn[] = { "branch", "assert", "assume", "bounds", "addr", "div", "switch" };
        char b[400];
        int n = snprintf(b, sizeof b, "   %u %s %s\n", h.nConstraints - 1, kn[kind], site ? site : "?");
        if (n > 0 && write(2, b, (size_t)n < sizeof b ? n : sizeof b - 1) < 0) { }
    }
}
static void branchOn(u32 s, u32 kind, const char *site)
{
    u32 holds = N(s).val ? s : notE(s), alt = notE(holds);
    addCon(holds, kind, &alt, 1, site);
}
static void concretize(u32 s, const char *site)
{
    if (isK(s)) return;
    u32 holds = eqE(s, K(N(s).val, N(s).width)), alt[2] = { notE(holds), s }; // the driver enumerates the values of s
    addCon(holds, SXK_ADDR, alt, 2, site);
}

// ---------------------------------------------------------------- shadow memory
struct Page {
    u32 e[4096];
    u8 v[4096];
};
static u8 pageFlag[1 << 16];
static const u32 PT = 1 << 14;
static struct {
    u64 page;
    Page *p;
} ptab[PT];
static u32 nPages;
static Page *findPage(u64 pg, bool create)
{
    u32 i = (u32)(pg * 0x9E3779B97F4A7C15ull >> 40) & (PT - 1);
    while (ptab[i].p) {
        if (ptab[i].page == pg) return ptab[i].p;
        i = (i + 1) & (PT - 1);
    }
    if (!create) return nullptr;
    if (++nPages > PT / 2) finish(SXS_LIMIT, "too many shadow pages");
    Page *p = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ptab[i].page = pg;
    ptab[i].p = p;
    pageFlag[pg & 0xffff] = 1;
    return p;
}
static inline bool maybeSym(const void *a, u64 n)
{
    u64 x = (u64)a >> 12, y = ((u64)a + n - 1) >> 12;
    for (; x <= y; ++x)
        if (pageFlag[x & 0xffff]) return true;
    return false;
}
static inline u32 rdB(u64 a)
{
    u64 pg = a >> 12;
    if (!pageFlag[pg & 0xffff]) return 0;
    Page *p = findPage(pg, false);
    if (!p) return 0;
    u32 e = p->e[a & 4095];
    if (e && p->v[a & 4095] != *(u8 *)a) {
        p->e[a & 4095] = 0;
        return 0;
    }
    return e;
}
static inline u32 rdRaw(u64 a)
{
    Page *p = pageFlag[(a >> 12) & 0xffff] ? findPage(a >> 12, false) : nullptr;
    return p ? p->e[a & 4095] : 0;
}
static inline void wrB(u64 a, u32 e, u8 v)
{
    u64 pg = a >> 12;
    if (e && isK(e)) e = 0;
    if (!e && !pageFlag[pg & 0xffff]) return;
    Page *p = findPage(pg, e != 0);
    if (!p) return;
    p->e[a & 4095] = e;
    p->v[a & 4095] = v;
}
static void clearMem(u64 a, u64 n)
{
    if (!n) return;
    u64 end = a + n;
    while (a < end) {
        u64 pe = std::min(end, (a | 4095) + 1);
        if (pageFlag[(a >> 12) & 0xffff]) {
            if (Page *p = findPage(a >> 12, false)) memset(&p->e[a & 4095], 0, (pe - a) * sizeof(u32));
        }
        a = pe;
    }
}
static u32 loadExpr(u64 a, unsigned n)
{
    u32 b[8], any = 0;
    for (unsigned i = 0; i < n; ++i) any |= b[i] = rdB(a + i);
    if (!any) return 0;
    u32 r = 0;
    for (unsigned i = 0; i < n; ++i) {
        u32 x = b[i] ? b[i] : K(((u8 *)a)[i], 8);
        r = r ? cat(x, r) : x;
    }
    return r;
}
static void storeExpr(u64 a, u32 e, unsigned n)
{
    for (unsigned i = 0; i < n; ++i) {
        u32 b = ext(e, 8 * i, 8);
        wrB(a + i, b, (u8)N(b).val);
    }
}

static u64 upperBound(u32 e)
{
    SxNode &n = N(e);
    u64 z = ~kz(e) & maskw(n.width);
    switch (n.op) {
    case SX_UREM:
        if (isK(n.b) && N(n.b).val) return std::min(z, N(n.b).val - 1);
        break;
    case SX_ZEXT: return upperBound(n.a);
    case SX_MUL:
        if (isK(n.b)) {
            u64 r;
            if (!__builtin_mul_overflow(upperBound(n.a), N(n.b).val, &r)) return std::min(z, r);
        }
        break;
    default:;
    }
    return z;
}

// handles an access through a symbolic address; returns the value of a table lookup if possible
static u32 symAddr(u32 s, u64 a, unsigned n, bool load, const char *site)
{
    if (isK(s)) return 0;
    char nm[8];
    void *ra = nullptr;
    size_t rs = 0;
    bool known = false;
    if (__asan_locate_address) {
        const char *k = __asan_locate_address((void *)a, nm, sizeof nm, &ra, &rs);
        known = k && ra && rs >= n && (k[0] == 'h' || k[0] == 'g' || k[0] == 's') && a >= (u64)ra && a + n <= (u64)ra + rs;
    }
    if (!known && load && ((N(s).op == SX_ADD && isK(N(s).b)) || (N(s).op == SX_CONCAT && isK(N(s).a)))) { // static memory of an uninstrumented library
        bool add = N(s).op == SX_ADD;
        u64 base = add ? N(N(s).b).val : N(N(s).a).val << N(N(s).b).width, ub = upperBound(add ? N(s).a : N(s).b);
        Dl_info d1, d2;
        if (ub <= 4096 && base > 4096 && dladdr((void *)base, &d1) && dladdr((void *)(base + ub + n), &d2) && d1.dli_fbase == d2.dli_fbase) {
            ra = (void *)base;
            rs = ub + n;
            // the object may end earlier (the address has been attributed to the object after it)
            if (void *bad = __asan_region_is_poisoned ? __asan_region_is_poisoned((void *)base, rs) : nullptr) rs = (u64)bad - base;
            known = rs >= n && a + n <= base + rs;
        }
    }
    if (known) {
        u32 off = bin(SX_SUB, s, K((u64)ra, 64));
        u32 holds = notE(ultE(K(rs - n, 64), off)), alt = notE(holds);
        addCon(holds, SXK_BOUNDS, &alt, 1, site);
        unsigned sh = n == 1 ? 0 : n == 2 ? 1 : n == 4 ? 2 : 3;
        u64 z = kz(off);
        if (load && rs <= 16384 && rs / n <= 4200 && (n & (n - 1)) == 0 && (z & (n - 1)) == n - 1u) {
            SxHeader &h = G->h;
            u32 cnt = rs / n;
            if (h.nTables >= SX_CAP_TABLES - 1 || h.nElems + cnt >= SX_CAP_ELEMS) finish(SXS_LIMIT, "too many tables");
            u32 first = h.nElems;
            for (u32 i = 0; i < cnt; ++i) {
                u64 p = (u64)ra + (u64)i * n;
                u32 e = loadExpr(p, n);
                if (!e) {
                    u64 v = 0;
                    memcpy(&v, (void *)p, n);
                    e = K(v, n * 8);
                }
                G->elems[first + i] = e;
            }
            // reuse an identical table
            u32 t = 0;
            for (u32 i = h.nTables; i > 1 && i + 64 > h.nTables; --i) {
                SxTable &c = G->tables[i - 1];
                if (c.count == cnt && c.width == n * 8 && !memcmp(&G->elems[c.first], &G->elems[first], cnt * sizeof(u32))) {
                    t = i - 1;
                    break;
                }
            }
            if (!t) {
                t = h.nTables++;
                G->tables[t] = { first, cnt, n * 8 };
                h.nElems += cnt;
            }
            u32 idx = sh ? zx(ext(off, sh, 64 - sh), 64) : off;
            u64 v = 0;
            memcpy(&v, (void *)a, n);
            return mkRaw(SX_TABLE, n * 8, idx, t, 0, v);
        }
    }
    concretize(s, site);
    return 0;
}

static void lost(const char *what, const char *site)
{
    SxHeader &h = G->h;
    if (!h.lost++) snprintf(h.lostMsg, sizeof h.lostMsg, "%s at %s", what, site ? site : "?");
}

static void foreignArgs(void *fn, u32 n, const char *site)
{
    for (u32 i = 0; i < n && i < 64; ++i)
        if (__sx_args[i] && !isK(__sx_args[i])) {
            if (N(__sx_args[i]).width == 1) { // both values are explored
                concretize(__sx_args[i], site);
                continue;
            }
            Dl_info di;
            const char *nm = dladdr(fn, &di) && di.dli_sname ? di.dli_sname : "?";
            char buf[300];
            snprintf(buf, sizeof buf, "symbolic argument of external %s", nm);
            lost(buf, site);
            break;
        }
}

// ---------------------------------------------------------------- entry points called by instrumented code
#define OPND(s, v, w) ((s) ? (s) : K((v), (w)))
extern "C" {
void _sx_enter(void *fn, u32 n)
{
    if (__sx_tag != fn || paused) {
        if (__sx_tag && ON) { // an uninstrumented function in between
            __sx_foreign = __sx_tag;
            foreignArgs(__sx_tag, __sx_n, nullptr);
        }
        if (n) memset(__sx_args, 0, n * sizeof(u32));
    }
    __sx_tag = nullptr;
}
u32 _sx_bin(u32 op, u32 w, u32 sa, u64 a, u32 sb, u64 b, const char *site)
{
    if (!(sa | sb) || !ON) return 0;
    u32 x = OPND(sa, a, w), y = OPND(sb, b, w);
    if (op >= SX_UDIV && op <= SX_SREM && !isK(y)) {
        u32 z = eqE(y, K(0, w));
        branchOn(z, SXK_DIV, site);
    }
    if (op >= SX_FADD) return mk(op, w, x, y);
    return bin(op, x, y);
}
// predicates are llvm::CmpInst::Predicate
u32 _sx_cmp(u32 pred, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    if (!(sa | sb) || !ON) return 0;
    u32 x = OPND(sa, a, w), y = OPND(sb, b, w);
    switch (pred) {
    case 32: return eqE(x, y);
    case 33: return notE(eqE(x, y));
    case 34: return ultE(y, x); // ugt
    case 35: return notE(ultE(x, y)); // uge
    case 36: return ultE(x, y);
    case 37: return notE(ultE(y, x));
    case 38: return sltE(y, x);
    case 39: return notE(sltE(x, y));
    case 40: return sltE(x, y);
    case 41: return notE(sltE(y, x));
    }
    return 0;
}
u32 _sx_fcmp(u32 pred, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    if (!(sa | sb) || !ON) return 0;
    u32 x = OPND(sa, a, w), y = OPND(sb, b, w);
    auto eq = [&] { return mk(SX_FEQ, 1, x, y); };
    auto lt = [&] { return mk(SX_FLT, 1, x, y); };
    auto gt = [&] { return mk(SX_FLT, 1, y, x); };
    auto le = [&] { return mk(SX_FLE, 1, x, y); };
    auto ge = [&] { return mk(SX_FLE, 1, y, x); };
    auto uno = [&] { return mk(SX_FUNO, 1, x, y); };
    switch (pred) {
    case 1: return eq();
    case 2: return gt();
    case 3: return ge();
    case 4: return lt();
    case 5: return le();
    case 6: return bin(SX_AND, notE(uno()), notE(eq())); // one
    case 7: return notE(uno());
    case 8: return uno();
    case 9: return bin(SX_OR, uno(), eq());
    case 10: return notE(le()); // ugt
    case 11: return notE(lt());
    case 12: return notE(ge());
    case 13: return notE(gt());
    case 14: return notE(eq()); // une
    }
    return 0;
}
u32 _sx_cast(u32 op, u32 s, u64 v, u32 fw, u32 tw)
{
    if (!s || !ON) return 0;
    switch (op) {
    case SX_ZEXT: return zx(s, tw);
    case SX_SEXT: return sxx(s, tw);
    case SX_EXTRACT: return ext(s, 0, tw);
    default: return mk(op, tw, s);
    }
}
u32 _sx_fun(u32 m, u32 w, u32 s, u64)
{
    if (!s || !ON) return 0;
    return m == 5 ? mk(SX_FSQRT, w, s) : mk(SX_FROUND, w, s, m);
}
u32 _sx_ite(u32 sc, bool c, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    if (!(sc | sa | sb) || !ON) return 0;
    if (!sc) return c ? sa : sb;
    u32 r = iteE(sc, OPND(sa, a, w), OPND(sb, b, w));
    return isK(r) ? 0 : r;
}
u32 _sx_load(void *p, u32 sp, u32 w, u64 v, const char *site)
{
    if (!ON) return 0;
    unsigned n = (w + 7) / 8;
    if (sp) {
        if (u32 r = symAddr(sp, (u64)p, n, true, site)) return isK(r) ? 0 : (w == n * 8 ? r : ext(r, 0, w));
    }
    if (!maybeSym(p, n)) return 0;
    u32 e = loadExpr((u64)p, n);
    if (!e) return 0;
    if (w != n * 8) e = ext(e, 0, w);
    return isK(e) ? 0 : e;
}
void _sx_store(void *p, u32 sp, u32 s, u32 w, u64 v, const char *site)
{
    if (!active) return;
    unsigned n = (w + 7) / 8;
    if (paused) s = 0, sp = 0;
    if (sp) symAddr(sp, (u64)p, n, false, site);
    if (s) {
        storeExpr((u64)p, w == n * 8 ? s : zx(s, n * 8), n);
    } else if (maybeSym(p, n))
        for (unsigned i = 0; i < n; ++i) wrB((u64)p + i, 0, 0);
}
void _sx_branch(u32 s, const char *site)
{
    if (!s || !ON) return;
    branchOn(s, SXK_BRANCH, site);
}
void _sx_switch(u32 s, u64 v, u32 w, u32 n, const u64 *vals, const u32 *dests, const char *site)
{
    if (!s || !ON || isK(s)) return;
    u32 nd = 1;
    for (u32 i = 0; i < n; ++i) nd = std::max(nd, dests[i] + 1);
    if (nd > 4096) finish(SXS_LIMIT, "switch too large");
    static u32 cond[4096], alts[4096];
    for (u32 d = 0; d < nd; ++d) cond[d] = 0;
    u32 other = K(1, 1), taken = 0;
    for (u32 i = 0; i < n; ++i) {
        u32 e = eqE(s, K(vals[i], w));
        if (vals[i] == v) taken = dests[i];
        u32 &c = cond[dests[i]];
        c = c ? bin(SX_OR, c, e) : e;
        if (dests[i] != 0) other = bin(SX_AND, other, notE(e));
    }
    cond[0] = other; // everything that does not go elsewhere
    u32 na = 0;
    for (u32 d = 0; d < nd; ++d)
        if (d != taken && cond[d] && !(isK(cond[d]) && !N(cond[d]).val)) alts[na++] = cond[d];
    if (cond[taken]) addCon(cond[taken], SXK_SWITCH, alts, na, site);
}
u32 _sx_gep(u32 sp, u64 cur, u32 si, u64 idx, u32 w, u64 scale)
{
    if (!(sp | si) || !ON) return 0;
    u32 base = OPND(sp, cur, 64);
    u32 i = OPND(si, idx, w);
    i = w < 64 ? sxx(i, 64) : w > 64 ? ext(i, 0, 64) : i;
    return bin(SX_ADD, base, bin(SX_MUL, i, K(scale, 64)));
}
static void copyShadow(u64 d, u64 s, u64 n)
{
    if (!n || d == s) return;
    if (!maybeSym((void *)s, n) && !maybeSym((void *)d, n)) return;
    if (d < s || d >= s + n)
        for (u64 i = 0; i < n; ++i) {
            u32 e = rdB(s + i);
            wrB(d + i, e, *(u8 *)(s + i));
        }
    else
        for (u64 i = n; i-- > 0;) {
            u32 e = rdB(s + i);
            wrB(d + i, e, *(u8 *)(s + i));
        }
}
void _sx_memcpy(void *d, void *s, u64 n, u32 sd, u32 ss, u32 sn, const char *site)
{
    if (!active) return;
    if (paused) {
        clearMem((u64)d, n);
        return;
    }
    if (sn) concretize(sn, site);
    if (sd) concretize(sd, site);
    if (ss) concretize(ss, site);
    copyShadow((u64)d, (u64)s, n);
}
void _sx_memset(void *d, u8 v, u64 n, u32 sd, u32 sv, u32 sn, const char *site)
{
    if (!active) return;
    if (paused) sd = sv = sn = 0;
    if (sn) concretize(sn, site);
    if (sd) concretize(sd, site);
    if (sv) {
        u32 b = ext(sv, 0, 8);
        for (u64 i = 0; i < n; ++i) wrB((u64)d + i, b, v);
    } else
        clearMem((u64)d, n);
}
void _sx_clear(void *p, u64 n)
{
    if (active) clearMem((u64)p, n);
}
void _sx_lost(u32 s, const char *site)
{
    if (s && ON && !isK(s)) lost("unsupported operation", site);
}
void _sx_lostmem(void *p, u64 n, const char *site)
{
    if (!ON || !maybeSym(p, n)) return;
    for (u64 i = 0; i < n; ++i)
        if (rdB((u64)p + i)) {
            lost("unsupported load", site);
            return;
        }
}
u32 _sx_intr(u32 code, u32 w, u32 sa, u64 a, u32 sb, u64 b, u32 sc, u64 c)
{
    if (!(sa | sb | sc) || !ON) return 0;
    u32 x = OPND(sa, a, w), y = 0, z = 0;
    if (code <= 4 || code == 10 || code == 11 || code == 12 || code == 13) y = OPND(sb, b, w);
    if (code == 10 || code == 11) z = OPND(sc, c, w);
    switch (code) {
    case 1: return iteE(ultE(x, y), x, y);
    case 2: return iteE(ultE(x, y), y, x);
    case 3: return iteE(sltE(x, y), x, y);
    case 4: return iteE(sltE(x, y), y, x);
    case 5: return iteE(sltE(x, K(0, w)), bin(SX_SUB, K(0, w), x), x);
    case 6: {
        u32 r = 0;
        for (unsigned i = 0; i < w; i += 8) {
            u32 p = ext(x, w - 8 - i, 8);
            r = r ? cat(p, r) : p;
        }
        return r;
    }
    case 7: {
        u32 r = K(0, w);
        for (unsigned i = 0; i < w; ++i) r = bin(SX_ADD, r, zx(ext(x, i, 1), w));
        return r;
    }
    case 8: {
        u32 r = K(w, w);
        for (unsigned i = 0; i < w; ++i) r = iteE(ext(x, i, 1), K(w - 1 - i, w), r);
        return r;
    }
    case 9: {
        u32 r = K(w, w);
        for (unsigned i = w; i-- > 0;) r = iteE(ext(x, i, 1), K(i, w), r);
        return r;
    }
    case 10:
    case 11: {
        if (!isK(z)) {
            if (w & (w - 1)) {
                concretize(z, "fsh");
                z = K(N(z).val, w);
            } else {
                u32 k = bin(SX_AND, z, K(w - 1, w)), inv = bin(SX_SUB, K(w, w), k);
                // shift by w yields 0 in this encoding
                return code == 10 ? bin(SX_OR, bin(SX_SHL, x, k), bin(SX_LSHR, y, inv)) : bin(SX_OR, bin(SX_SHL, x, inv), bin(SX_LSHR, y, k));
            }
        }
        unsigned k = N(z).val % w;
        if (!k) return code == 10 ? x : y;
        return code == 10 ? cat(ext(x, 0, w - k), ext(y, w - k, k)) : cat(ext(x, 0, k), ext(y, k, w - k));
    }
    case 12: {
        u32 s = bin(SX_ADD, x, y);
        return iteE(ultE(s, x), K(~0ull, w), s);
    }
    case 13: return iteE(ultE(x, y), K(0, w), bin(SX_SUB, x, y));
    case 14: {
        u32 r = 0;
        for (unsigned i = 0; i < w; ++i) {
            u32 p = ext(x, w - 1 - i, 1);
            r = r ? cat(p, r) : p;
        }
        return r;
    }
    }
    return 0;
}
u32 _sx_ovf(u32 code, u32 w, u32 sa, u64 a, u32 sb, u64 b)
{
    if (!(sa | sb) || !ON) return 0;
    u32 x = OPND(sa, a, w), y = OPND(sb, b, w), r = 0;
    u64 top = w - 1;
    switch (code) {
    case 1: r = ultE(bin(SX_ADD, x, y), x); break;
    case 2: r = ultE(x, y); break;
    case 4: {
        u32 s = bin(SX_ADD, x, y);
        u32 p = ext(x, top, 1), q = ext(y, top, 1), t = ext(s, top, 1);
        r = bin(SX_AND, eqE(p, q), notE(eqE(p, t)));
        break;
    }
    case 5: {
        u32 s = bin(SX_SUB, x, y);
        u32 p = ext(x, top, 1), q = ext(y, top, 1), t = ext(s, top, 1);
        r = bin(SX_AND, notE(eqE(p, q)), notE(eqE(p, t)));
        break;
    }
    case 3:
    case 6:
        if (w <= 32) {
            u32 X = code == 3 ? zx(x, 64) : sxx(x, 64), Y = code == 3 ? zx(y, 64) : sxx(y, 64), p = bin(SX_MUL, X, Y);
            u32 back = code == 3 ? zx(ext(p, 0, w), 64) : sxx(ext(p, 0, w), 64);
            r = notE(eqE(p, back));
        } else if (code == 3 && (isK(x) || isK(y))) {
            u32 v = isK(x) ? y : x;
            u64 k = isK(x) ? N(x).val : N(y).val;
            r = k ? ultE(K(maskw(w) / k, w), v) : K(0, 1);
        } else {
            // unsigned: x != 0 && (x*y)/x != y
            u32 p = bin(SX_MUL, x, y);
            if (code == 3)
                r = bin(SX_AND, notE(eqE(x, K(0, w))), notE(eqE(mk(SX_UDIV, w, p, x), y)));
            else {
                lost("64-bit signed multiplication overflow check", "");
                return 0;
            }
        }
        break;
    }
    return isK(r) ? 0 : r;
}
void _sx_concretize(u32 s, const char *site)
{
    if (s && ON) concretize(s, site);
}
static void *byvalSrc[64];
void _sx_byval_out(u32 i, void *p) { byvalSrc[i] = p; }
void _sx_byval_in(u32 i, void *p, u64 n)
{
    if (!active || !byvalSrc[i]) return;
    copyShadow((u64)p, (u64)byvalSrc[i], n);
    byvalSrc[i] = nullptr;
}
void _sx_postcall(void *fn, u32 n, const char *site)
{
    if (!ON) {
        __sx_tag = nullptr;
        return;
    }
    if (__sx_tag == fn) { // not consumed: the callee is not instrumented
        foreignArgs(fn, n, site);
        __sx_tag = nullptr;
    } else if (__sx_foreign == fn) {
        memset(__sx_ret, 0, sizeof __sx_ret);
        __sx_foreign = nullptr;
    }
}
void _sx_pause() { ++paused; }
void _sx_resume()
{
    if (paused) --paused;
}
void _sx_unpause() { paused = 0; }
void _sx_alloc(u32 s, u64 n, const char *site)
{
    if (!active) return;
    if (ON && s && !isK(s)) {
        u32 holds = ultE(K(allocLimit, 64), zx(s, 64));
        branchOn(holds, SXK_BRANCH, site);
        if (n <= allocLimit) concretize(s, site);
    }
    if (n > allocLimit) finish(SXS_RESOURCE, "allocation of %llu bytes at %s", (unsigned long long)n, site);
}

// ---- library functions
static u32 symArg(void *self, unsigned i) { return ON && __sx_tag == self ? __sx_args[i] : 0; }
static void takeArgs(void *self, u32 *out, unsigned n)
{
    for (unsigned i = 0; i < n; ++i) out[i] = ON && __sx_tag == self ? __sx_args[i] : 0;
    __sx_tag = nullptr;
}
void *_sxl_memcpy(void *d, const void *s, size_t n)
{
    u32 a[3];
    takeArgs((void *)_sxl_memcpy, a, 3);
    _sx_memcpy(d, (void *)s, n, a[0], a[1], a[2], "memcpy");
    memcpy(d, s, n);
    return d;
}
void *_sxl_memmove(void *d, const void *s, size_t n)
{
    u32 a[3];
    takeArgs((void *)_sxl_memmove, a, 3);
    _sx_memcpy(d, (void *)s, n, a[0], a[1], a[2], "memmove");
    memmove(d, s, n);
    return d;
}
void *_sxl_memset(void *d, int v, size_t n)
{
    u32 a[3];
    takeArgs((void *)_sxl_memset, a, 3);
    _sx_memset(d, (u8)v, n, a[0], a[1], a[2], "memset");
    memset(d, v, n);
    return d;
}
static u32 cmpExpr(const u8 *a, const u8 *b, size_t n, bool eqOnly)
{
    if (!maybeSym(a, n) && !maybeSym(b, n)) return 0;
    // result as a 32-bit expression
    u32 r = K(0, 32);
    bool any = false;
    for (size_t i = n; i-- > 0;) {
        u32 x = rdB((u64)a + i), y = rdB((u64)b + i);
        if (!x && !y) {
            if (a[i] != b[i]) { // decided here unless an earlier byte differs
                r = K(eqOnly ? 1 : a[i] < b[i] ? 0xffffffffu : 1, 32);
                any = false;
            }
            continue;
        }
        any = true;
        u32 ex = x ? x : K(a[i], 8), ey = y ? y : K(b[i], 8), ne = notE(eqE(ex, ey));
        u32 d = eqOnly ? K(1, 32) : iteE(ultE(ex, ey), K(0xffffffffu, 32), K(1, 32));
        r = iteE(ne, d, r);
    }
    if (!any && isK(r)) return 0;
    return isK(r) ? 0 : r;
}
int _sxl_memcmp(const void *a, const void *b, size_t n)
{
    u32 g[3];
    takeArgs((void *)_sxl_memcmp, g, 3);
    int r = memcmp(a, b, n);
    r = r < 0 ? -1 : r > 0 ? 1 : 0;
    __sx_ret[0] = 0;
    if (ON && n) {
        for (u32 x : g)
            if (x) concretize(x, "memcmp");
        __sx_ret[0] = cmpExpr((const u8 *)a, (const u8 *)b, n, false);
    }
    return r;
}
int _sxl_bcmp(const void *a, const void *b, size_t n)
{
    u32 g[3];
    takeArgs((void *)_sxl_bcmp, g, 3);
    int r = memcmp(a, b, n) != 0;
    __sx_ret[0] = 0;
    if (ON && n) {
        for (u32 x : g)
            if (x) concretize(x, "bcmp");
        __sx_ret[0] = cmpExpr((const u8 *)a, (const u8 *)b, n, true);
    }
    return r;
}
size_t _sxl_strlen(const char *s)
{
    u32 g[1];
    takeArgs((void *)_sxl_strlen, g, 1);
    size_t n = strlen(s);
    __sx_ret[0] = 0;
    if (ON && maybeSym(s, n + 1)) {
        for (size_t i = 0; i <= n; ++i)
            if (u32 e = rdB((u64)s + i)) branchOn(eqE(e, K(0, 8)), SXK_BRANCH, "strlen");
    }
    return n;
}
void *_sxl_memchr(const void *s, int c, size_t n)
{
    u32 g[3];
    takeArgs((void *)_sxl_memchr, g, 3);
    void *r = const_cast<void *>(memchr(s, c, n));
    __sx_ret[0] = 0;
    if (ON && n) {
        if (g[2]) concretize(g[2], "memchr");
        u32 sc = g[1] ? ext(g[1], 0, 8) : K((u8)c, 8);
        size_t lim = r ? (u8 *)r - (u8 *)s + 1 : n;
        for (size_t i = 0; i < lim; ++i) {
            u32 e = rdB((u64)s + i);
            if (e || !isK(sc)) branchOn(eqE(e ? e : K(((u8 *)s)[i], 8), sc), SXK_BRANCH, "memchr");
        }
    }
    return r;
}
int _sxl_strncmp(const char *a, const char *b, size_t n)
{
    u32 g[3];
    takeArgs((void *)_sxl_strncmp, g, 3);
    __sx_ret[0] = 0;
    size_t i = 0;
    for (; i < n; ++i) {
        u32 x = ON ? rdB((u64)a + i) : 0, y = ON ? rdB((u64)b + i) : 0;
        if (x || y) {
            u32 ex = x ? x : K((u8)a[i], 8), ey = y ? y : K((u8)b[i], 8);
            branchOn(eqE(ex, ey), SXK_BRANCH, "strcmp");
            if (a[i] == b[i])
                branchOn(eqE(ex, K(0, 8)), SXK_BRANCH, "strcmp");
            else
                branchOn(ultE(ex, ey), SXK_BRANCH, "strcmp");
        }
        if (a[i] != b[i]) return (u8)a[i] < (u8)b[i] ? -1 : 1;
        if (!a[i]) return 0;
    }
    return 0;
}
int _sxl_strcmp(const char *a, const char *b) { __sx_tag = nullptr; return _sxl_strncmp(a, b, (size_t)-1); }

// ---------------------------------------------------------------- harness API
void sx_sym(void *p, size_t n, const char *name)
{
    if (!active) {
        memset(p, 0, n);
        return;
    }
    SxHeader &h = G->h;
    if (h.varCount + n > SX_MAX_INPUT) finish(SXS_LIMIT, "too much symbolic input");
    if (h.nVarNames < SX_MAX_INPUT / 16) {
        strncpy(h.varName[h.nVarNames], name, 23);
        h.varFirst[h.nVarNames++] = h.varCount;
    }
    for (size_t i = 0; i < n; ++i) {
        u32 v = h.varCount++;
        u8 val = v < h.inputLen ? h.input[v] : 0;
        h.input[v] = val;
        ((u8 *)p)[i] = val;
        wrB((u64)p + i, mkRaw(SX_VAR, 8, v, 0, 0, val), val);
    }
}
static u32 arg0(void *fn)
{
    u32 s = ON && __sx_tag == fn ? __sx_args[0] : 0;
    __sx_tag = nullptr;
    return s && isK(s) ? 0 : s;
}
void sx_assume_(int cond)
{
    u32 s = arg0((void *)sx_assume_);
    if (!active) {
        return;
    }
    if (s) {
        u32 nz = notE(eqE(s, K(0, N(s).width)));
        u32 holds = cond ? nz : notE(nz), alt = notE(holds);
        addCon(holds, SXK_ASSUME, &alt, cond ? 0 : 1, "assume");
    }
    if (!cond) finish(SXS_ASSUME, "assumption not met");
}
void sx_assert_(int cond, const char *msg)
{
    u32 s = arg0((void *)sx_assert_);
    if (!active) return;
    ++G->h.asserts;
    if (s) {
        ++G->h.symAsserts;
        u32 nz = notE(eqE(s, K(0, N(s).width)));
        branchOn(nz, SXK_ASSERT, msg);
    }
    if (!cond) finish(SXS_ASSERT, "%s", msg);
}
void sx_assert_eqmem(const void *a, const void *b, size_t n, const char *msg)
{
    __sx_tag = nullptr;
    if (!active) return;
    ++G->h.asserts;
    if (!n) return;
    u32 all = 0;
    for (size_t i = 0; i < n; ++i) {
        u32 x = rdB((u64)a + i), y = rdB((u64)b + i);
        if (!x && !y) continue;
        u32 e = eqE(x ? x : K(((u8 *)a)[i], 8), y ? y : K(((u8 *)b)[i], 8));
        if (isK(e) && N(e).val) continue;
        all = all ? bin(SX_AND, all, e) : e;
    }
    if (all && !isK(all)) {
        ++G->h.symAsserts;
        branchOn(all, SXK_ASSERT, msg);
    }
    for (size_t i = 0; i < n; ++i)
        if (((u8 *)a)[i] != ((u8 *)b)[i]) finish(SXS_ASSERT, "%s (byte %zu: %02x instead of %02x)", msg, i, ((u8 *)a)[i], ((u8 *)b)[i]);
}
uint64_t sx_concretize(uint64_t v)
{
    u32 s = arg0((void *)sx_concretize);
    __sx_ret[0] = 0;
    if (s) concretize(s, "sx_concretize");
    return v;
}
void sx_reach(const char *label)
{
    __sx_tag = nullptr;
    if (!active) return;
    SxHeader &h = G->h;
    for (u32 i = 0; i < h.reach; ++i)
        if (!strcmp(h.reachLabel[i], label)) return;
    if (h.reach < SX_MAX_REACH) strncpy(h.reachLabel[h.reach++], label, 47);
}
void sx_pause(void) { _sx_pause(); }
void sx_resume(void) { _sx_resume(); }
int sx_native(void) { return 0; }
int sx_is_symbolic(const void *p, size_t n)
{
    if (!ON) return 0;
    for (size_t i = 0; i < n; ++i)
        if (rdB((u64)p + i)) return 1;
    return 0;
}
void sx_note(const char *, ...) { }
void sx_alloc_limit(uint64_t b) { allocLimit = b; }
void sx_untrack(void *p, size_t n)
{
    if (!ON) return;
    for (size_t i = 0; i < n; ++i)
        if (rdB((u64)p + i)) {
            ++G->h.nSampled;
            break;
        }
    clearMem((u64)p, n);
}
void __asan_on_error()
{
    if (!G || !active) return;
    G->h.status = SXS_ASAN;
    snprintf(G->h.message, sizeof G->h.message, "memory error: %s", __asan_get_report_description ? __asan_get_report_description() : "?");
}
const char *__asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:handle_abort=0:quarantine_size_mb=16:abort_on_error=0:exitcode=99:"
           "alloc_dealloc_mismatch=1:detect_odr_violation=0:use_sigaltstack=1:handle_segv=1:fast_unwind_on_malloc=1:malloc_context_size=0:"
           "symbolize=0:detect_container_overflow=0";
}
}
static void onMalloc(const volatile void *p, size_t n)
{
    if (active && p) clearMem((u64)p, n);
}
static void onFree(const volatile void *) { }

SxHarnessEntry *&SxHarnessEntry::list()
{
    static SxHarnessEntry *l = nullptr;
    return l;
}
SxHarnessEntry::SxHarnessEntry(const char *n, void (*f)())
    : name(n)
    , fn(f)
{
    next = list();
    list() = this;
}

int main(int argc, char **argv)
{
    // argv: harness shmFd cmdFd replyFd timeout
    if (argc < 2) {
        for (auto *e = SxHarnessEntry::list(); e; e = e->next) puts(e->name);
        return 0;
    }
    void (*fn)() = nullptr;
    for (auto *e = SxHarnessEntry::list(); e; e = e->next)
        if (!strcmp(e->name, argv[1])) fn = e->fn;
    if (!fn || argc < 6) {
        fprintf(stderr, "no such harness\n");
        return 2;
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int shm = atoi(argv[2]), in = atoi(argv[3]), out = atoi(argv[4]), tmo = atoi(argv[5]);
    G = (SxShared *)mmap(nullptr, sizeof(SxShared), PROT_READ | PROT_WRITE, MAP_SHARED, shm, 0);
    if (G == MAP_FAILED) return 3;
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    for (;;) {
        char c;
        if (read(in, &c, 1) != 1) return 0;
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            SxHeader &h = G->h;
            if (!h.wantLog) {
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 2);
                dup2(nul, 1);
            }
            struct rlimit rl = { (rlim_t)tmo, (rlim_t)tmo + 1 };
            setrlimit(RLIMIT_CPU, &rl);
            struct rlimit rc = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rc);
            alarm(tmo * 4);
            htab = (u32 *)mmap(nullptr, HSIZE * sizeof(u32), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            conSeen = (u32 *)mmap(nullptr, CSEEN * sizeof(u32), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            h.varCount = h.nConstraints = h.nAlts = h.nElems = 0;
            h.nNodes = 1;
            h.nTables = 1;
            h.status = SXS_RUNNING;
            h.lost = h.nSampled = h.reach = h.asserts = h.symAsserts = h.nVarNames = 0;
            h.message[0] = h.lostMsg[0] = 0;
            active = true;
            try {
                fn();
            } catch (const std::exception &e) {
                active = false;
                int st = 0;
                char *d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
                finish(SXS_EXCEPTION, "uncaught exception %s: %s", d ? d : "?", e.what());
            } catch (...) {
                active = false;
                auto *ti = abi::__cxa_current_exception_type();
                int st = 0;
                char *d = ti ? abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st) : nullptr;
                finish(SXS_EXCEPTION, "uncaught exception %s", d ? d : "?");
            }
            active = false;
            finish(SXS_OK, "");
        }
        int st = 0;
        if (pid < 0)
            st = 0x7f00;
        else
            waitpid(pid, &st, 0);
        if (write(out, &st, sizeof st) != sizeof st) return 0;
    }
}
