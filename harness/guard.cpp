#include "guard.hpp"
#include <execinfo.h>
#include <unordered_map>
using namespace pt;

namespace guard {
bool growth_ok = true;
struct Block { size_t n; bool raw; void *bt[12]; int nbt; };
static std::unordered_map<void *, Block> *reg = nullptr;
static size_t bytes = 0, single_max = 0, total_max = 0, stack_max = 0;
static unsigned char fillb = 0;
static std::string prob, rawwhat;
static long nalloc = 0, nraw = 0;
static char *stack_base = nullptr;
static bool watching = false;

static void note_block(void *p, size_t n, bool raw) {
    Block b;
    b.n = n;
    b.raw = raw;
    static const bool trace = getenv("PT_TRACE") != nullptr;
    b.nbt = trace ? backtrace(b.bt, 12) : 0;
    (*reg)[p] = b;
    bytes += n;
}
static void check_growth(size_t n) {
    char *here = (char *)__builtin_frame_address(0);
    size_t depth = stack_base ? (size_t)(stack_base > here ? stack_base - here : here - stack_base) : 0;
    const char *what = nullptr;
    if (single_max && n > single_max) what = "asks for too large a block";
    else if (total_max && bytes + n > total_max) what = "asks for too much memory";
    else if (stack_max && depth > stack_max) what = "recurses too deeply";
    if (!what) return;
    if (growth_ok) throw Discard{};
    throw Fail{strf("the library %s (block of %zu bytes, %zu bytes live, stack %zu)", what, n, bytes, depth)};
}
static void *g_alloc(size_t n) {
    check_growth(n);
    void *p = malloc(n ? n : 1);
    memset(p, fillb, n);
    note_block(p, n, false);
    nalloc++;
    return p;
}
static void g_free(void *p) {
    if (!p) return;
    auto it = reg->find(p);
    if (it == reg->end() || it->second.raw) {
        if (prob.empty()) prob = "a block was freed through the installed function that it did not hand out (or twice)";
        return;
    }
    bytes -= it->second.n;
    reg->erase(it);
    free(p);
}
static void *g_resize(void *p, size_t n) {
    if (!p) return g_alloc(n);
    auto it = reg->find(p);
    if (it == reg->end() || it->second.raw) {
        if (prob.empty()) prob = "a block was resized through the installed function that it did not hand out";
        return nullptr;
    }
    check_growth(n);
    size_t old = it->second.n;
    void *q = malloc(n ? n : 1); // always moves
    memcpy(q, p, old < n ? old : n);
    if (n > old) memset((char *)q + old, fillb, n - old);
    reg->erase(it);
    free(p);
    bytes -= old;
    note_block(q, n, false);
    nalloc++;
    return q;
}
void install() {
    if (!reg) reg = new std::unordered_map<void *, Block>;
    osc_set_mem(g_alloc, g_free, g_resize);
    watching = true;
}
void begin(unsigned char fill) {
    release();
    fillb = fill;
    prob.clear();
    rawwhat.clear();
    nalloc = nraw = 0;
    stack_base = (char *)__builtin_frame_address(0);
}
void adopt() {
    reg->clear();
    bytes = 0;
}
void limit(size_t s, size_t t, size_t k) {
    single_max = s;
    total_max = t;
    stack_max = k;
}
size_t live_blocks() { return reg->size(); }
size_t live_bytes() { return bytes; }
std::string live() {
    std::string r;
    int k = 0;
    for (auto &x : *reg) {
        if (k++ == 4) break;
        r += strf("%s%zu bytes%s ", k > 1 ? "; " : "", x.second.n, x.second.raw ? " (malloc)" : "") + show(std::string((char *)x.first, x.second.n < 24 ? x.second.n : 24));
        if (x.second.nbt) {
            FILE *f = fopen(getenv("PT_TRACE"), "a");
            if (f) backtrace_symbols_fd(x.second.bt, x.second.nbt, fileno(f)), fclose(f);
        }
    }
    return r;
}
std::string problem() { return prob; }
long allocs() { return nalloc; }
long raw_calls() { return nraw; }
std::string raw_what() { return rawwhat; }
void release() {
    for (auto &x : *reg) free(x.first);
    reg->clear();
    bytes = 0;
}
static void raw_call(const char *f) {
    if (!watching) return;
    if (rawwhat.empty()) rawwhat = f;
    nraw++;
}
static void *raw_new(const char *f, void *p, size_t n) {
    raw_call(f);
    if (watching && p) note_block(p, n, true);
    return p;
}
} // namespace guard

using namespace guard;
extern "C" {
void *libo_malloc(size_t n) { return raw_new("malloc", malloc(n), n); }
void *libo_calloc(size_t k, size_t n) { return raw_new("calloc", calloc(k, n), k * n); }
void *libo_aligned_alloc(size_t a, size_t n) { return raw_new("aligned_alloc", aligned_alloc(a, n), n); }
int libo_posix_memalign(void **p, size_t a, size_t n) {
    int r = posix_memalign(p, a, n);
    if (!r) raw_new("posix_memalign", *p, n);
    return r;
}
void libo_free(void *p) {
    if (!p) return;
    raw_call("free");
    if (watching) {
        auto it = reg->find(p);
        if (it != reg->end()) {
            if (!it->second.raw && prob.empty()) prob = "a block of the installed function was freed with free()";
            bytes -= it->second.n;
            reg->erase(it);
        }
    }
    free(p);
}
void *libo_realloc(void *p, size_t n) {
    raw_call("realloc");
    if (watching && p) {
        auto it = reg->find(p);
        if (it != reg->end()) {
            if (!it->second.raw && prob.empty()) prob = "a block of the installed function was resized with realloc()";
            bytes -= it->second.n;
            reg->erase(it);
        }
    }
    return raw_new("realloc", realloc(p, n), n);
}
char *libo_strdup(const char *s) { return (char *)raw_new("strdup", strdup(s), strlen(s) + 1); }
char *libo_strndup(const char *s, size_t n) { return (char *)raw_new("strndup", strndup(s, n), strnlen(s, n) + 1); }
int libo_vasprintf(char **p, const char *f, va_list ap) {
    int r = vasprintf(p, f, ap);
    if (r >= 0) raw_new("vasprintf", *p, (size_t)r + 1);
    return r;
}
int libo_asprintf(char **p, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = libo_vasprintf(p, f, ap);
    va_end(ap);
    return r;
}
}
