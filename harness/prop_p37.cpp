// P37: all memory of the library comes from the functions given to osc_set_mem()
// uses: expr.cpp
// uses: exgen.cpp
// uses: guard.cpp
// uses: ops.cpp
// redefine: malloc calloc realloc free strdup strndup aligned_alloc posix_memalign asprintf vasprintf
#include "ops.hpp"
#include "guard.hpp"
using namespace pt;

static long made_before;
static void init() {
    guard::install();
    long n = guard::allocs();
    ops::warm_up(); // the tables for the life of the process are made from the installed functions too
    made_before = guard::raw_calls();
    if (guard::allocs() == n) made_before = -1;
    guard::adopt();
}
static void routed(Ctx &c, void (*f)(Ctx &)) {
    CHECK(c, made_before == 0, "making the tables of functions and categories: %s", made_before < 0 ? "nothing was taken from the installed functions" : guard::raw_what().c_str());
    guard::growth_ok = true;
    guard::limit(16 << 20, 64 << 20, 3 << 20);
    guard::begin((unsigned char)c.s.pickc("\x41\xff"));
    try {
        f(c);
    } catch (...) {
        guard::limit(0, 0, 0);
        guard::release();
        throw;
    }
    guard::limit(0, 0, 0);
    long n = guard::raw_calls();
    std::string what = n ? guard::raw_what() : "", problem = guard::problem();
    c.nontrivial = guard::allocs() >= 4;
    guard::release();
    CHECK(c, !n, "%ld calls of the C library's allocator, the first one %s", n, what.c_str());
    CHECK(c, problem.empty(), "%s", problem.c_str());
}
static void values(Ctx &c) { routed(c, ops::values); }
static void messages(Ctx &c) { routed(c, ops::messages); }
static void bundles(Ctx &c) { routed(c, ops::bundles); }
static void serialised(Ctx &c) { routed(c, ops::serialised); }
static void text(Ctx &c) { routed(c, ops::text); }
static void selection(Ctx &c) { routed(c, ops::selection); }
static void expressions(Ctx &c) { routed(c, ops::expressions); }
static void containers(Ctx &c) { routed(c, ops::containers); }


// what is installed when: any subset of the three functions, again and again, with memory used in between
struct Call { int family; char what; void *p; size_t n; };
static std::vector<Call> calls;
template <int F> static void *f_alloc(size_t n) { calls.push_back({F, 'a', nullptr, n}); void *p = malloc(n ? n : 1); calls.back().p = p; return p; }
template <int F> static void f_free(void *p) { calls.push_back({F, 'f', p, 0}); free(p); }
template <int F> static void *f_resize(void *p, size_t n) { calls.push_back({F, 'r', p, n}); return realloc(p, n ? n : 1); }
static void *(*const allocs[])(size_t) = {f_alloc<0>, f_alloc<1>, f_alloc<2>, f_alloc<3>};
static void (*const frees[])(void *) = {f_free<0>, f_free<1>, f_free<2>, f_free<3>};
static void *(*const resizes[])(void *, size_t) = {f_resize<0>, f_resize<1>, f_resize<2>, f_resize<3>};

static void installing(Ctx &c) {
    struct Restore {
        std::vector<void *> blocks;
        ~Restore() {
            for (void *p : blocks) free(p);
            guard::install();
        }
    } r;
    auto &blocks = r.blocks;
    std::vector<size_t> sizes;
    int a = 0, f = 0, z = 0, changes = 0, used = 0;
    osc_set_mem(allocs[0], frees[0], resizes[0]);
    int n = c.s.count(1, 24);
    for (int i = 0; i < n; i++) {
        calls.clear();
        int k = c.s.weighted({3, 3, 2, 3, 3});
        if (k == 0) { // install some of the functions; no function leaves what is installed
            int which = c.s.range(0, 7), g = c.s.range(0, 3);
            c.note(strf("install %d of %d", which, g));
            osc_set_mem(which & 1 ? allocs[g] : nullptr, which & 2 ? frees[g] : nullptr, which & 4 ? resizes[g] : nullptr);
            if (which & 1) a = g;
            if (which & 2) f = g;
            if (which & 4) z = g;
            changes += which > 0 && which < 7;
            CHECK(c, calls.empty(), "installing functions calls one of them");
        } else if (k == 1) {
            size_t m = c.s.below(100);
            c.note(strf("alloc %zu", m));
            void *p = osc_mem_alloc(m);
            blocks.push_back(p);
            sizes.push_back(m);
            CHECK(c, calls.size() == 1 && calls[0].what == 'a' && calls[0].family == a && calls[0].n == m && calls[0].p == p,
                "osc_mem_alloc(%zu) calls %zu functions, the first '%c' of family %d (installed: %d)", m, calls.size(), calls.empty() ? '-' : calls[0].what, calls.empty() ? -1 : calls[0].family, a);
            memset(p, (int)m, m);
            used++;
        } else if (k == 2 && !blocks.empty()) {
            size_t at = c.s.below(blocks.size());
            void *p = blocks[at];
            blocks.erase(blocks.begin() + (long)at);
            sizes.erase(sizes.begin() + (long)at);
            c.note("free");
            osc_mem_free(p);
            CHECK(c, calls.size() == 1 && calls[0].what == 'f' && calls[0].family == f && calls[0].p == p,
                "osc_mem_free() calls %zu functions, the first '%c' of family %d (installed: %d)", calls.size(), calls.empty() ? '-' : calls[0].what, calls.empty() ? -1 : calls[0].family, f);
            used++;
        } else if (k == 3) {
            size_t m = c.s.below(200) + 1;
            bool fresh = blocks.empty() || c.s.chance(30); // NULL is a request for a new block
            size_t at = fresh ? 0 : c.s.below(blocks.size());
            c.note(strf("resize %s to %zu", fresh ? "NULL" : "a block", m));
            void *p = fresh ? nullptr : blocks[at], *q = osc_mem_resize(p, m);
            if (fresh) {
                blocks.push_back(q);
                sizes.push_back(m);
            } else {
                blocks[at] = q;
            }
            char w = fresh ? 'a' : 'r';
            int fam = fresh ? a : z;
            CHECK(c, calls.size() == 1 && calls[0].what == w && calls[0].family == fam && calls[0].n == m && (fresh || calls[0].p == p),
                "osc_mem_resize(%s, %zu) calls %zu functions, the first '%c' of family %d (installed: %d)", fresh ? "NULL" : "p", m, calls.size(), calls.empty() ? '-' : calls[0].what, calls.empty() ? -1 : calls[0].family, fam);
            for (size_t j = 0; !fresh && j < std::min(m, sizes[at]); j++) CHECK(c, ((unsigned char *)q)[j] == (unsigned char)sizes[at], "osc_mem_resize() doesn't keep the contents");
            sizes[fresh ? sizes.size() - 1 : at] = m;
            memset(q, (int)m, m);
            used++;
        } else { // a piece of the library
            t_osc_msg_u *m = osc_message_u_allocWithString((char *)"/a", (char *)"some string that is long enough");
            t_osc_msg_u *d = nullptr;
            osc_message_u_deepCopy(&d, m);
            osc_message_u_free(m);
            osc_message_u_free(d);
            size_t na = 0, nf = 0;
            for (auto &x : calls) {
                int want = x.what == 'a' ? a : x.what == 'f' ? f : z;
                CHECK(c, x.family == want, "a message is made with '%c' of family %d (installed: %d)", x.what, x.family, want);
                na += x.what == 'a';
                nf += x.what == 'f' && x.p;
            }
            c.note("message");
            CHECK(c, na >= 3 && na == nf, "making, copying and freeing a message takes %zu blocks and gives back %zu", na, nf);
            used++;
        }
    }
    c.nontrivial = changes && used >= 2;
}

namespace pt {
Property property = {"P37", "at least four blocks are allocated; installing: only some of the functions are replaced at least once and memory is used at least twice",
    {{"values", 3, values}, {"messages", 4, messages}, {"bundles", 4, bundles}, {"serialised", 3, serialised}, {"text", 3, text}, {"selection", 2, selection},
     {"expressions", 6, expressions}, {"containers", 2, containers}, {"installing", 1, installing}},
    {"the allocator of the C library is reached through malloc, calloc, realloc, free, strdup, strndup, aligned_alloc, posix_memalign, asprintf or vasprintf",
     "programs that would need more than 64 MB or 3 MB of stack are abandoned"},
    300000, 4000000, {}, 20, init};
}
