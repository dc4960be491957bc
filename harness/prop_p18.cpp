// P18: everything allocated through the API is released by its free functions
// uses: expr.cpp
// uses: exgen.cpp
// uses: guard.cpp
// uses: ops.cpp
// redefine: malloc calloc realloc free strdup strndup aligned_alloc posix_memalign asprintf vasprintf
#include "ops.hpp"
#include "guard.hpp"
using namespace pt;

static void init() {
    ops::warm_up(); // before the allocator is installed, so that it is not counted
    guard::install();
}
static void balanced(Ctx &c, void (*f)(Ctx &)) {
    guard::growth_ok = true;
    guard::limit(16 << 20, 64 << 20, 3 << 20);
    guard::begin((unsigned char)c.s.pickc("\x41\xff"));
    try {
        f(c);
    } catch (...) {
        guard::limit(0, 0, 0);
        guard::release();
        throw;
    }
    guard::limit(0, 0, 0);
    CHECK(c, guard::problem().empty(), "%s", guard::problem().c_str());
    size_t n = guard::live_blocks(), m = guard::live_bytes();
    std::string what = n ? guard::live() : "";
    c.nontrivial = guard::allocs() >= 4;
    guard::release();
    CHECK(c, !n, "after everything was freed, %zu blocks (%zu bytes) remain: %s", n, m, what.c_str());
}
static void values(Ctx &c) { balanced(c, ops::values); }
static void messages(Ctx &c) { balanced(c, ops::messages); }
static void bundles(Ctx &c) { balanced(c, ops::bundles); }
static void serialised(Ctx &c) { balanced(c, ops::serialised); }
static void text(Ctx &c) { balanced(c, ops::text); }
static void selection(Ctx &c) { balanced(c, ops::selection); }
static void expressions(Ctx &c) { balanced(c, ops::expressions); }
static void containers(Ctx &c) { balanced(c, ops::containers); }

namespace pt {
Property property = {"P18", "at least four blocks are allocated",
    {{"values", 3, values}, {"messages", 4, messages}, {"bundles", 4, bundles}, {"serialised", 3, serialised}, {"text", 3, text}, {"selection", 2, selection},
     {"expressions", 6, expressions}, {"containers", 2, containers}},
    {"tables that the library makes once and keeps for the life of the process (functions and categories of expressions) are made before counting begins",
     "programs that would need more than 64 MB or 3 MB of stack are abandoned"},
    400000, 4000000, {}, 20, init};
}
