// P35: any expression text is evaluated or cleanly rejected; the bundle stays valid
// uses: expr.cpp
// uses: exgen.cpp
// uses: guard.cpp
#include "pt.hpp"
#include "expr.hpp"
#include "exgen.hpp"
#include "guard.hpp"
using namespace pt;

static std::string fixed_bndl;
static ex::Run fixed_run;
static const char *FIXED = "/r = map(lambda([v], v * 2), [1, 2, 3]), /s = join(\"-\", split(\".\", \"a.b\")), /n = {/q : 1}";

static bool same_run(const ex::Run &a, const ex::Run &b, std::string &why) {
    if (a.parsed != b.parsed) why = "parsed";
    else if (a.n != b.n) why = "number of expressions evaluated";
    else if (a.err != b.err) why = "error code";
    else if (a.has_out != b.has_out || !ex::same(a.out, b.out)) why = "value";
    else if (a.bndl != b.bndl) why = "bundle";
    else return true;
    return false;
}

static void init() {
    fixed_bndl = enc_bundle({});
    fixed_run = ex::run(FIXED, fixed_bndl); // makes the function table too
    guard::install();
}

static void go(Ctx &c, const std::string &text_, const MBundle &b) {
    std::string text = text_.substr(0, 2000), bndl = enc_bundle(b);
    size_t z = text.find('\0');
    if (z != std::string::npos) text.resize(z);
    c.note("text   " + show(text));
    c.note("bundle " + dump(b));
    guard::growth_ok = exgen::may_grow(text, bndl);
    guard::limit(16 << 20, 64 << 20, 3 << 20);
    ex::Run r[2];
    for (int k = 0; k < 2; k++) {
        guard::begin(k ? 0xff : 0x41);
        try {
            r[k] = ex::run(text, bndl);
        } catch (...) {
            guard::limit(0, 0, 0);
            guard::release();
            throw;
        }
        CHECK(c, guard::problem().empty(), "%s", guard::problem().c_str());
    }
    guard::limit(0, 0, 0);
    must_decode(c, "the bundle afterwards", r[0].bndl.data(), (long)r[0].bndl.size());
    std::string why;
    CHECK(c, same_run(r[0], r[1], why), "the same text on the same bundle gave another %s\n  first  err %d out %s bundle %s\n  second err %d out %s bundle %s", why.c_str(), r[0].err,
          ex::dump(r[0].out).c_str(), show(r[0].bndl).c_str(), r[1].err, ex::dump(r[1].out).c_str(), show(r[1].bndl).c_str());
    guard::begin(0x11);
    ex::Run f = ex::run(FIXED, fixed_bndl);
    CHECK(c, same_run(f, fixed_run, why), "after this text, another program gives another %s than before", why.c_str());
    c.nontrivial = r[0].parsed;
    if (!r[0].parsed) c.label("rejected by the parser");
    else if (r[0].err) c.label("evaluation error");
    else c.label("evaluated");
    if (r[0].bndl != bndl) c.label("bundle changed");
}

static void calls(Ctx &c) { MBundle b = exgen::bundle(c); go(c, exgen::call(c), b); }
static void programs(Ctx &c) { MBundle b = exgen::bundle(c); go(c, exgen::program(c), b); }
static void mutants(Ctx &c) { MBundle b = exgen::bundle(c); go(c, exgen::mutant(c), b); }
static void soups(Ctx &c) { MBundle b = exgen::bundle(c); go(c, exgen::soup(c), b); }
static void raws(Ctx &c) { MBundle b = exgen::bundle(c); go(c, exgen::raw(c), b); }

namespace pt {
Property property = {"P35", "the parser accepts the text, so that it is evaluated",
    {{"calls", 6, calls}, {"programs", 6, programs}, {"mutants", 3, mutants}, {"soup", 2, soups}, {"raw", 1, raws}},
    {"a program that legitimately needs more than 64 MB or 3 MB of stack (long generated lists, unbounded recursion through eval()) is not judged",
     "evaluations run under an allocator of the harness that fills new blocks with a different value in each of the two runs"},
    60000, 3000000, {}, 20, init};
}
