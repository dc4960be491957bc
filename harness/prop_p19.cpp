// P19: timetag arithmetic
#include "model.hpp"
#include <sys/time.h>
using namespace pt;
typedef unsigned __int128 u128;

static uint32_t part(Ctx &c) {
    static const std::vector<uint32_t> e = {0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff};
    switch (c.s.below(4)) {
    case 0: return c.s.pick(e);
    case 1: return (uint32_t)c.s.below(5);
    case 2: return (uint32_t)(1u << c.s.below(32)) - (uint32_t)c.s.below(2);
    default: return (uint32_t)c.s.u64();
    }
}
static t_osc_timetag tag(uint64_t v) { return t_osc_timetag{(uint32_t)(v >> 32), (uint32_t)v}; }
static uint64_t val(t_osc_timetag t) { return (uint64_t)t.sec << 32 | t.frac_sec; }
static uint64_t gen(Ctx &c) { return (uint64_t)part(c) << 32 | part(c); }
static void pair(Ctx &c, uint64_t &a, uint64_t &b) {
    a = gen(c);
    switch (c.s.below(5)) {
    case 0: b = a + c.s.below(3) - 1; break;
    case 1: b = (a & 0xffffffff00000000ull) | part(c); break;
    case 2: b = (uint64_t)part(c) << 32 | (uint32_t)a; break;
    case 3: b = ~a + c.s.below(3); break; // around the carry of everything
    default: b = gen(c);
    }
    c.note(strf("%08x.%08x %08x.%08x", (uint32_t)(a >> 32), (uint32_t)a, (uint32_t)(b >> 32), (uint32_t)b));
}
static void arith(Ctx &c) {
    uint64_t a, b;
    pair(c, a, b);
    bool carry = (uint64_t)(uint32_t)a + (uint32_t)b >> 32, borrow = (a > b) != ((uint32_t)a > (uint32_t)b) && (uint32_t)a != (uint32_t)b;
    c.nontrivial = carry || borrow;
    uint64_t s = val(osc_timetag_add(tag(a), tag(b)));
    CHECK(c, s == a + b, "the sum is %016" PRIx64 ", want %016" PRIx64, s, a + b);
    uint64_t d = val(osc_timetag_subtract(tag(a), tag(b))), w = a > b ? a - b : b - a;
    CHECK(c, d == w, "the difference is %016" PRIx64 ", want %016" PRIx64, d, w);
    int k = osc_timetag_compare(tag(a), tag(b)), wk = a < b ? -1 : a > b;
    CHECK(c, k == wk, "comparison gives %d, want %d", k, wk);
    CHECK(c, osc_timetag_compare(tag(a), tag(a)) == 0, "a timetag is not equal to itself");
    CHECK(c, !!osc_timetag_isImmediate(tag(a)) == (a == 1), "isImmediate is %d", osc_timetag_isImmediate(tag(a)));
    CHECK(c, osc_timetag_ntp_getSeconds(tag(a)) == a >> 32 && osc_timetag_ntp_getFraction(tag(a)) == (uint32_t)a, "the parts differ");
}
static void header(Ctx &c) {
    uint64_t a = gen(c);
    c.nontrivial = a > 0xffffffffull && (uint32_t)a;
    Buf b("#bundle\0zzzzzzzz" + std::string());
    Buf h(std::string(8, 'z'));
    osc_timetag_encodeForHeader(tag(a), h.p);
    CHECK(c, std::string(h.p, 8) == be64(a), "encoded as %s", hex(h.p, 8).c_str());
    CHECK(c, val(osc_timetag_decodeFromHeader(h.p)) == a, "decoded as %016" PRIx64, val(osc_timetag_decodeFromHeader(h.p)));
    CHECK(c, std::string(h.p, 8) == be64(a), "decoding changed the bytes");
    CHECK(c, val(osc_timetag_decodeFromHeader(nullptr)) == 0, "decoding nothing");
    osc_timetag_encodeForHeader(tag(a), nullptr);
}
// exact value of a timetag read with the library's scale: sec + frac / (2^32 - 1)
static long double ideal(uint64_t a) { return (long double)(a >> 32) + (long double)(uint32_t)a / 4294967295.0L; }
static void floats(Ctx &c) {
    uint64_t a, b;
    pair(c, a, b);
    double fa = osc_timetag_timetagToFloat(tag(a)), fb = osc_timetag_timetagToFloat(tag(b));
    double ulp = nextafter(fa, INFINITY) - fa;
    c.nontrivial = (uint32_t)a != 0;
    // either reading of the fraction (of 2^32 or of 2^32 - 1 units) is accurate to one unit
    CHECK(c, fabsl((long double)fa - ideal(a)) <= 2.0L * ulp + 0x1p-32L, "%016" PRIx64 " is %.12f", a, fa);
    if (a <= b) CHECK(c, fa <= fb, "not monotonic: %.12f, %.12f", fa, fb);
    else CHECK(c, fb <= fa, "not monotonic: %.12f, %.12f", fa, fb);
    if ((a >> 32) < 0xffffffff) {
        uint64_t r = val(osc_timetag_floatToTimetag(fa));
        uint64_t diff = r > a ? r - a : a - r;
        CHECK(c, diff <= (uint64_t)(2 * ulp * 4294967296.0) + 2, "%016" PRIx64 " there and back is %016" PRIx64, a, r);
    }
}
static void from_float(Ctx &c) {
    double x[2];
    for (auto &d : x) {
        switch (c.s.below(4)) {
        case 0: d = part(c); break;
        case 1: d = part(c) / 2 + c.s.below(1000) / 1000.; break;
        case 2: d = c.s.below(1000000) / 1e6; break;
        default: d = (double)(c.s.u64() >> 1) / 4294967296.0;
        }
        if (d >= 4294967295.0) d = 4294967295.0;
    }
    if (c.s.chance(30)) x[1] = nextafter(x[0], INFINITY);
    if (x[1] >= 4294967296.0) x[1] = x[0];
    c.note(strf("%.17g %.17g", x[0], x[1]));
    uint64_t v[2];
    for (int i = 0; i < 2; i++) {
        t_osc_timetag t = osc_timetag_floatToTimetag(x[i]);
        v[i] = val(t);
        double fl = floor(x[i]), fr = x[i] - fl;
        if (fr) c.nontrivial = true;
        CHECK(c, t.sec == (uint32_t)fl, "%.17g has %u seconds", x[i], t.sec);
        CHECK(c, fabs((double)t.frac_sec - fr * 4294967295.0) <= 1.5, "%.17g has the fraction %u", x[i], t.frac_sec);
        double back = osc_timetag_timetagToFloat(t), ulp = nextafter(x[i], INFINITY) - x[i];
        CHECK(c, fabs(back - x[i]) <= 2 * ulp + 0x1p-31, "%.17g there and back is %.17g", x[i], back);
    }
    CHECK(c, (x[0] <= x[1]) ? v[0] <= v[1] : v[1] <= v[0], "not monotonic: %016" PRIx64 " %016" PRIx64, v[0], v[1]);
}
static void clock_now(Ctx &c) {
    struct timeval a, b;
    gettimeofday(&a, nullptr);
    t_osc_timetag t = osc_timetag_now();
    gettimeofday(&b, nullptr);
    long double lo = a.tv_sec + 2208988800.0L + a.tv_usec / 1e6L, hi = b.tv_sec + 2208988800.0L + b.tv_usec / 1e6L, x = ideal(val(t));
    hi = fmodl(hi, 4294967296.0L), lo = fmodl(lo, 4294967296.0L);
    if (lo <= hi) CHECK(c, x >= lo - 2e-6L && x <= hi + 2e-6L, "now is %Lf, between %Lf and %Lf expected", x, lo, hi);
}

namespace pt {
Property property = {
    "P19",
    "pairs of timetags around carries, borrows, equal parts, powers of two and the extremes, against 64-bit integer arithmetic; "
    "header encoding in exact buffers; conversion to and from floating point with error bounds and order; the clock. "
    "Non-trivial: a carry or borrow between the parts, a nonzero fraction",
    {{"arithmetic", 5, arith}, {"header", 1, header}, {"to float", 2, floats}, {"from float", 2, from_float}, {"clock", 1, clock_now}},
    {"a difference is absolute (the type is unsigned)", "floating-point values are in [0, 2^32)"},
    3000000, 200000000,
};
}
