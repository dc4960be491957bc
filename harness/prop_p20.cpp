// P20: ISO 8601 text of a timetag
// uses: fmt.cpp
#include "model.hpp"
#include "fmt.hpp"
using namespace pt;

static const int64_t LAST_DAY = 4294967295ll / 86400; // 2036-02-07
static uint32_t gen_sec(Ctx &c) {
    int64_t day;
    switch (c.s.below(4)) {
    case 0: { // a month's end or begin
        int y = c.s.range(1900, 2036), m = c.s.range(1, 12);
        day = days_from_civil(y, m, 1) - (int64_t)c.s.below(3) + (int64_t)c.s.below(2);
        break;
    }
    case 1: { // the end of February
        int y = c.s.chance(40) ? c.s.pick(std::vector<int>{1900, 1904, 1999, 2000, 2004, 2016, 2017, 2035, 2036}) : c.s.range(1900, 2036);
        day = days_from_civil(y, 2, 27) + (int64_t)c.s.below(4);
        break;
    }
    case 2: { // the year's end
        day = days_from_civil(c.s.range(1900, 2036), 12, 30) + (int64_t)c.s.below(4);
        break;
    }
    default: day = (int64_t)c.s.below(LAST_DAY + 1);
    }
    if (day < 0) day = 0;
    if (day > LAST_DAY) day = LAST_DAY;
    static const std::vector<uint32_t> tod = {0, 1, 59, 60, 61, 3599, 3600, 3601, 43199, 43200, 86399, 86340};
    uint64_t s = (uint64_t)day * 86400 + (c.s.chance(60) ? c.s.pick(tod) : c.s.below(86400));
    return s > 0xffffffffull ? 0xffffffffu : (uint32_t)s;
}
static void text(Ctx &c) {
    uint32_t sec = gen_sec(c), frac;
    switch (c.s.below(4)) {
    case 0: frac = c.s.pick(std::vector<uint32_t>{0, 1, 2147, 2148, 4295, 4294963000u, 4294965148u, 4294967294u, 4294967295u, 0x80000000u}); break;
    case 1: frac = (uint32_t)((c.s.below(1000000) * 4294967296ull) / 1000000); break;
    default: frac = (uint32_t)c.s.u64();
    }
    c.note(strf("%u.%08x", sec, frac));
    std::string want = fmt_time(sec, frac);
    c.nontrivial = frac != 0;
    t_osc_timetag t{sec, frac};
    long n = osc_timetag_nformat(nullptr, 0, t);
    CHECK(c, n == (long)want.size(), "announced length %ld, want %zu", n, want.size());
    Buf b(std::string(n + 1, '\x5a'));
    long w = osc_timetag_nformat(b.p, n + 1, t);
    CHECK(c, w == n && b.p[n] == 0, "wrote %ld bytes", w);
    CHECK(c, want == b.p, "text %s, want %s", b.p, want.c_str());
    char *f = osc_timetag_format(t);
    CHECK(c, want == f, "format gives %s, want %s", f, want.c_str());
    free(f);
    // and back: the same second, and the fraction to the printed digits
    t_osc_timetag r{123, 456};
    osc_timetag_fromISO8601(b.p, &r);
    CHECK(c, want == b.p, "parsing changed the text");
    CHECK(c, r.sec == sec, "%s is read as second %u, want %u", b.p, r.sec, sec);
    double err = fabs((double)r.frac_sec - (double)frac);
    CHECK(c, err <= 4294.97 + 2, "%s is read with the fraction %08x, want %08x", b.p, r.frac_sec, frac);
    Buf b2(std::string(n + 1, '\x5a'));
    osc_timetag_nformat(b2.p, n + 1, r);
    CHECK(c, want == b2.p, "text read and written again: %s, want %s", b2.p, want.c_str());
}
static void parse(Ctx &c) {
    uint32_t sec = gen_sec(c);
    int y, m, d;
    civil_from_days(sec / 86400, y, m, d);
    uint32_t r = sec % 86400;
    int digits = c.s.range(0, 9);
    uint64_t p10 = 1;
    for (int i = 0; i < digits; i++) p10 *= 10;
    uint64_t f = c.s.chance(20) ? p10 - 1 : c.s.below(p10);
    std::string s = strf("%04d-%02d-%02dT%02u:%02u:%02u", y, m, d, r / 3600, r / 60 % 60, r % 60);
    if (digits) s += strf(".%0*llu", digits, (unsigned long long)f);
    s += "Z";
    c.note(s);
    c.nontrivial = digits > 0 && f;
    Buf b(s + std::string(1, '\0'));
    t_osc_timetag t{99, 98};
    osc_timetag_fromISO8601(b.p, &t);
    CHECK(c, t.sec == sec, "%s is second %u, want %u", s.c_str(), t.sec, sec);
    double want = (double)f / (double)p10 * 4294967295.0;
    CHECK(c, fabs((double)t.frac_sec - want) <= 3, "%s has the fraction %u, want %.1f", s.c_str(), t.frac_sec, want);
}
static void order(Ctx &c) {
    // the text sorts as the timetags do
    uint32_t a = gen_sec(c), b = c.s.chance(50) ? a + (uint32_t)c.s.below(200000) : gen_sec(c);
    uint32_t fa = (uint32_t)c.s.u64(), fb = (uint32_t)c.s.u64();
    c.note(strf("%u.%08x %u.%08x", a, fa, b, fb));
    char *x = osc_timetag_format(t_osc_timetag{a, fa}), *y = osc_timetag_format(t_osc_timetag{b, fb});
    uint64_t va = (uint64_t)a << 32 | fa, vb = (uint64_t)b << 32 | fb;
    int k = strcmp(x, y);
    CHECK(c, va < vb ? k <= 0 : va > vb ? k >= 0 : k == 0, "%s and %s are out of order", x, y);
    c.nontrivial = k != 0;
    free(x), free(y);
}

namespace pt {
Property property = {
    "P20",
    "seconds over the whole range 1900-2036 with weight on month ends, February, year ends and times of day at their limits; "
    "fractions at the rounding limits; texts with 0 to 9 fractional digits. The oracle counts days by whole 400-year cycles. "
    "Non-trivial: a nonzero fraction",
    {{"text and back", 5, text}, {"parse", 4, parse}, {"order", 1, order}},
    {"times are in UTC"},
    2500000, 150000000,
};
}
