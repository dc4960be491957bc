// P27: arithmetic and mathematical functions of the expression language
// uses: expr.cpp
#include "expr.hpp"
using namespace pt;
using ex::VList;

static const char *NUMT = "idfhcuIHCU";

static MAtom f_atan2(const MAtom &a, const MAtom &b) { return mk_d(atan2(ex::num(a), ex::num(b))); }
static MAtom f_pow(const MAtom &a, const MAtom &b) { return mk_d(pow(ex::num(a), ex::num(b))); }
static MAtom f_fmod(const MAtom &a, const MAtom &b) { return mk_d(fmod(ex::num(a), ex::num(b))); }
static MAtom f_hypot(const MAtom &a, const MAtom &b) { return mk_d(hypot(ex::num(a), ex::num(b))); }
static MAtom f_rem(const MAtom &a, const MAtom &b) { return mk_d(remainder(ex::num(a), ex::num(b))); }

static std::string bundle(const VList &a, const VList &b, uint64_t tt) {
    MBundle m;
    m.push_back({"/before", {mk_i(1), mk_s("x")}});
    m.push_back({"/a", a});
    m.push_back({"/b", b});
    return enc_bundle(m, tt);
}

// evaluate /r = <text>; the value must be `want`, /r must hold it, and everything else must be untouched
static void check_value(Ctx &c, const std::string &text, const VList &a, const VList &b, const VList &want, double tol = 0, double wrap = 0) {
    uint64_t tt = c.s.u64();
    std::string in = bundle(a, b, tt);
    c.note("/a = " + ex::dump(a) + "  /b = " + ex::dump(b) + "\n/r = " + text + "\nwant " + ex::dump(want));
    ex::Run r = ex::run("/r = " + text, in);
    CHECK(c, r.parsed, "`/r = %s` is not accepted by the parser", text.c_str());
    CHECK(c, !r.err, "`/r = %s` with /a = %s, /b = %s gives error %x; want %s", text.c_str(), ex::dump(a).c_str(), ex::dump(b).c_str(), r.err, ex::dump(want).c_str());
    MBundle out = must_decode(c, "bundle after the assignment", r.bndl.data(), r.bndl.size());
    CHECK(c, out.size() == 4 && out[3].addr == "/r", "`/r = %s` leaves the bundle %s", text.c_str(), dump(out).c_str());
    CHECK(c, r.bndl.compare(0, in.size(), in) == 0, "`/r = %s` changes the rest of the bundle: %s", text.c_str(), dump(out).c_str());
    const VList &got = out[3].args;
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); i++) {
        if (ex::same(got[i], want[i])) continue;
        ok = got[i].tt == 'd' && want[i].tt == 'd' &&
             (ex::close_enough(got[i].d, want[i].d, tol) || (wrap && ex::close_enough(fabs(got[i].d - want[i].d), wrap, tol)));
    }
    CHECK(c, ok, "`/r = %s` with /a = %s, /b = %s gives %s; want %s", text.c_str(), ex::dump(a).c_str(), ex::dump(b).c_str(), ex::dump(got).c_str(), ex::dump(want).c_str());
    c.nontrivial = want.size() > 0 && (a.size() > 1 || b.size() > 1 || a[0].tt != b[0].tt);
    if (a.size() != b.size()) c.label(a.size() == 1 || b.size() == 1 ? "broadcast" : "shorter wins");
}

static void t_operators(Ctx &c) {
    static const struct { const char *op, *fn; MAtom (*f)(const MAtom &, const MAtom &); } T[] = {
        {"+", "add", ex::add}, {"-", "sub", ex::sub}, {"*", "mul", ex::mul}, {"/", "div", ex::div}, {"%", "mod", ex::mod}, {"^", "pow", f_pow}};
    auto &t = T[c.s.below(6)];
    const char *types = c.s.chance(15) ? "idTFhc" : NUMT;
    int mode = c.s.weighted({3, 2, 2, 2});
    bool special = c.s.chance(25) && strcmp(t.op, "%");
    int na = mode == 1 ? 1 : c.s.count(1, 5), nb = mode == 0 ? na : mode == 2 ? 1 : c.s.count(1, 5);
    VList a = ex::gen_list(c, types, na, na, special), b = ex::gen_list(c, types, nb, nb, special);
    if (c.s.chance(8)) { // the limits of the types against each other
        static const int64_t E[] = {INT64_MIN, INT64_MIN + 1, INT64_MAX, INT32_MIN, INT32_MIN + 1, INT32_MAX, -32768, -128, -2, -1, 0, 1, 2};
        for (auto *l : {&a, &b})
            for (auto &x : *l)
                if (ex::isint(x.tt)) x.i = ex::trunc_to(x.tt, E[c.s.below(13)]);
    }
    // the text form: infix, the named function or the operator as a function name
    std::string oa = ex::operand(c, "/a", a), ob = ex::operand(c, "/b", b);
    std::string text = c.s.chance(40) ? std::string(t.fn) + "(" + oa + ", " + ob + ")" : oa + " " + t.op + " " + ob;
    // the double remainder is computed with rounding: compare up to a multiple of the modulus
    double tol = 0, wrap = 0;
    if (!strcmp(t.op, "%")) {
        tol = 1e-9;
        for (auto *l : {&a, &b})
            for (auto &x : *l)
                if (ex::isflt(x.tt) && (!std::isfinite(ex::num(x)) || fabs(ex::num(x)) > 1e6 || (ex::num(x) != 0 && fabs(ex::num(x)) < 1e-3))) throw Discard{};
        if (b.size() == 1) wrap = fabs(ex::num(b[0]));
        else
            for (auto *l : {&a, &b})
                for (auto &x : *l)
                    if (ex::isflt(x.tt)) {
                        // quarters: exact
                        double q = ex::num(x) * 4;
                        if (q != floor(q)) throw Discard{};
                    }
        // wide integers beyond 2^63 have no exact common type with signed ones
        for (auto *l : {&a, &b})
            for (auto &x : *l)
                if (x.tt == 'H' && x.i < 0) throw Discard{};
        // a wide integer with a floating-point modulus loses digits
        bool flt = false, big = false;
        for (auto *l : {&a, &b})
            for (auto &x : *l) {
                if (ex::isflt(x.tt)) flt = true;
                else if (llabs(x.i) > 1000000 || x.i == INT64_MIN) big = true;
            }
        if (flt && big) throw Discard{};
    }
    c.label(t.fn);
    check_value(c, text, a, b, ex::zip(t.f, a, b), tol, wrap);
}

static void t_strings(Ctx &c) {
    // + joins strings, and a string with a number's text
    GenOpt o;
    o.any_bytes = false;
    auto list = [&](int n) {
        VList l;
        while (n--) l.push_back(mk_s(gen_string(c, o)));
        return l;
    };
    int n = c.s.count(1, 4);
    VList a = list(c.s.chance(30) ? 1 : n), b = list(c.s.chance(30) ? 1 : n), want;
    bool numeric = c.s.chance(30);
    if (numeric) {
        bool left = c.s.chance(50);
        VList &l = left ? a : b;
        for (auto &x : l) x = mk(c.s.pickc("ihuUI"), 0), x.i = ex::small_int(c, x.tt);
        size_t m = a.size() == 1 ? b.size() : b.size() == 1 ? a.size() : std::min(a.size(), b.size());
        for (size_t i = 0; i < m; i++) {
            std::string p[2];
            for (int k = 0; k < 2; k++) {
                const VList &s = k ? b : a;
                const MAtom &x = s[s.size() == 1 ? 0 : i];
                if (x.tt == 's') p[k] = x.s;
                else p[k] = strf("%lld", (long long)x.i);
            }
            want.push_back(mk_s(p[0] + p[1]));
        }
    } else
        want = ex::zip(ex::add, a, b);
    check_value(c, "/a + /b", a, b, want);
    c.nontrivial = want.size() > 1;
    c.label(numeric ? "string and number" : "strings");
}

// the remainder with a number written as a string
static void t_remstring(Ctx &c) {
    static const std::vector<std::string> S = {"0", "0.5", "Inf", "7", "-3", "abc", "", "-0.25", "12", "1000000", "-1"};
    auto list = [&](int n, bool s) {
        VList l;
        while (n--) {
            if (s) l.push_back(mk_s(c.s.pick(S)));
            else {
                l.push_back(mk(c.s.pickc("ihuUIHcC"), 0));
                l.back().i = ex::small_int(c, l.back().tt);
                if (c.s.chance(5)) l.back().i = ex::trunc_to(l.back().tt, INT64_MIN);
                if (l.back().tt == 'H' && l.back().i < 0) l.back().i = 5;
            }
        }
        return l;
    };
    int n = c.s.count(1, 4);
    bool left = c.s.chance(40);
    VList a = list(c.s.chance(30) ? 1 : n, left), b = list(c.s.chance(30) ? 1 : n, !left || c.s.chance(20));
    auto d = [](const MAtom &x) { return x.tt == 's' ? strtod(x.s.c_str(), nullptr) : ex::num(x); };
    auto i = [](const MAtom &x) { return x.tt == 's' ? (int64_t)strtoll(x.s.c_str(), nullptr, 0) : x.i; };
    VList want;
    size_t m = a.size() == 1 ? b.size() : b.size() == 1 ? a.size() : std::min(a.size(), b.size());
    for (size_t k = 0; k < m; k++) {
        const MAtom &x = a[a.size() == 1 ? 0 : k], &y = b[b.size() == 1 ? 0 : k];
        if (d(y) == 0 || i(y) == 0) { // nothing to divide by
            want.push_back(x);
            continue;
        }
        __int128 p = i(x), q = i(y), r;
        if (q < 0) q = -q;
        r = p % q;
        if (r < 0) r += q;
        want.push_back(x.tt == 's' || y.tt == 's' || ex::rank(x.tt) > ex::rank('i') || ex::rank(y.tt) > ex::rank('i') ? mk('h', (int64_t)r) : mk_i((int)r));
    }
    check_value(c, "/a % /b", a, b, want);
    c.nontrivial = want.size() > 1;
    c.label("remainder with strings");
}

// times: a sum or a distance, with a number as a number of seconds
static void t_times(Ctx &c) {
    bool minus = c.s.chance(50), tnum = c.s.chance(60), left = c.s.chance(50);
    auto time = [&] {
        uint32_t sec = c.s.chance(50) ? (uint32_t)c.s.below(10) : (uint32_t)c.s.below(0x40000000);
        return mk_t(sec, c.s.chance(20) ? 0 : c.s.chance(50) ? (uint32_t)c.s.range(1, 7) << 29 : (uint32_t)c.s.u64());
    };
    auto number = [&] {
        MAtom x = ex::gen_num(c, "idfhIHuUcC", false);
        if (ex::isflt(x.tt)) x.d = c.s.range(0, 400) / 4., x.f = (float)x.d;
        else x.i = c.s.chance(50) ? c.s.range(0, 100) : ex::rank(x.tt) >= ex::rank('i') ? (int64_t)c.s.below(0x40000000) : c.s.range(0, 127);
        return x;
    };
    int mode = c.s.weighted({3, 2, 2, 2});
    int na = mode == 1 ? 1 : c.s.count(1, 4), nb = mode == 0 ? na : mode == 2 ? 1 : c.s.count(1, 4);
    VList a, b;
    for (int i = 0; i < na; i++) a.push_back(tnum && left ? number() : time());
    for (int i = 0; i < nb; i++) b.push_back(tnum && !left ? number() : time());
    std::string text = c.s.chance(30) ? std::string(minus ? "sub" : "add") + "(/a, /b)" : minus ? "/a - /b" : "/a + /b";
    bool bad = c.s.chance(5); // no time takes part in anything else
    if (bad) text = c.s.chance(50) ? "/a * /b" : "/a / /b";
    std::string in = bundle(a, b, 1);
    c.note("/a = " + ex::dump(a) + "  /b = " + ex::dump(b) + "\n/r = " + text);
    ex::Run r = ex::run("/r = " + text, in);
    CHECK(c, r.parsed, "`%s` is not accepted", text.c_str());
    if (bad) {
        CHECK(c, r.err && r.bndl == in, "`/r = %s` with /a = %s, /b = %s gives %s; want an error", text.c_str(), ex::dump(a).c_str(), ex::dump(b).c_str(), ex::dump(r.out).c_str());
        return;
    }
    CHECK(c, !r.err, "`/r = %s` with /a = %s, /b = %s gives error %x", text.c_str(), ex::dump(a).c_str(), ex::dump(b).c_str(), r.err);
    MBundle out = must_decode(c, "bundle after the assignment", r.bndl.data(), r.bndl.size());
    CHECK(c, out.size() == 4 && out[3].addr == "/r" && !r.bndl.compare(0, in.size(), in), "`/r = %s` leaves the bundle %s", text.c_str(), dump(out).c_str());
    const VList &got = out[3].args;
    size_t n = a.size() == 1 ? b.size() : b.size() == 1 ? a.size() : std::min(a.size(), b.size());
    CHECK(c, got.size() == n, "%zu values, want %zu", got.size(), n);
    auto units = [](const MAtom &x) -> long double { return x.tt == 't' ? x.sec * 4294967296.0L + x.frac : (long double)ex::num(x) * 4294967296.0L; };
    for (size_t i = 0; i < n; i++) {
        const MAtom &x = a[a.size() == 1 ? 0 : i], &y = b[b.size() == 1 ? 0 : i];
        long double w = minus ? fabsl(units(x) - units(y)) : units(x) + units(y);
        char t = minus && x.tt == 't' && y.tt == 't' ? 'd' : 't';
        // a time is exact but for the fraction of a number; a distance is as exact as a double
        long double tol = t == 'd' ? 2 + w * 0x1p-52L : x.tt != 't' || y.tt != 't' ? 2 : 0;
        CHECK(c, got[i].tt == t && fabsl(units(got[i]) - w) <= tol, "`/r = %s` with %s and %s gives %s; want %.12Lf s", text.c_str(), dump(x).c_str(), dump(y).c_str(), dump(got[i]).c_str(), w / 4294967296.0L);
    }
    c.nontrivial = n > 0 && (tnum || minus);
    c.label(tnum ? "time and number" : "times");
}

static void t_math1(Ctx &c) {
    static const struct { const char *fn; double (*f)(double); } T[] = {
        {"abs", fabs}, {"acos", acos}, {"asin", asin}, {"atan", atan}, {"ceil", ceil}, {"cos", cos}, {"cosh", cosh}, {"exp", exp}, {"floor", floor},
        {"log", log}, {"log10", log10}, {"sin", sin}, {"sinh", sinh}, {"sqrt", sqrt}, {"tan", tan}, {"tanh", tanh}, {"erf", erf}, {"erfc", erfc},
        {"gamma", tgamma}, {"j0", j0}, {"j1", j1}, {"lgamma", lgamma}, {"y0", y0}, {"y1", y1}, {"acosh", acosh}, {"asinh", asinh}, {"atanh", atanh},
        {"cbrt", cbrt}, {"expm1", expm1}, {"logb", logb}, {"round", round}};
    auto &t = T[c.s.below(sizeof T / sizeof *T)];
    VList a = ex::gen_list(c, c.s.chance(60) ? "dfi" : NUMT, 1, 5, c.s.chance(20)), b = ex::gen_list(c, "i", 1, 1, false), want;
    for (auto &x : a) want.push_back(mk_d(t.f(ex::num(x))));
    check_value(c, std::string(t.fn) + "(" + ex::operand(c, "/a", a) + ")", a, b, want, 1e-12);
    c.nontrivial = a.size() > 1;
}

static void t_math2(Ctx &c) {
    static const struct { const char *fn; MAtom (*f)(const MAtom &, const MAtom &); } T[] = {
        {"atan2", f_atan2}, {"pow", f_pow}, {"fmod", f_fmod}, {"hypot", f_hypot}, {"remainder", f_rem}};
    auto &t = T[c.s.below(5)];
    int mode = c.s.weighted({3, 2, 2, 2});
    int na = mode == 1 ? 1 : c.s.count(1, 5), nb = mode == 0 ? na : mode == 2 ? 1 : c.s.count(1, 5);
    bool special = c.s.chance(20);
    VList a = ex::gen_list(c, NUMT, na, na, special), b = ex::gen_list(c, NUMT, nb, nb, special);
    check_value(c, std::string(t.fn) + "(" + ex::operand(c, "/a", a) + ", " + ex::operand(c, "/b", b) + ")", a, b, ex::zip(t.f, a, b), 1e-12);
}

// bitwise and/or: the first value of each operand, in the wider of the two integer types
static void t_bitwise(Ctx &c) {
    bool is_or = c.s.chance(50);
    const char *INTS = "ihcuIHCU";
    VList a = ex::gen_list(c, c.s.chance(30) ? NUMT : INTS, 1, 3, false), b = ex::gen_list(c, c.s.chance(30) ? NUMT : INTS, 1, 3, false), want;
    for (VList *l : {&a, &b}) {
        if (!ex::isint((*l)[0].tt) && !c.s.chance(20)) (*l)[0] = mk_i(c.s.range(-300, 300));
        if (ex::isint((*l)[0].tt) && c.s.chance(30)) (*l)[0].i = ex::trunc_to((*l)[0].tt, (int64_t)c.s.u64());
    }
    std::string text = std::string(is_or ? "bitor(" : "bitand(") + ex::operand(c, "/a", a) + ", " + ex::operand(c, "/b", b) + ")";
    if (!ex::isint(a[0].tt) || !ex::isint(b[0].tt)) {
        std::string in = bundle(a, b, 1);
        c.note("/a = " + ex::dump(a) + "  /b = " + ex::dump(b) + "\n/r = " + text);
        ex::Run r = ex::run("/r = " + text, in);
        CHECK(c, r.parsed, "`%s` is not accepted", text.c_str());
        CHECK(c, r.err, "`/r = %s` with /a = %s, /b = %s gives %s; want an error", text.c_str(), ex::dump(a).c_str(), ex::dump(b).c_str(), ex::dump(r.out).c_str());
        CHECK(c, r.bndl == in, "a failed `/r = %s` changes the bundle", text.c_str());
        c.label("not integers");
        return;
    }
    char t = ex::rank(a[0].tt) > ex::rank(b[0].tt) ? a[0].tt : b[0].tt;
    MAtom w = mk(t);
    w.i = ex::trunc_to(t, is_or ? a[0].i | b[0].i : a[0].i & b[0].i);
    check_value(c, text, a, b, {w});
    c.nontrivial = a[0].tt != b[0].tt || t != 'i';
    c.label(is_or ? "bitor" : "bitand");
}

// functions of a whole number
static void t_special(Ctx &c) {
    VList a = ex::gen_list(c, "idfhuU", 1, 5, false), b = ex::gen_list(c, "i", 1, 2, false), want;
    switch (c.s.below(3)) {
    case 0: // the binary exponent of each value, an int32
        for (auto &x : a) want.push_back(mk_i(ilogb(ex::num(x))));
        check_value(c, "ilogb(" + ex::operand(c, "/a", a) + ")", a, b, want);
        c.label("ilogb");
        break;
    case 1: { // the neighbour of x in the direction of y
        b = ex::gen_list(c, "idf", 1, c.s.chance(50) ? 1 : (int)a.size(), false);
        static auto f = [](const MAtom &x, const MAtom &y) { return mk_d(nextafter(ex::num(x), ex::num(y))); };
        check_value(c, "nextafter(" + ex::operand(c, "/a", a) + ", " + ex::operand(c, "/b", b) + ")", a, b, ex::zip(+[](const MAtom &x, const MAtom &y) { return f(x, y); }, a, b));
        c.label("nextafter");
        break;
    }
    default: { // Bessel functions of order n
        bool y = c.s.chance(50);
        b[0] = mk_i(c.s.range(-5, 20));
        want = {mk_d((y ? yn : jn)((int)b[0].i, ex::num(a[0])))};
        check_value(c, std::string(y ? "yn(" : "jn(") + ex::operand(c, "/b", b) + ", " + ex::operand(c, "/a", a) + ")", a, b, want, 1e-12);
        c.label(y ? "yn" : "jn");
    }
    }
    c.nontrivial = a.size() > 1;
}

static void t_incneg(Ctx &c) {
    VList a = ex::gen_list(c, NUMT, 1, 4, c.s.chance(20)), want, b = ex::gen_list(c, "i", 1, 1, false);
    int k = c.s.below(4);
    std::string text;
    for (auto &x : a) {
        MAtom w;
        if (k == 0 || k == 1) {
            int s = k == 0 ? 1 : -1;
            w = x;
            if (x.tt == 'd') w.d = x.d + s;
            else if (x.tt == 'f') w.f = x.f + s;
            else w.i = ex::trunc_to(x.tt, (int64_t)((uint64_t)x.i + s));
        } else if (k == 2)
            w = ex::sub(mk_i(0), x);
        else {
            double v = ex::num(x);
            w = mk_i(v < 0 ? -1 : v > 0 ? 1 : 0);
            if (std::isnan(v)) throw Discard{};
        }
        want.push_back(w);
    }
    text = k == 0 ? "plus1(/a)" : k == 1 ? "minus1(/a)" : k == 2 ? "-/a" : "sign(/a)";
    c.label(text.c_str()[0] == 'p' ? "plus1" : text[0] == 'm' ? "minus1" : text[0] == '-' ? "negate" : "sign");
    check_value(c, text, a, b, want);
    c.nontrivial = a.size() > 1 || a[0].tt != 'i';
}

static void t_const(Ctx &c) {
    static const struct { const char *fn; double v; double tol; } T[] = {
        {"pi", M_PI, 1e-12}, {"twopi", 2 * M_PI, 1e-12}, {"halfpi", M_PI / 2, 1e-12}, {"quarterpi", M_PI / 4, 1e-12}, {"oneoverpi", 1 / M_PI, 1e-12},
        {"twooverpi", 2 / M_PI, 1e-12}, {"degtorad", M_PI / 180, 1e-5}, {"radtodeg", 180 / M_PI, 1e-5}, {"e", M_E, 1e-12}, {"lntwo", M_LN2, 1e-12},
        {"lnten", M_LN10, 1e-12}, {"logtwoe", M_LOG2E, 1e-12}, {"logtene", M_LOG10E, 1e-12}, {"sqrttwo", M_SQRT2, 1e-12}, {"sqrthalf", M_SQRT1_2, 1e-12},
        {"phi", (1 + sqrt(5)) / 2, 1e-9}, {"twelfth_root_of_2", pow(2, 1 / 12.), 1e-9}, {"thirteenth_root_of_3", pow(3, 1 / 13.), 1e-9}};
    auto &t = T[c.s.below(sizeof T / sizeof *T)];
    VList a = ex::gen_list(c, "i", 1, 1, false);
    check_value(c, std::string(t.fn) + "()", a, a, {mk_d(t.v)}, t.tol);
    c.nontrivial = false;
}

// a malformed operand is an error, never a silent value
static void t_reject(Ctx &c) {
    const char *op = c.s.pick(std::vector<const char *>{"+", "-", "*", "/"});
    VList a = ex::gen_list(c, NUMT, 1, 3, false), b = ex::gen_list(c, NUMT, 1, 3, false);
    VList &l = c.s.chance(50) ? a : b;
    size_t k = c.s.below(std::min(a.size() == 1 || b.size() == 1 ? l.size() : std::min(a.size(), b.size()), l.size()));
    l[k] = *op == '+' ? mk('N') : c.s.chance(50) ? mk_s("abc") : mk('N');
    std::string text = std::string("/a ") + op + " /b", in = bundle(a, b, 1);
    c.note("/a = " + ex::dump(a) + "  /b = " + ex::dump(b) + "\n/r = " + text);
    ex::Run r = ex::run("/r = " + text, in);
    CHECK(c, r.parsed, "`%s` is not accepted", text.c_str());
    CHECK(c, r.err, "`/r = %s` with /a = %s, /b = %s gives %s; want an error", text.c_str(), ex::dump(a).c_str(), ex::dump(b).c_str(), ex::dump(r.out).c_str());
    CHECK(c, r.bndl == in, "a failed `/r = %s` changes the bundle", text.c_str());
    c.nontrivial = true;
}

namespace pt {
Property property = {"P27",
                     "the operands differ in length or type, or the list has more than one element",
                     {{"operators", 8, t_operators}, {"math1", 3, t_math1}, {"math2", 3, t_math2}, {"incneg", 2, t_incneg}, {"bitwise", 2, t_bitwise}, {"special", 2, t_special}, {"strings", 2, t_strings}, {"remainder with strings", 1, t_remstring}, {"times", 2, t_times}, {"reject", 1, t_reject}, {"const", 1, t_const}},
                     {"libm of this machine gives the mathematical functions", "integer arithmetic wraps in the result's type", "the floating-point remainder is compared to 1e-9"},
                     400000,
                     4000000};
}
