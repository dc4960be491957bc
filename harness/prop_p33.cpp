// P33: aggregate functions of the expression language against their definitions
// uses: expr.cpp
#include "expr.hpp"
#include <algorithm>
using namespace pt;
using ex::VList;

static const char *NUMT = "iiddfhcuIHCU";
static const double BIG = 9007199254740992.0; // integers are exact up to here

// value of `text` on the bundle
static VList eval(Ctx &c, const std::string &text, const MBundle &m) {
    std::string in = enc_bundle(m, 3);
    c.note(text + "  on\n" + dump(m));
    ex::Run r = ex::run(text, in);
    CHECK(c, r.parsed, "`%s` is not accepted", text.c_str());
    CHECK(c, !r.err, "`%s` on\n%s\ngives error %x", text.c_str(), dump(m).c_str(), r.err);
    CHECK(c, r.bndl == in, "`%s` changes the bundle", text.c_str());
    return r.out;
}
static bool eval_fails(Ctx &c, const std::string &text, const MBundle &m) {
    c.note(text + "  on\n" + dump(m));
    ex::Run r = ex::run(text, enc_bundle(m, 3));
    return r.parsed && r.err;
}
static void want(Ctx &c, const std::string &text, const MBundle &m, const VList &got, const VList &w, double tol = 0) {
    bool ok = got.size() == w.size();
    for (size_t i = 0; ok && i < w.size(); i++) {
        if (ex::same(got[i], w[i])) continue;
        ok = got[i].tt == w[i].tt && ((got[i].tt == 'd' && ex::close_enough(got[i].d, w[i].d, tol)) || (got[i].tt == 'f' && ex::close_enough(got[i].f, w[i].f, tol)));
    }
    CHECK(c, ok, "`%s` on\n%s\nis %s; want %s", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), ex::dump(w).c_str());
}
// the narrowest type from int32 on
static MAtom integral(double v) {
    if (v >= INT32_MIN && v <= INT32_MAX) return mk('i', (int64_t)v);
    if (v >= 0 && v <= UINT32_MAX) return mk('I', (int64_t)v);
    if (v >= -0x1p63 && v < 0x1p63) return mk('h', (int64_t)v);
    if (v >= 0 && v < 0x1p64) return mk('H', (int64_t)(uint64_t)v);
    return mk_d(v);
}
static VList nums(Ctx &c, int lo, int hi, const char *types = NUMT) {
    VList l = ex::gen_list(c, types, lo, hi, false);
    for (auto &a : l)
        if (ex::isint(a.tt) && fabs(ex::num(a)) >= BIG) a = mk(a.tt, ex::trunc_to(a.tt, a.i & 0xfffff));
    for (size_t i = 1; i < l.size(); i++)
        if (c.s.chance(15)) l[i] = l[c.s.below(i)];
    return l;
}
struct Arg {
    VList v;
    std::string text;
};
static Arg arg(Ctx &c, MBundle &m, VList v) {
    std::string a = strf("/v%d", (int)m.size());
    Arg r{v, ex::operand(c, a.c_str(), v)};
    if (r.text == a) m.push_back({a, v});
    return r;
}
static bool anyflt(const VList &l) {
    for (auto &a : l)
        if (ex::isflt(a.tt)) return true;
    return false;
}
static void note_types(Ctx &c, const VList &l) {
    for (size_t i = 1; i < l.size(); i++)
        if (l[i].tt != l[0].tt) {
            c.label("mixed types");
            break;
        }
    if (l.empty()) c.label("empty");
    c.nontrivial = l.size() >= 2;
}

static void t_reduce(Ctx &c) {
    MBundle m;
    int f = c.s.below(10);
    static const char *F[] = {"sum", "product", "mean", "avg", "median", "l2norm", "range", "min", "max", "extrema"};
    VList l0 = nums(c, 0, 8, c.s.chance(20) ? "idTF" : f == 1 ? "idcuf" : NUMT);
    if (c.s.chance(6)) { // results where the type of the result changes
        int64_t T = c.s.pick(std::vector<int64_t>{2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 32768, 65536}) + (c.s.chance(30) ? c.s.range(-1, 1) : 0);
        int x = c.s.range(-20, 20);
        if (f == 1) l0 = {mk('h', T % 3 ? T : T / 3), mk_i(T % 3 ? 1 : 3)};
        else l0 = {mk('h', f == 6 ? T + x : T - x), mk_i(x)};
        if (c.s.chance(30)) std::swap(l0[0], l0[1]);
    }
    bool exact = false;
    if ((f < 2 || f == 6) && c.s.chance(4)) { // around the ends of 64 bits: powers of two
        int k = c.s.range(61, 65), neg = c.s.chance(30) ? -1 : 1;
        auto p2 = [&](int e) { return e < 62 ? mk('h', neg * (int64_t)(UINT64_C(1) << e)) : mk('H', (int64_t)(UINT64_C(1) << std::min(e, 63))); };
        if (f == 1) l0 = {p2(k / 2), mk('H', (int64_t)(UINT64_C(1) << (k - k / 2)))};
        else if (f == 0) l0 = neg < 0 ? VList{mk('h', -(INT64_C(1) << 62)), mk('h', -(INT64_C(1) << 62))} : k == 65 ? VList{p2(63), p2(63), p2(63)} : VList{p2(k - 1), p2(k - 1)};
        else l0 = {mk('h', -(INT64_C(1) << 62)), neg < 0 ? mk_i(0) : mk('h', INT64_C(1) << c.s.range(60, 62))};
        if (c.s.chance(30)) std::swap(l0[0], l0[1]);
        exact = true;
    }
    Arg a = arg(c, m, l0);
    const VList &l = a.v;
    std::string text = std::string(F[f]) + "(" + a.text + ")";
    std::vector<double> x;
    double s = 0, p = 1, q = 0, mag = 0;
    for (auto &v : l) {
        double d = ex::num(v);
        x.push_back(d);
        s += d, p *= d, q += d * d;
        mag += fabs(d);
    }
    if (!exact && !anyflt(l) && (mag >= BIG || (f == 1 && fabs(p) >= BIG))) throw Discard{};
    VList got = eval(c, text, m);
    note_types(c, l);
    VList sorted = l;
    std::stable_sort(sorted.begin(), sorted.end(), [](const MAtom &p, const MAtom &q) { return ex::num(p) < ex::num(q); });
    std::sort(x.begin(), x.end());
    size_t n = x.size();
    switch (f) {
    case 0: return want(c, text, m, got, {anyflt(l) ? mk_d(s) : integral(s)}, 1e-11);
    case 1: return want(c, text, m, got, {anyflt(l) ? mk_d(p) : integral(p)}, 1e-11);
    case 2:
    case 3: return want(c, text, m, got, {mk_d(n ? s / n : NAN)}, 1e-11);
    case 4: return want(c, text, m, got, {mk_d(!n ? NAN : n % 2 ? x[n / 2] : (x[n / 2 - 1] + x[n / 2]) / 2)}, 1e-13);
    case 5: return want(c, text, m, got, {mk_d(sqrt(q))}, 1e-12);
    }
    auto one_of = [&](const MAtom &g, double v) {
        for (auto &e : l)
            if (ex::num(e) == v && ex::same(e, g)) return true;
        return false;
    };
    size_t k = !n ? 0 : f == 9 ? 2 : 1;
    CHECK(c, got.size() == k, "`%s` on\n%s\nis %s", text.c_str(), dump(m).c_str(), ex::dump(got).c_str());
    if (!n) return;
    double lo = x.front(), hi = x.back();
    bool ok = true;
    if (f == 6) {
        // a difference of floating point extremes is a double; of integers, an integer that can hold it
        bool fl = anyflt(l);
        if (!fl) return want(c, text, m, got, {integral(hi - lo)});
        ok = got[0].tt == 'd' ? ex::close_enough(got[0].d, hi - lo, 1e-12) : ex::isint(got[0].tt) && ex::num(got[0]) == hi - lo;
    } else if (f == 7) ok = one_of(got[0], lo);
    else if (f == 8) ok = one_of(got[0], hi);
    else ok = one_of(got[0], lo) && one_of(got[1], hi);
    CHECK(c, ok, "`%s` on\n%s\nis %s; the extremes are %.17g and %.17g", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), lo, hi);
}

static char widest(const VList &l) {
    char t = 'c';
    for (auto &a : l) {
        char k = ex::isbool(a.tt) ? 'i' : a.tt;
        if (ex::rank(k) > ex::rank(t)) t = k;
    }
    return t;
}
static void t_cumsum(Ctx &c) {
    MBundle m;
    Arg a = arg(c, m, nums(c, 0, 8, c.s.chance(20) ? "idTF" : c.s.chance(30) ? "cCuUi" : NUMT));
    std::string text = "cumsum(" + a.text + ")";
    VList w;
    char t = widest(a.v);
    double d = 0;
    float f = 0;
    uint64_t u = 0;
    for (auto &v : a.v) {
        if (t == 'd') w.push_back(mk_d(d += ex::num(v)));
        else if (t == 'f') w.push_back(mk_f(f += v.tt == 'f' ? v.f : (float)ex::num(v)));
        else w.push_back(mk(t, ex::trunc_to(t, (int64_t)(u += (uint64_t)ex::inum(v)))));
    }
    want(c, text, m, eval(c, text, m), w, t == 'f' ? 1e-5 : 1e-11);
    note_types(c, a.v);
}

static void t_vector(Ctx &c) {
    MBundle m;
    if (c.s.chance(50)) {
        Arg a = arg(c, m, nums(c, 0, 6)), b = arg(c, m, c.s.chance(60) ? nums(c, (int)a.v.size(), (int)a.v.size()) : nums(c, 0, 6));
        std::string text = "dot(" + a.text + ", " + b.text + ")";
        double s = 0, mag = 0;
        for (size_t i = 0; i < std::min(a.v.size(), b.v.size()); i++) {
            double t = ex::num(a.v[i]) * ex::num(b.v[i]);
            s += t, mag += fabs(t);
        }
        VList got = eval(c, text, m);
        bool ok = got.size() == 1 && got[0].tt == 'd' && fabs(got[0].d - s) <= 1e-12 * std::max(1.0, mag);
        CHECK(c, ok, "`%s` on\n%s\nis %s; want %.17g", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), s);
        note_types(c, a.v);
        return;
    }
    int na = c.s.chance(90) ? 3 : c.s.range(0, 4), nb = c.s.chance(90) ? 3 : c.s.range(0, 4);
    Arg a = arg(c, m, nums(c, na, na)), b = arg(c, m, nums(c, nb, nb));
    std::string text = "cross(" + a.text + ", " + b.text + ")";
    if (na != 3 || nb != 3) {
        CHECK(c, eval_fails(c, text, m), "`%s` on\n%s\nis accepted", text.c_str(), dump(m).c_str());
        c.label("wrong size");
        return;
    }
    VList all = a.v;
    all.insert(all.end(), b.v.begin(), b.v.end());
    char t = widest(all);
    VList w;
    for (int i = 0; i < 3; i++) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        if (t == 'd') w.push_back(mk_d(ex::num(a.v[j]) * ex::num(b.v[k]) - ex::num(a.v[k]) * ex::num(b.v[j])));
        else if (t == 'f') w.push_back(mk_f((float)ex::num(a.v[j]) * (float)ex::num(b.v[k]) - (float)ex::num(a.v[k]) * (float)ex::num(b.v[j])));
        else {
            auto at = [&](const VList &l, int x) { return (uint64_t)ex::trunc_to(t, ex::inum(l[x])); };
            w.push_back(mk(t, ex::trunc_to(t, (int64_t)(at(a.v, j) * at(b.v, k) - at(a.v, k) * at(b.v, j)))));
        }
    }
    double mag = 1;
    for (auto &v : all) mag = std::max(mag, fabs(ex::num(v)));
    VList got = eval(c, text, m);
    bool ok = got.size() == 3;
    for (int i = 0; ok && i < 3; i++) {
        if (ex::same(got[i], w[i])) continue;
        ok = got[i].tt == t && (t == 'd' ? fabs(got[i].d - w[i].d) <= 1e-13 * mag * mag : t == 'f' && fabs(got[i].f - w[i].f) <= 1e-6 * mag * mag);
    }
    CHECK(c, ok, "`%s` on\n%s\nis %s; want %s", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), ex::dump(w).c_str());
    note_types(c, all);
}

static void t_det(Ctx &c) {
    MBundle m;
    int n = c.s.range(1, 6);
    // small integers, and rows that depend on each other now and then
    std::vector<std::vector<int>> x(n, std::vector<int>(n));
    for (auto &r : x)
        for (auto &v : r) v = c.s.chance(25) ? 0 : c.s.range(-9, 9);
    if (n > 1 && c.s.chance(25)) {
        int i = c.s.below(n), j = c.s.below(n), k = c.s.range(-2, 2);
        if (i != j)
            for (int q = 0; q < n; q++) x[i][q] = k * x[j][q];
        c.label("singular");
    }
    bool bad = n > 1 && c.s.chance(6);
    double had = 1;
    std::string text;
    for (int i = 0; i < n; i++) {
        VList row;
        double q = 0;
        for (int j = 0; j < n; j++) {
            row.push_back(c.s.chance(50) ? mk_i(x[i][j]) : c.s.chance(50) ? mk_d(x[i][j]) : mk('h', x[i][j]));
            q += x[i][j] * x[i][j];
        }
        had *= std::max(1.0, sqrt(q));
        if (bad && i == n - 1) row.push_back(mk_i(1));
        text += (i ? ", " : "") + arg(c, m, row).text;
    }
    text = "det(" + text + ")";
    if (bad) {
        CHECK(c, eval_fails(c, text, m), "`%s` on\n%s\nis accepted", text.c_str(), dump(m).c_str());
        c.label("wrong size");
        return;
    }
    // fraction-free elimination
    std::vector<std::vector<__int128>> a(n, std::vector<__int128>(n));
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) a[i][j] = x[i][j];
    __int128 prev = 1, sign = 1;
    for (int k = 0; k < n - 1; k++) {
        int p = k;
        while (p < n && a[p][k] == 0) p++;
        if (p == n) {
            sign = 0;
            break;
        }
        if (p != k) std::swap(a[p], a[k]), sign = -sign;
        for (int i = k + 1; i < n; i++)
            for (int j = k + 1; j < n; j++) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
        prev = a[k][k];
    }
    double w = sign == 0 ? 0 : (double)(sign * a[n - 1][n - 1]);
    VList got = eval(c, text, m);
    bool ok = got.size() == 1 && got[0].tt == 'd' && fabs(got[0].d - w) <= 1e-9 * had;
    CHECK(c, ok, "`%s` on\n%s\nis %s; want %.17g", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), w);
    c.nontrivial = n > 1;
    if (n > 3) c.label("4x4 or more");
}

static void t_map(Ctx &c) {
    MBundle m;
    int f = c.s.below(5);
    static const char *F[] = {"clip", "scale", "mtof", "ftom", "sign"};
    bool ints = c.s.chance(50);
    const char *T = ints ? "iiihcuIC" : "iddfhcuC";
    VList v = nums(c, 0, 6, T);
    if (f < 4 && c.s.chance(15)) v.push_back(c.s.chance(50) ? mk_s("text") : mk(c.s.pickc("TFN")));
    Arg a = arg(c, m, v);
    auto bound = [&](bool allow0) {
        VList b = nums(c, 1, 1, ints ? "iih" : "ididf");
        if (!allow0 && ex::num(b[0]) == 0) b[0] = mk_i(1);
        return arg(c, m, b);
    };
    std::string text = std::string(F[f]) + "(" + a.text;
    VList w;
    auto passes = [](const MAtom &x) { return !ex::isint(x.tt) && !ex::isflt(x.tt); };
    double tol = 1e-12;
    if (f == 0) {
        Arg lo = bound(true), hi = bound(true);
        double l = ex::num(lo.v[0]), h = ex::num(hi.v[0]);
        if (l > h) std::swap(lo, hi), std::swap(l, h);
        text += ", " + lo.text + ", " + hi.text + ")";
        bool fl = anyflt(lo.v) || anyflt(hi.v);
        for (auto &x : v) {
            if (passes(x)) {
                w.push_back(x);
                continue;
            }
            double d = std::min(std::max(ex::num(x), l), h);
            w.push_back(fl || ex::isflt(x.tt) ? mk_d(d) : integral(d));
        }
    } else if (f == 1) {
        Arg b[4] = {bound(true), bound(true), bound(true), bound(true)};
        double d[4];
        bool fl = false;
        for (int i = 0; i < 4; i++) d[i] = ex::num(b[i].v[0]), text += ", " + b[i].text, fl = fl || anyflt(b[i].v);
        text += ")";
        if (d[0] == d[1]) throw Discard{};
        double mag = 0;
        for (auto &x : v) {
            if (passes(x)) {
                w.push_back(x);
                continue;
            }
            double y = ex::num(x);
            if (fl || ex::isflt(x.tt)) {
                w.push_back(mk_d(d[2] + (y - d[0]) * ((d[3] - d[2]) / (d[1] - d[0]))));
                mag = std::max(mag, fabs((y - d[0]) * ((d[3] - d[2]) / (d[1] - d[0]))) + fabs(d[2]));
            } else {
                __int128 num = ((__int128)y - (__int128)d[0]) * ((__int128)d[3] - (__int128)d[2]), den = (__int128)d[1] - (__int128)d[0];
                if (num > (__int128)1 << 52 || num < -((__int128)1 << 52) || fabs(d[2]) > 1e12 || fabs(d[1] - d[0]) > 1e6) throw Discard{};
                num += (__int128)d[2] * den;
                w.push_back(integral((double)(num / den))); // toward zero
            }
        }
        tol = 1e-12 * std::max(1.0, mag);
    } else if (f < 4) {
        double base = 440;
        if (c.s.chance(40)) {
            base = c.s.range(1, 2000) / 2.;
            text += ", " + arg(c, m, {mk_d(base)}).text;
        }
        text += ")";
        for (auto &x : v) {
            double y = ex::num(x);
            if (passes(x)) w.push_back(x);
            else if (f == 2) {
                if (fabs(y) > 1000) throw Discard{};
                w.push_back(mk_d(base * exp2((y - 69) / 12)));
            } else {
                if (y <= 0) throw Discard{};
                w.push_back(mk_d(69 + 12 * log2(y / base)));
            }
        }
        for (auto &x : w)
            if (x.tt == 'd') tol = std::max(tol, 1e-12 * fabs(x.d));
    } else {
        text += ")";
        for (auto &x : v) w.push_back(mk_i(ex::num(x) < 0 ? -1 : ex::num(x) > 0));
    }
    want(c, text, m, eval(c, text, m), w, tol);
    note_types(c, v);
    c.label(F[f]);
}

// every point returned is a given point on the boundary, in the given order; every corner is returned
static void t_hull(Ctx &c) {
    MBundle m;
    int n = c.s.range(3, 10), R = c.s.chance(30) ? 2 : 9;
    std::vector<std::pair<int, int>> p;
    for (int i = 0; i < n; i++) p.push_back({c.s.range(-R, R), c.s.range(-R, R)});
    int line = c.s.weighted({6, 1, 1});
    if (line) // all on one line
        for (auto &q : p) {
            if (line == 1) q.first = p[0].first;
            else q.second = 2 * q.first;
        }
    VList xs, ys, in;
    for (auto &q : p) {
        xs.push_back(mk_i(q.first)), ys.push_back(mk_d(q.second));
        in.push_back(mk_i(q.first)), in.push_back(mk_d(q.second));
    }
    std::string text;
    if (c.s.chance(50)) text = "quickhull(" + arg(c, m, in).text + ")";
    else {
        Arg a = arg(c, m, xs), b = arg(c, m, ys);
        text = "quickhull(" + a.text + ", " + b.text + ")";
    }
    auto orient = [](std::pair<int, int> a, std::pair<int, int> b, std::pair<int, int> q) { return (b.first - a.first) * (q.second - a.second) - (b.second - a.second) * (q.first - a.first); };
    // on the boundary: some line through the point has every point on one side
    auto boundary = [&](std::pair<int, int> q) {
        for (auto &b : p) {
            if (b == q) continue;
            bool l = true, r = true;
            for (auto &z : p) {
                int o = orient(q, b, z);
                if (o > 0) l = false;
                if (o < 0) r = false;
            }
            if (l || r) return true;
        }
        return std::all_of(p.begin(), p.end(), [&](std::pair<int, int> z) { return z == q; });
    };
    // a corner lies in no segment or triangle of other points
    auto corner = [&](std::pair<int, int> q) {
        for (auto &a : p)
            for (auto &b : p)
                for (auto &d : p) {
                    if (a == q || b == q || d == q) continue;
                    int o1 = orient(a, b, q), o2 = orient(b, d, q), o3 = orient(d, a, q);
                    bool degenerate = orient(a, b, d) == 0;
                    if (!degenerate && ((o1 >= 0 && o2 >= 0 && o3 >= 0) || (o1 <= 0 && o2 <= 0 && o3 <= 0))) return false;
                    if (o1 == 0 && std::min(a, b) < q && q < std::max(a, b)) return false;
                }
        return true;
    };
    VList got = eval(c, text, m);
    CHECK(c, got.size() % 2 == 0, "`%s` on\n%s\nis %s", text.c_str(), dump(m).c_str(), ex::dump(got).c_str());
    std::vector<std::pair<int, int>> h;
    size_t at = 0;
    for (size_t i = 0; i < got.size(); i += 2) {
        CHECK(c, got[i].tt == 'd' && got[i + 1].tt == 'd', "`%s` on\n%s\nis %s", text.c_str(), dump(m).c_str(), ex::dump(got).c_str());
        std::pair<int, int> q{(int)got[i].d, (int)got[i + 1].d};
        while (at < p.size() && p[at] != q) at++;
        CHECK(c, at < p.size() && got[i].d == q.first && got[i + 1].d == q.second, "`%s` on\n%s\nis %s: point %d is not one of those given, in their order", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), (int)i / 2);
        at++;
        CHECK(c, boundary(q), "`%s` on\n%s\nis %s: (%d, %d) is inside the hull", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), q.first, q.second);
        h.push_back(q);
    }
    for (auto &q : p)
        if (corner(q)) CHECK(c, std::find(h.begin(), h.end(), q) != h.end(), "`%s` on\n%s\nis %s: the corner (%d, %d) is missing", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), q.first, q.second);
    c.nontrivial = h.size() < p.size();
    if (line) c.label("on a line");
}

static void t_constant(Ctx &c) {
    const double PI = 3.14159265358979323846;
    static const struct { const char *n; double v; } K[] = {
        {"pi", PI}, {"twopi", 2 * PI}, {"halfpi", PI / 2}, {"quarterpi", PI / 4}, {"oneoverpi", 1 / PI}, {"twooverpi", 2 / PI}, {"degtorad", PI / 180}, {"radtodeg", 180 / PI},
        {"e", exp(1)}, {"lntwo", log(2)}, {"lnten", log(10)}, {"logtwoe", 1 / log(2)}, {"logtene", 1 / log(10)}, {"sqrttwo", sqrt(2)}, {"sqrthalf", sqrt(.5)},
        {"phi", (1 + sqrt(5)) / 2}, {"twelfth_root_of_2", exp2(1 / 12.)}, {"thirteenth_root_of_3", pow(3, 1 / 13.)}};
    auto &k = K[c.s.below(sizeof K / sizeof *K)];
    MBundle m;
    Arg a = arg(c, m, nums(c, 1, 3, "id"));
    std::string text = std::string(k.n) + "() * " + a.text;
    if (a.text[0] != '/' && a.text[0] != '[') text = std::string(k.n) + "()", a.v = {mk_d(1)};
    VList w;
    for (auto &x : a.v) w.push_back(mk_d(k.v * ex::num(x)));
    VList got = eval(c, text, m);
    bool ok = got.size() == w.size();
    for (size_t i = 0; ok && i < w.size(); i++) ok = got[i].tt == 'd' && fabs(got[i].d - w[i].d) <= 1e-14 * fabs(w[i].d);
    CHECK(c, ok, "`%s` on\n%s\nis %s; want %s", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), ex::dump(w).c_str());
    c.nontrivial = true;
}

namespace pt {
Property property = {"P33",
                     "a list of two or more elements (a matrix of two or more rows, a hull of fewer points than given)",
                     {{"reduce", 6, t_reduce}, {"cumsum", 2, t_cumsum}, {"vector", 3, t_vector}, {"det", 3, t_det}, {"map", 4, t_map}, {"hull", 2, t_hull}, {"constant", 1, t_constant}},
                     {"integers (and sums and products of integers) below 2^53", "clip bounds in order, scale with two different input bounds", "no NaN"},
                     300000,
                     3000000};
}
