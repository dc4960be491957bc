// P32: list functions of the expression language against their sequence definitions
// uses: expr.cpp
#include "expr.hpp"
extern "C" {
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
}
#include <algorithm>
using namespace pt;
using ex::VList;

struct Term {
    std::string text;
    bool err = false;
    VList v;
    bool ordered = false; // only an order is specified: `v` holds the elements
    bool bare = false;    // a literal or an address: no expression by itself
    int calls = 0;
};
struct Vars {
    MBundle m;
    int n = 0;
};

static GenOpt elem_opt() {
    GenOpt o;
    o.max_str = 8;
    o.max_blob = 7;
    o.max_msgs = 2;
    o.max_args = 2;
    return o;
}
// the elements of a generated list
enum { ANY, NUMERIC, SORTABLE, INTS };
static VList gen_elems(Ctx &c, int kind, int lo, int hi) {
    VList l;
    int n = c.s.count(lo, hi, 5);
    bool mixed = c.s.chance(60);
    char one = c.s.pickc("idfhs");
    GenOpt o = elem_opt();
    for (int i = 0; i < n; i++) {
        if (l.size() && c.s.chance(20)) { // repeat one
            l.push_back(c.s.pick(l));
            continue;
        }
        MAtom a;
        if (kind == ANY) a = gen_atom(c, o, 1, mixed ? 0 : one);
        else if (kind == INTS) a = mk_i(c.s.range(-20, 20));
        else if (kind == SORTABLE && c.s.chance(30)) a = mk_s(gen_string(c, o));
        else a = ex::gen_num(c, mixed ? "idfhcuIHCUTF" : "idf", false);
        if (a.tt == 'd' && std::isnan(a.d)) a.d = 0.5;
        if (a.tt == 'f' && std::isnan(a.f)) a.f = 0.5f;
        l.push_back(a);
    }
    return l;
}
static Term leaf(Ctx &c, Vars &s, int kind, int lo, int hi) {
    Term t;
    t.v = gen_elems(c, kind, lo, hi);
    std::string addr = strf("/v%d", s.n++);
    t.text = ex::operand(c, addr.c_str(), t.v);
    t.bare = t.text[0] != '[';
    if (t.text == addr) s.m.push_back({addr, t.v});
    return t;
}
static bool truth(const MAtom &a) { return ex::num(a) != 0; }
static bool before(const MAtom &a, const MAtom &b) {
    if (a.tt == 's' && b.tt == 's') return strcmp(a.s.c_str(), b.s.c_str()) < 0;
    if (a.tt == 's') return false;
    if (b.tt == 's') return true;
    return ex::num(a) < ex::num(b);
}
static bool sortable(const VList &l) {
    for (auto &a : l)
        if (!(ex::isnum(a.tt) || a.tt == 's') || (a.tt == 'd' && std::isnan(a.d)) || (a.tt == 'f' && std::isnan(a.f))) return false;
    return true;
}
static bool total(const VList &l) { // no two elements tie unless equal
    for (auto &a : l)
        for (auto &b : l)
            if (!before(a, b) && !before(b, a) && !ex::same(a, b)) return false;
    return true;
}
static Term arg(Ctx &c, Vars &s, int depth, int kind, int lo, int hi);

static VList seq(double start, double end, double step, bool dbl) {
    VList r;
    double span = fabs(end - start);
    for (long i = 0; i * fabs(step) <= span; i++) {
        double x = start + i * step;
        r.push_back(dbl ? mk_d(x) : mk_i((int32_t)x));
    }
    return r;
}

static Term call(Ctx &c, Vars &s, int depth) {
    Term r;
    r.calls = 1;
    auto use = [&](const Term &t) -> std::string {
        r.err = r.err || t.err;
        r.calls += t.calls;
        return t.text;
    };
    switch (c.s.below(15)) {
    case 0: { // nth, [[ ]]
        Term l = arg(c, s, depth, ANY, 0, 7);
        std::string base = use(l);
        bool blob = l.v.size() == 1 && l.v[0].tt == 'b';
        int len = blob ? (int)l.v[0].s.size() : (int)l.v.size();
        int k = c.s.range(1, 3);
        std::string idx;
        for (int i = 0; i < k; i++) {
            VList il;
            int m = c.s.weighted({1, 6, 3, 1});
            bool lit = true;
            for (int j = 0; j < m; j++) {
                int v = len && !c.s.chance(6) ? (int)c.s.below(len) : c.s.chance(50) ? len + (int)c.s.below(3) : -1 - (int)c.s.below(3);
                MAtom a = c.s.chance(80) ? mk_i(v) : c.s.chance(40) ? mk('h', v) : mk_d(v < 0 ? v : v + .25);
                il.push_back(a);
                if (v < 0 || v >= len) r.err = true;
                if (!r.err) r.v.push_back(blob ? mk('c', (int8_t)l.v[0].s[v]) : l.v[v]);
                lit = lit && v >= 0 && a.tt != 'h';
            }
            std::string t;
            if (lit && m && c.s.chance(60)) {
                for (auto &a : il) t += (t.empty() ? "" : ", ") + ex::lit(a);
                if (m > 1) t = "[" + t + "]";
            } else {
                t = strf("/v%d", s.n++);
                s.m.push_back({t, il});
            }
            idx += (idx.empty() ? "" : ", ") + t;
        }
        if (c.s.chance(40)) r.text = base + "[[ " + idx + " ]]";
        else r.text = "nth(" + base + ", " + idx + ")";
        if (l.text.find("[[") != std::string::npos && r.text[0] != 'n') r.text = "nth(" + base + ", " + idx + ")";
        return r;
    }
    case 1: {
        Term l = arg(c, s, depth, ANY, 0, 7);
        r.text = std::string(c.s.chance(50) ? "reverse(" : "rev(") + use(l) + ")";
        r.v = l.v;
        std::reverse(r.v.begin(), r.v.end());
        return r;
    }
    case 2: { // sort: one or more lists
        int k = c.s.weighted({5, 2, 1}) + 1;
        for (int i = 0; i < k; i++) {
            Term l = arg(c, s, depth, SORTABLE, 0, 8);
            r.text += (i ? ", " : "") + use(l);
            r.v.insert(r.v.end(), l.v.begin(), l.v.end());
        }
        r.text = "sort(" + r.text + ")";
        if (!sortable(r.v)) throw Discard{};
        if (total(r.v)) std::stable_sort(r.v.begin(), r.v.end(), before);
        else r.ordered = true;
        return r;
    }
    case 3: {
        Term l = arg(c, s, depth, NUMERIC, 0, 8);
        for (auto &a : l.v)
            if (!ex::isnum(a.tt)) throw Discard{};
        r.text = "nonzero(" + use(l) + ")";
        for (size_t i = 0; i < l.v.size(); i++)
            if (truth(l.v[i])) r.v.push_back(mk_i(i));
        return r;
    }
    case 4: { // list, [ ]
        int k = c.s.range(0, 4);
        for (int i = 0; i < k; i++) {
            Term l = arg(c, s, depth, ANY, 0, 4);
            r.text += (i ? ", " : "") + use(l);
            r.v.insert(r.v.end(), l.v.begin(), l.v.end());
        }
        r.text = c.s.chance(50) ? "list(" + r.text + ")" : "[ " + r.text + " ]";
        return r;
    }
    case 5: {
        int n = c.s.range(-1, 5);
        std::string nt = n < 0 ? "0 - 1" : c.s.chance(50) ? strf("%d", n) : strf("%d + %d", n - n / 2, n / 2);
        if (c.s.chance(15)) {
            r.text = "nfill(" + nt + ")";
            for (int i = 0; i < n; i++) r.v.push_back(mk_d(0));
            return r;
        }
        Term l = arg(c, s, depth, ANY, 0, 4);
        r.text = "nfill(" + nt + ", " + use(l) + ")";
        for (int i = 0; i < n; i++) r.v.insert(r.v.end(), l.v.begin(), l.v.end());
        return r;
    }
    case 6: { // arithmetic sequence; quarters are exact
        bool dbl = c.s.chance(50), stepped = c.s.chance(60);
        int K = stepped && c.s.chance(15) ? c.s.pick(std::vector<int>{1000, 50000, 1000000, 100000000}) : 1; // large numbers
        auto val = [&](int lo, int hi, bool &isd) -> std::pair<double, std::string> {
            MAtom a = dbl && c.s.chance(60) ? (K > 1 || c.s.chance(60) ? mk_d(c.s.range(lo * 4, hi * 4) / 4. * K) : mk_f(c.s.range(lo * 4, hi * 4) / 4.f)) : c.s.chance(80) ? mk_i(c.s.range(lo, hi) * K) : mk('h', c.s.range(lo, hi) * K);
            isd = isd || ex::isflt(a.tt);
            std::string t = strf("/v%d", s.n);
            t = ex::operand(c, t.c_str(), {a});
            if (t[0] == '/') s.n++, s.m.push_back({t, {a}});
            return {ex::num(a), t};
        };
        bool isd = false;
        size_t at = s.m.size();
        auto a = val(-20, 20, isd), b = c.s.chance(8) ? a : val(-20, 20, isd);
        r.text = "aseq(" + a.second + ", " + b.second;
        double step = b.first > a.first ? 1 : -1;
        if (stepped) {
            auto st = val(-7, 7, isd);
            step = st.first;
            if (c.s.chance(80) && (step < 0) != (b.first < a.first)) r.text += ", 0 - " + st.second, step = -step;
            else r.text += ", " + st.second;
        }
        r.text += ")";
        if (a.first == b.first) { // the start itself
            MAtom x;
            bool found = false;
            for (size_t i = at; i < s.m.size(); i++)
                if (s.m[i].addr == a.second) x = s.m[i].args[0], found = true;
            if (!found) {
                std::string t = a.second;
                if (t[0] == '[') t = t.substr(1, t.size() - 2);
                x = t.find('.') != std::string::npos ? mk_d(a.first) : mk_i((int)a.first);
            }
            r.v = {x};
        } else if (step == 0 || (step < 0) != (b.first < a.first)) r.err = true;
        else r.v = seq(a.first, b.first, step, isd);
        return r;
    }
    case 7: {
        int k = c.s.range(2, 4);
        std::vector<VList> ls;
        size_t m = SIZE_MAX;
        for (int i = 0; i < k; i++) {
            Term l = arg(c, s, depth, ANY, 0, 5);
            r.text += (i ? ", " : "") + use(l);
            ls.push_back(l.v);
            m = std::min(m, l.v.size());
        }
        r.text = "interleave(" + r.text + ")";
        for (size_t j = 0; j < m; j++)
            for (auto &l : ls) r.v.push_back(l[j]);
        return r;
    }
    case 8: case 9: {
        static const char *F[] = {"first", "last", "rest", "butlast"};
        int f = c.s.below(4);
        Term l = arg(c, s, depth, ANY, 0, 6);
        r.text = std::string(F[f]) + "(" + use(l) + ")";
        if (l.v.size()) {
            if (f == 0) r.v = {l.v.front()};
            else if (f == 1) r.v = {l.v.back()};
            else if (f == 2) r.v.assign(l.v.begin() + 1, l.v.end());
            else r.v.assign(l.v.begin(), l.v.end() - 1);
        }
        return r;
    }
    case 10: {
        Term l = arg(c, s, depth, ANY, 0, 6);
        r.text = "identity(" + use(l) + ")";
        r.v = l.v;
        return r;
    }
    case 11: {
        int f = c.s.below(3);
        int k = c.s.range(f == 1 ? 2 : 1, 4);
        for (int i = 0; i < k; i++) {
            Term l = arg(c, s, depth, ANY, 0, 4);
            r.text += (i ? ", " : "") + use(l);
            if (i == (f == 0 ? 0 : f == 1 ? 1 : k - 1)) r.v = l.v;
        }
        r.text = std::string(f == 0 ? "prog1(" : f == 1 ? "prog2(" : "progn(") + r.text + ")";
        return r;
    }
    case 12: {
        Term l = arg(c, s, depth, ANY, 0, 6);
        r.text = "length(" + use(l) + ")";
        r.v = {mk_i((int)l.v.size())};
        return r;
    }
    case 13: { // the elements of sort in the order of sortidx are sort
        Term l = leaf(c, s, SORTABLE, 0, 8);
        bool addr = l.text[0] == '/';
        if (!addr) {
            std::string a = strf("/v%d", s.n++);
            s.m.push_back({a, l.v});
            l.text = a;
        }
        r.text = "nth(" + l.text + ", sortidx(" + l.text + "))";
        r.calls++;
        r.v = l.v;
        if (total(r.v)) std::stable_sort(r.v.begin(), r.v.end(), before);
        else r.ordered = true;
        return r;
    }
    default: { // sortidx with distinct keys
        Term l = leaf(c, s, SORTABLE, 0, 8);
        std::vector<int> ix;
        for (size_t i = 0; i < l.v.size(); i++) {
            for (size_t j = 0; j < i; j++)
                if (!before(l.v[i], l.v[j]) && !before(l.v[j], l.v[i])) throw Discard{};
            ix.push_back(i);
        }
        r.text = "sortidx(" + use(l) + ")";
        std::sort(ix.begin(), ix.end(), [&](int a, int b) { return before(l.v[a], l.v[b]); });
        for (int i : ix) r.v.push_back(mk_i(i));
        return r;
    }
    }
}
static Term arg(Ctx &c, Vars &s, int depth, int kind, int lo, int hi) {
    if (depth > 0 && c.s.chance(45)) {
        Term t = call(c, s, depth - 1);
        if (t.ordered) throw Discard{};
        if (t.v.size() > 700) throw Discard{};
        return t;
    }
    return leaf(c, s, kind, lo, hi);
}

static void t_list(Ctx &c) {
    Vars s;
    Term t = call(c, s, c.s.weighted({3, 4, 3, 1}));
    if (t.text.size() > 500) throw Discard{};
    std::string in = enc_bundle(s.m, 7);
    c.note(t.text + "  on\n" + dump(s.m));
    ex::Run r = ex::run(t.text, in);
    CHECK(c, r.parsed, "`%s` is not accepted", t.text.c_str());
    if (t.err) CHECK(c, r.err, "`%s` on\n%s\ngives %s; want an error", t.text.c_str(), dump(s.m).c_str(), ex::dump(r.out).c_str());
    else CHECK(c, !r.err, "`%s` on\n%s\ngives error %x; want %s", t.text.c_str(), dump(s.m).c_str(), r.err, ex::dump(t.v).c_str());
    CHECK(c, r.bndl == in, "`%s` changes the bundle", t.text.c_str());
    if (!t.err && !t.ordered) CHECK(c, ex::same(r.out, t.v), "`%s` on\n%s\nis %s; want %s", t.text.c_str(), dump(s.m).c_str(), ex::dump(r.out).c_str(), ex::dump(t.v).c_str());
    if (!t.err && t.ordered) {
        VList left = t.v;
        for (size_t i = 0; i < r.out.size(); i++) {
            CHECK(c, !i || !before(r.out[i], r.out[i - 1]), "`%s` on\n%s\nis %s: element %d is before the one in front of it", t.text.c_str(), dump(s.m).c_str(), ex::dump(r.out).c_str(), (int)i);
            auto p = std::find_if(left.begin(), left.end(), [&](const MAtom &a) { return ex::same(a, r.out[i]); });
            CHECK(c, p != left.end(), "`%s` on\n%s\nis %s: element %d is not in the list (often enough)", t.text.c_str(), dump(s.m).c_str(), ex::dump(r.out).c_str(), (int)i);
            left.erase(p);
        }
        CHECK(c, left.empty(), "`%s` on\n%s\nis %s: %d elements are lost", t.text.c_str(), dump(s.m).c_str(), ex::dump(r.out).c_str(), (int)left.size());
    }
    c.nontrivial = !t.err && t.v.size() >= 2;
    if (t.err) c.label("error");
    if (t.ordered) c.label("ties");
    if (t.calls > 1) c.label("nested");
}

// lists of more elements than fit on a stack
static void t_long(Ctx &c) {
    int k = c.s.weighted({1, 3, 1, 1, 1, 1, 1}), n = c.s.chance(30) || k > 2 ? c.s.range(1, 100000) : (k ? 550000 : 1100000) + c.s.range(0, 9999), from = c.s.range(-3, 3), to = from + n - 1;
    std::string l = strf("aseq(%d, %d)", from, to);
    static const char *F[] = {"nonzero(%s)", "sortidx(%s)", "sortidx(reverse(%s))", "rest(%s)", "butlast(%s)", "reverse(%s)", "sort(reverse(%s))"};
    std::string text = strf(F[k], l.c_str());
    c.note(text);
    t_osc_expr *e = nullptr;
    t_osc_atom_ar_u *out = nullptr;
    std::string b = enc_bundle({}, 7);
    long len = (long)b.size();
    char *p = (char *)osc_mem_alloc(len);
    memcpy(p, b.data(), len);
    CHECK(c, !osc_expr_parser_parseExpr(&text[0], &e, nullptr) && !osc_expr_eval(e, &len, &p, &out, nullptr), "`%s` fails", text.c_str());
    std::vector<int> want;
    for (int i = 0; i < n; i++) {
        int v = from + i;
        if (k == 0 && v) want.push_back(i);
        if (k == 1) want.push_back(i);
        if (k == 2) want.push_back(n - 1 - i);
        if ((k == 3 && i) || (k == 4 && i < n - 1) || k == 6) want.push_back(v);
        if (k == 5) want.push_back(to - i);
    }
    size_t got = out ? osc_atom_array_u_getLen(out) : 0;
    CHECK(c, got == want.size(), "`%s` has %zu elements; want %zu", text.c_str(), got, want.size());
    for (size_t i = 0; i < want.size(); i++) {
        t_osc_atom_u *a = (t_osc_atom_u *)osc_atom_array_u_get(out, (int)i);
        CHECK(c, osc_atom_u_getTypetag(a) == 'i' && osc_atom_u_getInt32(a) == want[i], "element %zu of `%s` is %s; want %d", i, text.c_str(), dump(read_atom(a)).c_str(), want[i]);
    }
    if (out) osc_atom_array_u_free(out);
    osc_expr_free(e);
    osc_mem_free(p);
    c.nontrivial = n > 1000;
}

namespace pt {
Property property = {"P32",
                     "a value of two or more elements",
                     {{"list", 40000, t_list}, {"long", 1, t_long}},
                     {"sort keys are numbers without NaN and strings", "the order of elements with equal keys is not specified", "sequences have at most a few hundred elements, or up to 1.3 million for the functions of one list, within int32"},
                     150000,
                     3000000};
}
