// P12: explode and flatten
#include "model.hpp"
using namespace pt;

static std::vector<std::string> cut(const std::string &a, char sep) {
    // "/a/b" -> /a /b; with '.': "/a.b" and "/a./b" -> /a /b
    std::vector<std::string> r;
    size_t i = 1;
    std::string cur = "/";
    for (; i < a.size(); i++) {
        if (a[i] != sep) {
            cur += a[i];
            continue;
        }
        r.push_back(cur);
        cur = "/";
        if (sep != '/' && i + 1 < a.size() && a[i + 1] == '/') i++;
    }
    r.push_back(cur);
    return r;
}
// what is left of the address below the first n segments
static std::string rest(const std::string &a, char sep, size_t n) {
    std::string r = a;
    while (n--) {
        size_t p = r.find(sep, 1) + 1;
        if (sep == '/') r = r.substr(p - 1);
        else r = r[p] == '/' ? r.substr(p) : "/" + r.substr(p);
    }
    return r;
}
// the nested form of messages given as remaining segments; groups stand where they were last added to
static MBundle nest(const std::vector<std::pair<std::vector<std::string>, MMsg>> &in, size_t level, int maxlevel, char sep) {
    MBundle r;
    std::map<std::string, std::vector<std::pair<std::vector<std::string>, MMsg>>> groups;
    std::vector<std::string> order;
    for (auto &x : in) {
        if ((maxlevel >= 0 && (int)level >= maxlevel) || x.first.size() - level == 1) {
            MMsg m = x.second;
            std::string a = rest(m.addr, sep, level);
            m.addr = a;
            r.push_back(m);
            order.push_back("");
            continue;
        }
        const std::string &k = x.first[level];
        groups[k].push_back(x);
        for (size_t i = 0; i < order.size(); i++)
            if (order[i] == k) {
                order.erase(order.begin() + i);
                r.erase(r.begin() + i);
            }
        order.push_back(k);
        r.push_back(MMsg{k, {}});
    }
    for (size_t i = 0; i < r.size(); i++)
        if (!order[i].empty()) r[i].args.push_back(mk_bndl(nest(groups[order[i]], level + 1, maxlevel, sep)));
    return r;
}
static MBundle ref_explode(const MBundle &b, int maxlevel, char sep) {
    std::vector<std::pair<std::vector<std::string>, MMsg>> in;
    for (auto &m : b) in.push_back({cut(m.addr, sep), m});
    return nest(in, 0, maxlevel, sep);
}
static void put(MBundle &d, const MMsg &m) {
    MBundle r;
    for (auto &x : d) if (x.addr != m.addr) r.push_back(x);
    r.push_back(m);
    d = r;
}
static void ref_flatten(MBundle &d, const MBundle &s, int maxlevel, int level, const std::string *prefix, const std::string &sep, bool drop) {
    for (auto &m : s) {
        MMsg rest = m;
        std::string full = prefix ? *prefix + sep + m.addr : m.addr;
        if (level < maxlevel || maxlevel <= 0) {
            rest.args.clear();
            for (auto &a : m.args)
                if (a.tt == '.') ref_flatten(d, a.b, maxlevel, level + 1, &full, sep, drop);
                else rest.args.push_back(a);
        }
        if (drop && rest.args.empty()) continue;
        rest.addr = full;
        put(d, rest);
    }
}
// no address equal to or a segment prefix of another
static bool clean(const MBundle &b, char sep) {
    for (size_t i = 0; i < b.size(); i++)
        for (size_t j = 0; j < b.size(); j++) {
            if (i == j) continue;
            auto x = cut(b[i].addr, sep), y = cut(b[j].addr, sep);
            if (x.size() <= y.size() && std::equal(x.begin(), x.end(), y.begin())) return false;
        }
    return true;
}
static GenOpt opts(Ctx &c) {
    GenOpt o;
    o.max_args = 2;
    o.depth = 1;
    o.max_msgs = 2;
    o.types = "iisdTtbF.NcH";
    o.max_str = 4;
    return o;
}
static std::string addr(Ctx &c, char sep, int form, const char *ch) {
    std::string a;
    int n = 1 + c.s.size(4);
    for (int i = 0; i < n; i++) {
        if (!i || sep == '/') a += "/";
        else a += form ? std::string(1, sep) + "/" : std::string(1, sep);
        int l = 1 + c.s.size(2);
        while (l--) a += c.s.pickc(ch);
    }
    return a;
}
static void explode(Ctx &c) {
    GenOpt o = opts(c);
    char sep = c.s.chance(70) ? '/' : c.s.pickc(".:_");
    int form = c.s.below(2);
    const char *ch = c.s.chance(60) ? "ab" : "abcdef";
    MBundle b;
    int n = c.s.size(c.s.chance(15) ? 14 : 6);
    for (int i = 0; i < n; i++) {
        MMsg m = gen_msg(c, o, 1);
        m.addr = addr(c, sep, form, ch);
        b.push_back(m);
        if (!clean(b, sep)) b.pop_back(); // lossless only without repeats and prefixes
    }
    int maxlevel = c.s.chance(50) ? -1 : c.s.range(0, 5);
    c.note(dump(b) + strf("\nseparator %c, at most %d levels", sep, maxlevel));
    std::string seps(1, sep);
    if (c.s.chance(20)) seps += "xyz"; // only the first character counts
    char *sp = sep == '/' && c.s.chance(30) ? nullptr : &seps[0];
    MBundle want = ref_explode(b, maxlevel, sep);
    bool nested = false;
    for (auto &m : want) for (auto &a : m.args) nested |= a.tt == '.' && a.b.size() > 1;
    c.nontrivial = nested;
    t_osc_bndl_u *u = build_bundle(b), *x = nullptr;
    CHECK(c, osc_bundle_u_explode(&x, u, maxlevel, sp) == OSC_ERR_NONE && x, "explode fails");
    CHECK(c, read_bundle(u) == b, "exploding changed its input");
    MBundle g = read_bundle(x);
    CHECK(c, g == want, "exploded to\n%s\nwant\n%s", dump(g).c_str(), dump(want).c_str());
    // in two parts into the same bundle
    size_t half = c.s.below(b.size() + 1);
    MBundle b1(b.begin(), b.begin() + half), b2(b.begin() + half, b.end());
    t_osc_bndl_u *u1 = build_bundle(b1), *u2 = build_bundle(b2), *y = nullptr;
    osc_bundle_u_explode(&y, u1, maxlevel, sp);
    osc_bundle_u_explode(&y, u2, maxlevel, sp);
    CHECK(c, read_bundle(y) == want, "exploded in two parts:\n%s\nwant\n%s", dump(read_bundle(y)).c_str(), dump(want).c_str());
    osc_bundle_u_free(u1), osc_bundle_u_free(u2), osc_bundle_u_free(y);
    // the serialised form
    Buf in(enc_bundle(b));
    t_osc_bndl_s *s = osc_bundle_s_alloc(in.n, in.p), *d = c.s.chance(50) ? nullptr : osc_bundle_s_alloc(0, nullptr);
    CHECK(c, osc_bundle_s_explode(&d, s, maxlevel, sp) == OSC_ERR_NONE && d, "explode of the bytes fails");
    g = must_decode(c, "the exploded bytes", osc_bundle_s_getPtr(d), osc_bundle_s_getLen(d));
    CHECK(c, g == want, "the bytes exploded to\n%s\nwant\n%s", dump(g).c_str(), dump(want).c_str());
    // and back
    std::string join = sep == '/' ? "" : seps.substr(0, 1);
    MBundle flat;
    std::map<std::string, int> at;
    bool has_bundle = false;
    for (auto &m : b) for (auto &a : m.args) has_bundle |= a.tt == '.';
    t_osc_bndl_s *f = nullptr;
    CHECK(c, osc_bundle_s_flatten(&f, d, 0, &join[0], 1) == OSC_ERR_NONE && f, "flatten fails");
    g = must_decode(c, "the flattened bytes", osc_bundle_s_getPtr(f), osc_bundle_s_getLen(f));
    if (!has_bundle && (sep == '/' || form)) {
        // the original messages, in some order, those of one group together; argument-less ones are dropped
        MBundle keep;
        for (auto &m : b) if (!m.args.empty()) keep.push_back(m);
        CHECK(c, g.size() == keep.size(), "flattened to %zu messages, want %zu:\n%s", g.size(), keep.size(), dump(g).c_str());
        for (auto &m : keep) {
            bool found = false;
            for (auto &q : g) found |= q == m;
            CHECK(c, found, "%s is lost: %s", dump(m).c_str(), dump(g).c_str());
        }
    }
    osc_bundle_s_deepFree(f);
    osc_bundle_s_deepFree(d);
    osc_bundle_s_free(s);
    osc_bundle_u_free(u), osc_bundle_u_free(x);
}
static void flatten(Ctx &c) {
    GenOpt o = opts(c);
    o.types = "i..sT";
    o.seg_chars = "ab";
    o.max_msgs = 3;
    o.max_args = 3;
    MBundle b = gen_bundle(c, o, c.s.range(1, 3));
    int maxlevel = c.s.chance(50) ? 0 : c.s.range(-1, 4);
    bool drop = c.s.below(2);
    std::string sep = c.s.pick(std::vector<std::string>{"", ".", "/", "::"});
    c.note(dump(b) + strf("\nseparator %s, at most %d levels, drop %d", show(sep).c_str(), maxlevel, drop));
    MBundle want;
    ref_flatten(want, b, maxlevel, 0, nullptr, sep, drop);
    for (auto &m : b) for (auto &a : m.args) if (a.tt == '.') for (auto &q : a.b) c.nontrivial |= !q.args.empty();
    t_osc_bndl_u *u = build_bundle(b), *x = nullptr;
    CHECK(c, osc_bundle_u_flatten(&x, u, maxlevel, sep.empty() && c.s.chance(50) ? nullptr : &sep[0], drop) == OSC_ERR_NONE && x, "flatten fails");
    CHECK(c, read_bundle(u) == b, "flattening changed its input");
    MBundle g = read_bundle(x);
    CHECK(c, g == want, "flattened to\n%s\nwant\n%s", dump(g).c_str(), dump(want).c_str());
    CHECK(c, osc_bundle_u_getMsgCount(x) == (int)want.size(), "%d messages, want %zu", osc_bundle_u_getMsgCount(x), want.size());
    osc_bundle_u_free(u), osc_bundle_u_free(x);
    Buf in(enc_bundle(b));
    t_osc_bndl_s *s = osc_bundle_s_alloc(in.n, in.p), *f = nullptr;
    CHECK(c, osc_bundle_s_flatten(&f, s, maxlevel, &sep[0], drop) == OSC_ERR_NONE && f, "flatten of the bytes fails");
    g = must_decode(c, "the flattened bytes", osc_bundle_s_getPtr(f), osc_bundle_s_getLen(f));
    CHECK(c, g == want, "the bytes flattened to\n%s\nwant\n%s", dump(g).c_str(), dump(want).c_str());
    osc_bundle_s_deepFree(f);
    osc_bundle_s_free(s);
}
static void any(Ctx &c) {
    // repeats and prefixes: lossy, but well-formed, and the same in both representations
    GenOpt o = opts(c);
    o.seg_chars = "ab";
    o.max_msgs = 7;
    MBundle b = gen_bundle(c, o, 2);
    for (auto &m : b) m.addr = addr(c, '/', 0, "ab");
    int maxlevel = c.s.chance(50) ? -1 : c.s.range(0, 5);
    c.note(dump(b) + strf("\nat most %d levels", maxlevel));
    c.nontrivial = !clean(b, '/');
    std::string sep = "/";
    t_osc_bndl_u *u = build_bundle(b), *x = nullptr;
    CHECK(c, osc_bundle_u_explode(&x, u, maxlevel, &sep[0]) == OSC_ERR_NONE, "explode fails");
    MBundle g = read_bundle(x);
    Buf in(enc_bundle(b));
    t_osc_bndl_s *s = osc_bundle_s_alloc(in.n, in.p), *d = nullptr;
    CHECK(c, osc_bundle_s_explode(&d, s, maxlevel, &sep[0]) == OSC_ERR_NONE && d, "explode of the bytes fails");
    MBundle h = must_decode(c, "the exploded bytes", osc_bundle_s_getPtr(d), osc_bundle_s_getLen(d));
    CHECK(c, g == h, "in memory\n%s\nfrom the bytes\n%s", dump(g).c_str(), dump(h).c_str());
    // the last message of the bundle is still there: nothing later overwrites it
    if (!b.empty() && maxlevel != 0) {
        std::vector<std::string> p = cut(b.back().addr, '/');
        const MBundle *at = &g;
        for (size_t i = 0; i < p.size(); i++) {
            bool whole = (maxlevel >= 0 && (int)i == maxlevel) || i + 1 == p.size();
            std::string a = p[i];
            if (whole) for (size_t j = i + 1; j < p.size(); j++) a += p[j];
            const MMsg *f = nullptr;
            for (auto &m : *at) if (m.addr == a) f = &m;
            CHECK(c, f, "%s of the last message is not there:\n%s", a.c_str(), dump(g).c_str());
            if (whole) {
                CHECK(c, *f == MMsg({a, b.back().args}), "the last message became %s", dump(*f).c_str());
                break;
            }
            CHECK(c, f->args.size() == 1 && f->args[0].tt == '.', "%s does not hold a sub-bundle: %s", a.c_str(), dump(*f).c_str());
            at = &f->args[0].b;
        }
    }
    osc_bundle_s_deepFree(d);
    osc_bundle_s_free(s);
    osc_bundle_u_free(u), osc_bundle_u_free(x);
}
static void deep(Ctx &c) {
    // one address with many long segments, next to a short one
    bool huge = c.s.chance(4);
    int n = huge ? c.s.range(80, 100) : c.s.range(1, 20), l = huge ? c.s.range(1000, 3000) : c.s.range(1, 20);
    MMsg m;
    for (int i = 0; i < n; i++) m.addr += "/" + std::string(l, 'a' + i % 26);
    m.args = {mk_i(c.s.range(-9, 9)), mk_s("x")};
    MBundle b = {m};
    if (c.s.chance(50)) b.push_back({"/1/2", {mk_i(1)}});
    int maxlevel = c.s.chance(60) ? -1 : c.s.range(0, n + 2);
    c.note(strf("%d segments of %d characters, at most %d levels", n, l, maxlevel));
    MBundle want = ref_explode(b, maxlevel, '/');
    t_osc_bndl_u *u = build_bundle(b), *x = nullptr, *f = nullptr;
    CHECK(c, osc_bundle_u_explode(&x, u, maxlevel, nullptr) == OSC_ERR_NONE && x, "explode fails");
    MBundle g = read_bundle(x);
    CHECK(c, g == want, "explode gives something else");
    std::string e;
    CHECK(c, osc_bundle_u_flatten(&f, x, 0, &e[0], 1) == OSC_ERR_NONE && f, "flatten fails");
    g = read_bundle(f);
    CHECK(c, g == b, "flattened to %s", dump(g).substr(0, 2000).c_str());
    osc_bundle_u_free(f);
    osc_bundle_u_free(u), osc_bundle_u_free(x);
    c.nontrivial = n > 5 && maxlevel;
}

namespace pt {
Property property = {
    "P12",
    "bundles of up to 14 messages with addresses of 1-5 segments sharing prefixes, exploded at every depth limit and with several "
    "separators, in one and two parts, in both representations, and flattened again; nested bundles of depth up to 3, flattened "
    "with every limit, separator and dropping option; addresses of up to 100 very long segments; bundles with repeats and prefixes. Non-trivial: a group of two or more "
    "messages, a nested message with arguments, a repeat or prefix",
    {{"explode", 200, explode}, {"flatten", 120, flatten}, {"any", 80, any}, {"deep", 1, deep}},
    {"addresses are plain and have no empty segments"},
    120000, 8000000,
};
}
