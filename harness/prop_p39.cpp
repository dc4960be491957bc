// P39: the documentation of the expression functions agrees with the functions
// uses: expr.cpp
// uses: exgen.cpp
#include "exgen.hpp"
#include "expr.hpp"
#include <set>
#include <map>
extern "C" {
#include "osc_expr_rec.h"
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
}
using namespace pt;

static const std::map<std::string, exgen::Fn> &table() {
    static std::map<std::string, exgen::Fn> m;
    if (m.empty()) {
        for (auto &f : exgen::functions()) m[f.name] = f;
        m["jn"] = {"jn", 2, 0};
        m["yn"] = {"yn", 2, 0};
    }
    return m;
}
static const std::vector<std::string> &names() {
    static std::vector<std::string> v;
    if (v.empty())
        for (auto &x : table()) v.push_back(x.first);
    return v;
}
static std::string pick_name(Ctx &c) {
    std::string s = c.s.pick(names());
    switch (c.s.weighted({8, 1, 1, 1, 1})) {
    case 1: s = s.substr(0, s.size() - 1); break;
    case 2: s += c.s.pickc("a1 =s_"); break;
    case 3:
        if (!s.empty()) s[c.s.below(s.size())] ^= 0x20;
        break;
    case 4: s = std::string(c.s.below(3) ? c.s.below(20) : c.s.below(5000), 'a'); break;
    }
    return s;
}

struct Doc {
    bool ok = false;
    MBundle b;
    std::string name, signature, docstring;
    int req = 0, opt = 0;
    std::map<int, std::string> rn, rt, on, ot;
    std::vector<std::string> cats;
};
static Doc get_doc(Ctx &c, const std::string &name) {
    Doc d;
    t_osc_bndl_u *b = nullptr;
    Buf n(name + std::string(1, '\0'));
    t_osc_err e = osc_expr_getDocForFunction(n.p, &b);
    CHECK(c, (e == 0) == (b != nullptr), "getDocForFunction(%s) returned %d and %s bundle", show(name).c_str(), (int)e, b ? "a" : "no");
    if (!b) return d;
    d.ok = true;
    d.b = read_bundle(b);
    osc_bundle_u_free(b);
    std::set<std::string> seen;
    for (auto &m : d.b) {
        CHECK(c, seen.insert(m.addr).second, "%s appears twice in the documentation of %s", m.addr.c_str(), name.c_str());
        std::string s = m.args.size() == 1 && m.args[0].tt == 's' ? m.args[0].s : "";
        int i = m.args.size() == 1 && m.args[0].tt == 'i' ? (int)m.args[0].i : -99, k = 0;
        if (m.addr == "/doc/function/name") d.name = s;
        else if (m.addr == "/doc/function/signature") d.signature = s;
        else if (m.addr == "/doc/function/docstring") d.docstring = s;
        else if (m.addr == "/doc/function/num_required_args") d.req = i;
        else if (m.addr == "/doc/function/num_optional_args") d.opt = i;
        else if (sscanf(m.addr.c_str(), "/doc/function/arg/required/name/%d", &k) == 1) d.rn[k] = s;
        else if (sscanf(m.addr.c_str(), "/doc/function/arg/required/types/%d", &k) == 1) d.rt[k] = s;
        else if (sscanf(m.addr.c_str(), "/doc/function/arg/optional/name/%d", &k) == 1) d.on[k] = s;
        else if (sscanf(m.addr.c_str(), "/doc/function/arg/optional/types/%d", &k) == 1) d.ot[k] = s;
        else if (m.addr == "/doc/function/categories")
            for (auto &a : m.args) d.cats.push_back(a.s);
        else c.fail("unknown message %s in the documentation of %s", m.addr.c_str(), name.c_str());
    }
    return d;
}
// the words of the types of an argument
static void check_types(Ctx &c, const std::string &fn, int k, const std::string &t, int bits) {
    static const std::pair<int, const char *> W[] = {{1, "number"}, {2, "list"}, {4, "string"}, {8, "atom"}, {0x10, "expression"}, {0x20, "OSC address"},
        {0x40, "boolean"}, {0x80, "function"}, {0x100, "timetag"}};
    std::string want;
    for (auto &w : W)
        if (bits & w.first) want += (want.empty() ? "" : ", ") + std::string(w.second);
    CHECK(c, t == want, "argument %d of %s takes types 0x%x, documented as %s", k, fn.c_str(), bits, show(t).c_str());
    CHECK(c, !t.empty(), "argument %d of %s is documented to take no type", k, fn.c_str());
}
static std::vector<std::string> list_of(Ctx &c) {
    t_osc_bndl_s *s = osc_expr_getCategories();
    CHECK(c, s, "no categories");
    MBundle b = must_decode(c, "the bundle of categories", osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
    std::vector<std::string> r;
    const std::string pre = "/doc/category/list";
    for (auto &m : b) {
        CHECK(c, m.addr.compare(0, pre.size(), pre) == 0 && m.addr.size() > pre.size() + 1, "category %s", show(m.addr).c_str());
        r.push_back(m.addr.substr(pre.size()));
    }
    return r;
}

static void function(Ctx &c) {
    std::string name = pick_name(c);
    c.note("function " + show(name.substr(0, 200)));
    auto it = table().find(name);
    Buf n(name + std::string(1, '\0'));
    t_osc_expr_rec *rec = osc_expr_lookupFunction(n.p);
    Doc d = get_doc(c, name);
    CHECK(c, (rec != nullptr) == d.ok, "%s is %sfound by lookupFunction and %sdocumented", show(name).c_str(), rec ? "" : "not ", d.ok ? "" : "not ");
    if (it != table().end()) CHECK(c, rec, "%s is not found", name.c_str());
    if (!rec) return;
    c.nontrivial = true;
    CHECK(c, name == osc_expr_rec_getName(rec), "looking up %s gave %s", name.c_str(), osc_expr_rec_getName(rec));
    CHECK(c, d.name == name, "documentation of %s is of %s", name.c_str(), show(d.name).c_str());
    CHECK(c, d.signature == osc_expr_rec_getSignature(rec) && d.docstring == osc_expr_rec_getDocstring(rec), "signature or text of %s: %s, %s", name.c_str(), show(d.signature).c_str(), show(d.docstring).c_str());
    CHECK(c, d.req == osc_expr_rec_getNumRequiredArgs(rec) && d.opt == osc_expr_rec_getNumOptionalArgs(rec), "%s documents %d and %d arguments, takes %d and %d", name.c_str(), d.req, d.opt,
          osc_expr_rec_getNumRequiredArgs(rec), osc_expr_rec_getNumOptionalArgs(rec));
    if (it != table().end()) {
        CHECK(c, d.req == it->second.req && d.opt == it->second.opt, "%s documents %d and %d arguments, takes %d and %d", name.c_str(), d.req, d.opt, it->second.req, it->second.opt);
    }
    CHECK(c, (int)d.rn.size() == d.req && (int)d.rt.size() == d.req, "%s has %d required arguments of which %zu are documented, %zu with types", name.c_str(), d.req, d.rn.size(), d.rt.size());
    CHECK(c, (int)d.on.size() <= abs(d.opt) && d.on.size() == d.ot.size(), "%s has %d optional arguments of which %zu are documented, %zu with types", name.c_str(), d.opt, d.on.size(), d.ot.size());
    char **rn = osc_expr_rec_getRequiredArgsNames(rec);
    int *rt = osc_expr_rec_getRequiredArgsTypes(rec);
    for (int i = 0; i < d.req; i++) {
        CHECK(c, d.rn.count(i + 1) && d.rn[i + 1] == rn[i], "required argument %d of %s is documented as %s", i + 1, name.c_str(), show(d.rn[i + 1]).c_str());
        check_types(c, name, i + 1, d.rt[i + 1], rt[i]);
    }
    // the optional ones that have names, including those that stand for any number of arguments
    char **on = osc_expr_rec_getOptionalArgsNames(rec);
    int *ot = osc_expr_rec_getOptionalArgsTypes(rec);
    for (int i = 0; on && i < abs(d.opt); i++) {
        if (!on[i]) {
            CHECK(c, !d.on.count(i + 1), "optional argument %d of %s is documented as %s but has no name", i + 1, name.c_str(), show(d.on[i + 1]).c_str());
            continue;
        }
        CHECK(c, d.on.count(i + 1) && d.on[i + 1] == on[i], "optional argument %d of %s, %s, is documented as %s", i + 1, name.c_str(), on[i], show(d.on[i + 1]).c_str());
        check_types(c, name, i + 1, d.ot[i + 1], ot[i]);
    }
    char **cats = osc_expr_rec_getCategories(rec);
    size_t k = 0;
    while (cats[k]) {
        CHECK(c, k < d.cats.size() && d.cats[k] == cats[k], "category %zu of %s", k, name.c_str());
        k++;
    }
    CHECK(c, k == d.cats.size() && k, "%s has %zu categories, %zu documented", name.c_str(), k, d.cats.size());
    // each of them is one of the categories, and lists the function once
    std::vector<std::string> all = list_of(c);
    for (auto &cat : d.cats) {
        CHECK(c, std::count(all.begin(), all.end(), cat) == 1, "%s is in category %s, which is listed %ld times", name.c_str(), cat.c_str(), (long)std::count(all.begin(), all.end(), cat));
        long len = 0;
        char *p = nullptr;
        Buf q(cat + std::string(1, '\0'));
        CHECK(c, !osc_expr_getFunctionsForCategory(q.p, &len, &p) && p, "no functions for category %s", cat.c_str());
        MBundle b = must_decode(c, "the functions of a category", p, len);
        osc_mem_free(p);
        int times = 0;
        for (auto &m : b)
            if (m.args.size() == 1 && m.args[0].tt == 's' && m.args[0].s == name) times++;
        CHECK(c, times == 1, "category %s lists %s %d times", cat.c_str(), name.c_str(), times);
    }
}

static void category(Ctx &c) {
    std::vector<std::string> all = list_of(c);
    std::string cat = c.s.pick(all);
    switch (c.s.weighted({5, 2, 1, 1, 1, 1})) {
    case 1: cat = cat.substr(0, cat.find('/', 1)); break; // all below it
    case 2: cat += "x"; break;
    case 3: cat += "/nothing"; break;
    case 4: cat = "/" + std::string(c.s.below(3) ? c.s.below(200) : c.s.below(5000), 'a'); break;
    case 5: cat = cat.substr(0, cat.size() - 1); break;
    }
    bool full = c.s.chance(30);
    c.note("category " + show(cat.substr(0, 200)) + (full ? " with its prefix" : ""));
    const std::string pre = "/doc/category";
    Buf q((full ? pre : "") + cat + std::string(1, '\0'));
    long len = 0;
    char *p = nullptr;
    CHECK(c, !osc_expr_getFunctionsForCategory(q.p, &len, &p), "refused");
    MBundle b;
    if (p) b = must_decode(c, "the functions of a category", p, len), osc_mem_free(p);
    std::multiset<std::string> got, want;
    for (auto &m : b) {
        CHECK(c, m.args.size() == 1 && m.args[0].tt == 's', "message %s of category %s", dump(m).c_str(), cat.c_str());
        std::string in = m.addr.size() > pre.size() ? m.addr.substr(pre.size(), m.addr.rfind('/') - pre.size()) : "";
        got.insert(in + " " + m.args[0].s);
    }
    for (auto &n : names()) {
        Doc d = get_doc(c, n);
        for (auto &x : d.cats)
            if (x == cat || (x.size() > cat.size() && x.compare(0, cat.size(), cat) == 0 && x[cat.size()] == '/')) want.insert(x + " " + n);
    }
    std::string diff;
    for (auto &x : want)
        if (!got.count(x)) diff += " missing " + x;
    for (auto &x : got)
        if (!want.count(x)) diff += " unexpected " + x;
    CHECK(c, got == want, "functions of category %s:%s", cat.c_str(), diff.c_str());
    c.nontrivial = !want.empty();
}

// a call with fewer arguments than the documentation requires, or more than it allows, is refused, and the documented number is not
static void arity(Ctx &c) {
    std::string name = c.s.pick(names());
    if (!isalpha((unsigned char)name[0]) || name == "lambda" || name == "quote") throw Discard{};
    Doc d = get_doc(c, name);
    CHECK(c, d.ok, "%s is not documented", name.c_str());
    int k = c.s.below(c.s.chance(50) ? d.req + 1 : d.opt < 0 ? d.req + 6 : d.req + d.opt + 3);
    bool fits = k >= d.req && (d.opt < 0 || k <= d.req + d.opt);
    std::string t = name + "(";
    for (int i = 0; i < k; i++) t += (i ? ", " : "") + c.s.pick(std::vector<std::string>{"3", "/a", "[1, 2]", "\"x\"", "1.5"});
    t += ")";
    c.note("text " + t);
    c.nontrivial = k > 0;
    MMsg m;
    m.addr = "/a";
    m.args = {mk_i(1), mk_i(2)};
    Buf text(t + std::string(1, '\0'));
    t_osc_expr *e = nullptr;
    t_osc_err pe = osc_expr_parser_parseExpr(text.p, &e, nullptr);
    bool parsed = !pe && e;
    if (e) osc_expr_free(e);
    if (fits) CHECK(c, parsed, "a call with %d arguments is refused; %s documents %d and %d optional ones", k, name.c_str(), d.req, d.opt);
    else if (k > d.req) CHECK(c, !parsed, "a call with %d arguments is accepted; %s documents %d and %d optional ones", k, name.c_str(), d.req, d.opt);
    else if (parsed) {
        ex::Run r = ex::run(t, enc_bundle({m}));
        CHECK(c, r.err, "%s documents %d required arguments and is evaluated with %d", name.c_str(), d.req, k);
    }
}

namespace pt {
Property property = {"P39", "a function of the language is looked up, a category with functions is listed, or a function is called with arguments",
    {{"function", 5, function}, {"category", 1, category}, {"arity", 4, arity}},
    {"the reference list of function names and argument counts is the one in the harness; functions added to the library later are checked for agreement with their own record"},
    30000, 400000, {}};
}
