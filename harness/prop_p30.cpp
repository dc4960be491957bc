// P30: assignments
// uses: expr.cpp
#include "expr.hpp"
#include <functional>
using namespace pt;
using ex::VList;

struct Store {
    MBundle m;
    uint64_t tt = 1;
    VList *find(const std::string &a) {
        for (auto &x : m)
            if (x.addr == a) return &x.args;
        return nullptr;
    }
    VList get(const std::string &a) {
        VList *v = find(a);
        if (!v) throw ex::Err{};
        return *v;
    }
    void set(const std::string &a, const VList &l) {
        if (VList *v = find(a)) *v = l;
        else m.push_back({a, l});
    }
};
struct Val {
    VList v;
    bool none = false; // no value at all
    Val() {}
    Val(const VList &l) : v(l) {}
};
struct Expr {
    std::string text;
    std::function<Val(Store &)> run;
};
static Val none() {
    Val v;
    v.none = true;
    return v;
}

static const std::vector<std::string> ADDRS = {"/a", "/aa", "/a/b", "/a/bb", "/b", "/c/d/e", "/longer/address/of/this", "/new", "/x1", "/x2"};
static std::string any(Ctx &c) { return ADDRS[c.s.below(ADDRS.size())]; }
static std::string q(const std::string &s) { return "\"" + s + "\""; }

static Expr gen_value(Ctx &c, int depth);
static Expr gen_stmt(Ctx &c, int depth);
static std::string as_arg(Ctx &c, const Expr &e) { return e.text; }

static Expr literal(Ctx &c) {
    VList l = ex::gen_list(c, "iidcHITF", 1, c.s.chance(50) ? 1 : 4, false);
    if (c.s.chance(20)) l[0] = mk_s(c.s.pick(std::vector<std::string>{"", "abc", "hello", "a longer string", "/a", "/b"}));
    if (c.s.chance(4)) l.clear();
    std::string s;
    for (auto &a : l) {
        std::string t = ex::lit(a);
        if (t.empty()) a = mk_i(7), t = "7";
        s += (s.empty() ? "" : ", ") + t;
    }
    if (l.size() != 1) s = "[" + s + "]";
    else if (c.s.chance(20)) s = "list(" + s + ")";
    return {s, [l](Store &) { return Val(l); }};
}
static Expr gen_value(Ctx &c, int depth) {
    switch (c.s.weighted({6, 5, depth > 0 ? 4 : 0, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0, 1})) {
    case 0: return literal(c);
    case 1: {
        std::string a = any(c);
        return {a, [a](Store &s) { return Val(s.get(a)); }};
    }
    case 2: {
        Expr x = gen_value(c, depth - 1), y = gen_value(c, depth - 1);
        return {"list(" + x.text + ", " + y.text + ")", [=](Store &s) {
                    Val a = x.run(s), b = y.run(s);
                    a.v.insert(a.v.end(), b.v.begin(), b.v.end());
                    a.none = false;
                    return a;
                }};
    }
    case 3: { // an assignment inside of an expression
        Expr x = gen_stmt(c, depth - 1);
        return {"progn(" + x.text + ")", x.run};
    }
    case 4: { // a bundle
        int n = c.s.range(0, 3);
        std::vector<std::string> a;
        std::vector<Expr> v;
        std::string t;
        for (int i = 0; i < n; i++) {
            a.push_back(any(c));
            v.push_back(gen_value(c, depth - 1));
            t += (i ? ", " : "") + a[i] + " : " + v[i].text;
        }
        return {"{" + t + "}", [=](Store &s) {
                    MBundle b;
                    for (int i = 0; i < n; i++) {
                        VList l = v[i].run(s).v;
                        b.push_back({a[i], l});
                    }
                    return Val({mk_bndl(b)});
                }};
    }
    default: {
        int k = c.s.below(3);
        if (k == 0) return {"getmsgcount()", [](Store &s) { return Val({mk_i(s.m.size())}); }};
        if (k == 1) return {"emptybundle()", [](Store &s) { return Val({mk(s.m.empty() ? 'T' : 'F')}); }};
        return {"getaddresses()", [](Store &s) {
                    Val v;
                    for (auto &m : s.m) v.v.push_back(mk_s(m.addr));
                    return v;
                }};
    }
    }
}
static VList op2(const std::string &f, const VList &a, const VList &b) {
    for (auto *l : {&a, &b}) {
        if (l->empty()) throw Discard{};
        for (auto &x : *l) {
            if (!ex::isnum(x.tt)) throw Discard{};
            if (x.tt == 'H' && x.i < 0) throw Discard{};
        }
    }
    if (f == "+") return ex::zip(ex::add, a, b);
    if (f == "-") return ex::zip(ex::sub, a, b);
    if (f == "*") return ex::zip(ex::mul, a, b);
    if (f == "/") return ex::zip(ex::div, a, b);
    if (f == "%") {
        for (auto *l : {&a, &b})
            for (auto &x : *l)
                if (ex::isflt(x.tt)) throw Discard{};
        return ex::zip(ex::mod, a, b);
    }
    return ex::zip([](const MAtom &x, const MAtom &y) { return mk_d(pow(ex::num(x), ex::num(y))); }, a, b);
}
static VList one_more(const VList &l, int d) {
    VList r;
    for (auto &a : l) {
        if (a.tt == 'd') r.push_back(mk_d(a.d + d));
        else if (a.tt == 'f') r.push_back(mk_f(a.f + d));
        else if (ex::isint(a.tt)) r.push_back(mk(a.tt, ex::trunc_to(a.tt, (int64_t)((uint64_t)a.i + d))));
        else throw Discard{};
    }
    return r;
}
static void put(VList &l, const std::vector<int> &ix, const VList &d) {
    if (ix.empty() || d.empty()) throw ex::Err{};
    if (ix.size() == 1 && d.size() > 1) {
        if (ix[0] < 0 || ix[0] >= (int)l.size()) throw ex::Err{};
        l[ix[0]] = d[0];
        return;
    }
    size_t n = ix.size() > 1 && d.size() == 1 ? ix.size() : std::min(ix.size(), d.size());
    for (size_t i = 0; i < n; i++)
        if (ix[i] >= 0 && ix[i] < (int)l.size()) l[ix[i]] = d[d.size() == 1 ? 0 : i];
}
static VList *member(Store &s, const std::string &a) {
    VList *v = s.find(a);
    if (!v) throw ex::Err{};
    if (v->empty() || (*v)[0].tt != '.') throw Discard{}; // not a bundle: elsewhere
    return v;
}

static bool valid_address(const std::string &s) {
    return s.size() > 1 && s[0] == '/' && s.find_first_of("# ") == std::string::npos;
}

static Expr gen_stmt(Ctx &c, int depth) {
    std::string a = any(c);
    switch (c.s.weighted({10, 5, 4, 5, 2, 2, 2, 2, 3, 1})) {
    case 0: { // plain assignment in its spellings
        Expr v = gen_value(c, depth);
        int k = c.s.weighted({6, 2, 1, 1});
        auto f = [=](Store &s) {
            Val x = v.run(s);
            x.none = false;
            s.set(a, x.v);
            return x;
        };
        if (k == 0) return {a + " = " + v.text, f};
        if (k == 1) return {"assign(" + a + ", " + v.text + ")", f};
        if (k == 2) {
            // what would be a pattern elsewhere is here just the name of a message
            std::string to = c.s.chance(25) ? c.s.pick(std::vector<std::string>{"/?", "/{a,aa}", "/[ab]", "/a/b?", "/a/{b,bb}"}) : a;
            if (c.s.chance(20)) to = c.s.pick(std::vector<std::string>{"foo", "a/b", "a", "", "/", "/a b", "/a#", "b/a/b", " /a"}); // not an address
            return {"assign(" + q(to) + ", " + v.text + ")", [=](Store &s) {
                        if (!valid_address(to)) throw ex::Err{};
                        Val x = v.run(s);
                        x.none = false;
                        s.set(to, x.v);
                        return x;
                    }};
        }
        std::string p = any(c); // assign(value(/p), v) assigns to the address in /p
        return {"assign(value(" + p + "), " + v.text + ")", [=](Store &s) {
                    VList t = s.get(p);
                    if (t.empty() || t[0].tt != 's' || !valid_address(t[0].s)) throw ex::Err{};
                    std::string to = t[0].s;
                    Val x = v.run(s);
                    x.none = false;
                    s.set(to, x.v);
                    return x;
                }};
    }
    case 1: { // compound
        std::string op = c.s.pick(std::vector<std::string>{"+", "-", "*", "/", "%", "^"});
        Expr v = gen_value(c, 0);
        return {a + " " + op + "= " + v.text, [=](Store &s) {
                    VList o = s.get(a), x = v.run(s).v, r = op2(op, o, x);
                    s.set(a, r);
                    return Val(r);
                }};
    }
    case 2: { // ++ --
        bool inc = c.s.chance(50), pre = c.s.chance(50);
        std::string op = inc ? "++" : "--";
        return {pre ? op + a : a + op, [=](Store &s) {
                    VList o = s.get(a), r = one_more(o, inc ? 1 : -1);
                    s.set(a, r);
                    return Val(pre ? r : o);
                }};
    }
    case 3: { // indexed
        int k = c.s.below(4);
        std::vector<int> ix;
        std::string t;
        bool calc = false;
        Expr v = gen_value(c, c.s.chance(30) ? 1 : 0);
        if (k == 0) {
            ix = {c.s.range(0, 4)};
            if (c.s.chance(15)) ix[0] = c.s.pick(std::vector<int>{255, 256, 257, 258, 512, 1000, 65536, 65537, 1 << 24, 2147483647});
            t = strf("%d", ix[0]);
        } else if (k == 1) {
            int n = c.s.chance(10) ? c.s.range(5, 20) : c.s.range(2, 4);
            for (int i = 0; i < n; i++) {
                ix.push_back(c.s.range(0, n > 4 ? 20 : 5));
                if (c.s.chance(4)) ix.back() = c.s.pick(std::vector<int>{255, 256, 257, 512, 65536, 2147483647});
                t += strf(i ? ", %d" : "%d", ix[i]);
            }
        } else {
            int from = c.s.range(0, 3), to = c.s.range(from, 5), step = k == 2 ? 1 : c.s.range(1, 3);
            if (from == to) to++;
            for (int i = from; i <= to; i += step) ix.push_back(i);
            t = k == 2 ? strf("%d : %d", from, to) : strf("%d : %d : %d", from, step, to);
        }
        (void)calc;
        return {a + "[[" + t + "]] = " + v.text, [=](Store &s) {
                    VList o = s.get(a), d = v.run(s).v;
                    put(o, ix, d);
                    s.set(a, o);
                    return Val(o);
                }};
    }
    case 4: { // delete
        std::string b = any(c);
        bool two = c.s.chance(30);
        return {two ? "delete(" + a + ", " + b + ")" : "delete(" + a + ")", [=](Store &s) {
                    for (size_t i = 0; i < s.m.size();)
                        if (s.m[i].addr == a || (two && s.m[i].addr == b)) s.m.erase(s.m.begin() + i);
                        else i++;
                    return none();
                }};
    }
    case 5: { // a value read through an address
        std::string p = any(c);
        return {a + " = value(" + p + ")", [=](Store &s) {
                    VList t = s.get(p);
                    if (t.empty() || t[0].tt != 's') throw Discard{};
                    VList *v = s.find(t[0].s);
                    if (!v) throw Discard{};
                    VList x = *v;
                    s.set(a, x);
                    return Val(x);
                }};
    }
    case 6: { // member of a bundle
        std::string b = any(c), m = any(c);
        return {a + " = " + b + "." + m, [=](Store &s) {
                    MBundle nb = (*member(s, b))[0].b;
                    Store n{nb};
                    VList x = n.get(m);
                    s.set(a, x);
                    return Val(x);
                }};
    }
    case 7: { // assignment to a member
        std::string m = any(c);
        Expr v = gen_value(c, 0);
        return {a + "." + m + " = " + v.text, [=](Store &s) {
                    VList *o = s.find(a);
                    VList l = o ? *o : VList{mk_bndl({})};
                    if (l.empty() || l[0].tt != '.') throw Discard{};
                    VList x = v.run(s).v;
                    Store n{l[0].b};
                    n.set(m, x);
                    l[0] = mk_bndl(n.m);
                    s.set(a, l);
                    return Val(l);
                }};
    }
    case 8: { // only when there is no value yet
        Expr v = gen_value(c, 0);
        return {a + " ?" "?= " + v.text, [=](Store &s) {
                    VList *o = s.find(a);
                    int same = 0;
                    for (auto &m : s.m) same += m.addr == a;
                    if (same > 1 && o->empty()) throw Discard{}; // which of them counts is not said
                    VList x = o && !o->empty() ? *o : v.run(s).v;
                    s.set(a, x);
                    return Val(x);
                }};
    }
    default: {
        uint32_t sec = c.s.u64(), fr = c.s.u64();
        (void)sec, (void)fr;
        return {"settimetag(/time)", [=](Store &s) {
                    VList v = s.get("/time");
                    s.tt = (uint64_t)v[0].sec << 32 | v[0].frac;
                    return none();
                }};
    }
    }
}

static void t_program(Ctx &c) {
    // a bundle with messages of every type, some addresses twice
    Store s;
    s.tt = c.s.u64();
    bool tiny = c.s.chance(12);
    int n = c.s.range(0, tiny ? 2 : 7);
    GenOpt o;
    o.depth = 1;
    o.max_args = 4;
    for (int i = 0; i < n; i++) {
        MMsg m;
        m.addr = any(c);
        switch (c.s.weighted({5, 2, 2, 2})) {
        case 0: m.args = ex::gen_list(c, "iidfhcuIHCU", 1, 5, false); break;
        case 1: m.args = {mk_s(any(c))}; break;
        case 2: {
            MBundle b;
            int k = c.s.range(0, 3);
            for (int j = 0; j < k; j++) b.push_back({any(c), ex::gen_list(c, "idf", 0, 3, false)});
            m.args = {mk_bndl(b)};
            if (c.s.chance(30)) m.args.push_back(mk_i(5));
            break;
        }
        default: m.args = gen_msg(c, o, 0).args;
        }
        if (tiny && c.s.chance(70)) m.args.resize(c.s.chance(70) && !m.args.empty());
        if (c.s.chance(85) && s.find(m.addr)) continue;
        s.m.push_back(m);
    }
    if (!tiny && c.s.chance(70)) s.m.insert(s.m.begin() + c.s.below(s.m.size() + 1), {"/time", {mk_t(c.s.u64(), c.s.u64())}});
    std::string in = enc_bundle(s.m, s.tt);
    int k = c.s.range(1, 5);
    std::string text;
    std::vector<Expr> prog;
    for (int i = 0; i < k; i++) {
        prog.push_back(gen_stmt(c, c.s.range(0, 2)));
        text += (i ? ", " : "") + prog[i].text;
    }
    c.note(dump(s.m) + "\n" + text);
    Val last;
    bool err = false;
    int ran = 0;
    MBundle before = s.m;
    try {
        for (auto &e : prog) {
            ran++;
            last = e.run(s);
        }
    } catch (ex::Err &) {
        err = true;
    }
    c.note(std::string("want ") + (err ? "an error" : last.none ? "no value" : ex::dump(last.v)) + " and\n" + dump(s.m));
    ex::Run r = ex::run(text, in);
    CHECK(c, r.parsed, "`%s` is not accepted", text.c_str());
    CHECK(c, (r.err != 0) == err && r.n == ran, "`%s` on\n%s\ngives %s in expression %d of %d; want %s in %d", text.c_str(), dump(before).c_str(), r.err ? strf("error %x", r.err).c_str() : "no error", r.n, k, err ? "an error" : "none", ran);
    std::string want = enc_bundle(s.m, s.tt);
    if (r.bndl != want) {
        MBundle got = must_decode(c, "bundle afterwards", r.bndl.data(), r.bndl.size());
        c.fail("`%s` on\n%s\nleaves\n%s\nwant\n%s%s", text.c_str(), dump(before).c_str(), dump(got).c_str(), dump(s.m).c_str(), dump(got) == dump(s.m) ? " (other bytes)" : "");
    }
    if (!err && !last.none) CHECK(c, ex::same(r.out, last.v), "the value of `%s` on\n%s\nis %s; want %s", text.c_str(), dump(before).c_str(), ex::dump(r.out).c_str(), ex::dump(last.v).c_str());
    c.nontrivial = ran >= 2 && before.size() >= 2 && want != in;
    if (err) c.label("error");
}

// eval() runs the text of a program as the program itself
static void t_eval(Ctx &c) {
    Store s;
    s.m = {{"/a", {mk_i(c.s.range(0, 9)), mk_i(3)}}, {"/a/b", {mk_d(2.5)}}, {"/b", {mk_i(1)}}};
    std::string in = enc_bundle(s.m, 9);
    int k = c.s.range(1, 3);
    std::string text;
    bool err = false;
    std::vector<Expr> prog;
    for (int i = 0; i < k; i++) {
        Expr e;
        do {
            e = gen_stmt(c, 0);
        } while (e.text.find_first_of("\"\\'") != std::string::npos);
        prog.push_back(e);
        text += (i ? ", " : "") + e.text;
    }
    s.tt = 9;
    try {
        for (auto &e : prog) e.run(s);
    } catch (ex::Err &) {
        err = true;
    }
    bool quote = c.s.chance(30);
    std::string prog2 = quote ? "eval(quote(" + text + "))" : "eval(\"" + text + "\")";
    c.note(prog2);
    ex::Run r = ex::run(prog2, in);
    CHECK(c, r.parsed && !r.err, "`%s` fails", prog2.c_str());
    CHECK(c, r.out.size() == 1 && r.out[0].tt == 'i' && (r.out[0].i != 0) == err, "`%s` gives %s; want %s", prog2.c_str(), ex::dump(r.out).c_str(), err ? "an error number" : "[i:0]");
    if (r.bndl != enc_bundle(s.m, s.tt)) {
        MBundle got = must_decode(c, "bundle afterwards", r.bndl.data(), r.bndl.size());
        c.fail("`%s` leaves\n%s\nwant\n%s", prog2.c_str(), dump(got).c_str(), dump(s.m).c_str());
    }
    c.nontrivial = true;
}

namespace pt {
Property property = {"P30",
                     "a program of two or more statements that changes a bundle of two or more messages",
                     {{"program", 8, t_program}, {"eval", 1, t_eval}},
                     {"quote() is only given balanced parentheses outside of literals", "addresses that are read contain no pattern characters", "sub-bundles have time tag 0"},
                     240000,
                     4000000};
}
