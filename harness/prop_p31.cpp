// P31: lambda, apply, map, lreduce, rreduce against a substitution-free evaluator with environments
// uses: expr.cpp
#include "expr.hpp"
#include <functional>
#include <map>
#include <memory>
using namespace pt;
using ex::VList;

struct Store {
    MBundle m;
    VList get(const std::string &a) {
        for (auto &x : m)
            if (x.addr == a) return x.args;
        throw ex::Err{};
    }
    void set(const std::string &a, const VList &l) {
        for (auto &x : m)
            if (x.addr == a) {
                x.args = l;
                return;
            }
        m.push_back({a, l});
    }
};
struct Env;
using Fn = std::function<VList(Env &, Store &, const std::vector<VList> &)>; // called where its name is looked up
struct Env {
    std::map<std::string, VList> val;
    std::map<std::string, Fn> fn;
    long budget = 0;
};
using Run = std::function<VList(Env &, Store &)>;
struct Term {
    std::string text;
    Run run;
    bool bare; // a literal, name or address: not an expression by itself
};
struct FTerm {
    std::string text;
    Fn call;
    bool infix = false;
};
struct Scope {
    std::map<std::string, int> kind; // 0: a value; n + 1: a function of n arguments
    int depth;
    bool effects;
};

static const std::vector<std::string> NAMES = {"x", "y", "z", "acc", "v1", "v2", "w", "elem", "p7", "p8"};
static const std::vector<std::string> OUT = {"/o", "/p", "/o/q"};
static const std::vector<std::string> IN = {"/a", "/b", "/a/b", "/none"};

static void tick(Env &e) {
    if (++e.budget > 3000) throw Discard{};
}
static void numeric(const VList &l) {
    if (l.empty()) throw Discard{};
    for (auto &a : l)
        if (a.tt != 'i' && a.tt != 'd') throw Discard{};
}
static Term gen(Ctx &c, Scope s);
static VList arith(char op, const VList &a, const VList &b) {
    numeric(a), numeric(b);
    if (op == '+') return ex::zip(ex::add, a, b);
    if (op == '-') return ex::zip(ex::sub, a, b);
    return ex::zip(ex::mul, a, b);
}
static VList bounded(VList v) {
    if (v.size() > 400) throw Discard{};
    for (auto &a : v)
        if (a.tt == 'd' && !(fabs(a.d) < 1e9)) throw Discard{};
        else if (a.tt == 'i' && (a.i > 30000 || a.i < -30000)) throw Discard{};
    return v;
}

static FTerm gen_lambda(Ctx &c, Scope s, int n, bool closed) {
    std::vector<std::string> ps;
    std::vector<std::string> left = NAMES;
    while ((int)ps.size() < n) {
        size_t i = c.s.below(left.size());
        ps.push_back(left[i]);
        left.erase(left.begin() + i);
    }
    Scope in = s;
    if (closed) in.kind.clear();
    for (auto &p : ps) in.kind[p] = 0;
    in.depth--;
    int nb = c.s.weighted({6, 2, 1}) + 1;
    std::string text = "lambda(";
    if (n == 1 && c.s.chance(50)) text += ps[0];
    else {
        text += "[";
        for (size_t i = 0; i < ps.size(); i++) text += (i ? ", " : "") + ps[i];
        text += "]";
    }
    std::vector<Term> body;
    for (int i = 0; i < nb; i++) {
        if (i + 1 < nb && s.effects && c.s.chance(60)) {
            std::string a = c.s.pick(OUT);
            bool ptr = c.s.chance(20); // through the address that another address holds
            if (ptr) a = "/o";
            Term v = gen(c, in);
            Run r = v.run;
            body.push_back({ptr ? "assign(value(/ptr), " + v.text + ")" : a + " = " + v.text, [=](Env &e, Store &st) {
                                VList x = r(e, st);
                                st.set(a, x);
                                return x;
                            },
                            false});
        } else body.push_back(gen(c, in));
        text += ", " + body.back().text;
    }
    text += ")";
    return {text, [=](Env &e, Store &st, const std::vector<VList> &args) {
                tick(e);
                Env n2 = e;
                for (size_t i = 0; i < ps.size(); i++) {
                    n2.val[ps[i]] = args[i];
                    n2.fn.erase(ps[i]);
                }
                VList r;
                for (auto &b : body) r = b.run(n2, st);
                e.budget = n2.budget;
                return bounded(r);
            }};
}
// something to apply to n values
static FTerm gen_fn(Ctx &c, const Scope &s, int n) {
    std::vector<std::string> mine;
    for (auto &k : s.kind)
        if (k.second == n + 1) mine.push_back(k.first);
    switch (c.s.weighted({n ? 5u : 0u, n == 2 ? 3u : 0u, mine.size() ? 6u : 0u, n <= 2 ? 1u : 0u, n ? 1u : 0u})) {
    case 4: // a function of any number of arguments
        return {"\"list\"", [](Env &e, Store &, const std::vector<VList> &a) {
                    tick(e);
                    VList r;
                    for (auto &l : a) r.insert(r.end(), l.begin(), l.end());
                    return bounded(r);
                }};
    case 1: {
        char op = c.s.pickc("+-*");
        std::string t = strf("\"%c\"", op);
        if (c.s.chance(50)) t = op == '+' ? "add" : op == '-' ? "sub" : "mul";
        return {t, [op](Env &e, Store &, const std::vector<VList> &a) {
                    tick(e);
                    return bounded(arith(op, a[0], a[1]));
                }};
    }
    case 2: {
        std::string nm = c.s.pick(mine);
        return {nm, [nm](Env &e, Store &st, const std::vector<VList> &a) {
                    Fn f = e.fn.at(nm);
                    return f(e, st, a);
                }};
    }
    case 3: { // the text of a function
        if (n == 1 && c.s.chance(20)) return {"/ff", [](Env &e, Store &st, const std::vector<VList> &) -> VList { // its value would be a function
                                tick(e);
                                st.get("/ff");
                                throw ex::Err{};
                            }};
        if (n == 1 && c.s.chance(30)) return {"/f3", [](Env &e, Store &st, const std::vector<VList> &a) {
                                tick(e);
                                st.get("/f3");
                                return bounded(arith('+', arith('-', a[0], {mk_i(1)}), arith('*', a[0], {mk_i(2)})));
                            }};
        if (n == 1) return {"/f1", [](Env &e, Store &st, const std::vector<VList> &a) {
                                tick(e);
                                st.get("/f1");
                                return bounded(arith('*', a[0], {mk_i(3)}));
                            }};
        if (n == 2) return {"/f2", [](Env &e, Store &st, const std::vector<VList> &a) {
                                tick(e);
                                st.get("/f2");
                                return bounded(arith('-', a[1], a[0]));
                            }};
        return {"/f0", [](Env &e, Store &st, const std::vector<VList> &) {
                    tick(e);
                    st.get("/f0");
                    return VList{mk_i(7)};
                }};
    }
    }
    return gen_lambda(c, s, n, false);
}
static Term literal(Ctx &c) {
    VList l;
    int n = c.s.chance(50) ? 1 : c.s.range(1, 4);
    for (int i = 0; i < n; i++)
        switch (c.s.weighted({40, 12, 1, 1})) {
        case 0: l.push_back(mk_i(c.s.range(0, 9))); break;
        case 1: l.push_back(mk_d(c.s.range(0, 40) / 4.)); break;
        case 2: l.push_back(mk_s(c.s.pick(std::vector<std::string>{"str", "", "xy", "some text"}))); break;
        default: l.push_back(mk(c.s.chance(50) ? 'T' : 'F')); break;
        }
    std::string t;
    for (auto &a : l) t += (t.empty() ? "" : ", ") + ex::lit(a);
    if (n > 1) t = "[" + t + "]";
    return {t, [l](Env &, Store &) { return l; }, n == 1};
}
static Term gen(Ctx &c, Scope s) {
    if (c.s.chance(3)) return {"[]", [](Env &, Store &) { return VList{}; }, true};
    if (s.depth > 0 && c.s.chance(3)) {
        Scope in = s;
        in.depth--;
        Term a = gen(c, in);
        return {"length(" + a.text + ")", [a](Env &e, Store &st) { return VList{mk_i((int)a.run(e, st).size())}; }, false};
    }
    std::vector<std::string> vars;
    for (auto &k : s.kind)
        if (k.second == 0) vars.push_back(k.first);
    int deep = s.depth > 0;
    Scope in = s;
    in.depth--;
    switch (c.s.weighted({2, vars.size() ? 6u : 0u, 2, deep ? 5u : 0u, deep ? 2u : 0u, deep ? 3u : 0u, deep ? 8u : 0u, deep ? 5u : 0u, deep ? 5u : 0u, deep ? 4u : 0u})) {
    case 0: return literal(c);
    case 1: {
        std::string v = c.s.pick(vars);
        return {v, [v](Env &e, Store &) { return e.val.at(v); }, true};
    }
    case 2: {
        std::string a = c.s.chance(70) ? c.s.pick(IN) : c.s.pick(OUT);
        if ((a == "/none" || a == "/a/b" || a[1] == 'o' || a[1] == 'p') && !c.s.chance(20)) a = "/a";
        return {a, [a](Env &, Store &st) { return st.get(a); }, true};
    }
    case 3: {
        char op = c.s.pickc("+-*");
        Term a = gen(c, in), b = gen(c, in);
        return {std::string(a.bare ? a.text : "(" + a.text + ")") + " " + op + " " + (b.bare ? b.text : "(" + b.text + ")"), [=](Env &e, Store &st) {
                    VList x = a.run(e, st), y = b.run(e, st);
                    return bounded(arith(op, x, y));
                },
                false};
    }
    case 4: {
        Term a = gen(c, in), b = gen(c, in);
        return {"list(" + a.text + ", " + b.text + ")", [=](Env &e, Store &st) {
                    VList x = a.run(e, st), y = b.run(e, st);
                    x.insert(x.end(), y.begin(), y.end());
                    return bounded(x);
                },
                false};
    }
    case 5: {
        Term q = gen(c, in), a = gen(c, in), b = gen(c, in);
        return {"if(" + (q.bare ? q.text : "(" + q.text + ")") + " < 5, " + a.text + ", " + b.text + ")", [=](Env &e, Store &st) {
                    VList x = q.run(e, st);
                    numeric(x);
                    return ex::num(x[0]) < 5 ? a.run(e, st) : b.run(e, st);
                },
                false};
    }
    case 6: { // apply in its spellings
        int n = c.s.weighted({1, 5, 4, 2, 1});
        if (n == 4) n = c.s.range(4, 8);
        FTerm f = gen_fn(c, in, n);
        std::vector<Term> args;
        std::string t;
        for (int i = 0; i < n; i++) {
            args.push_back(gen(c, in));
            t += ", " + args[i].text;
        }
        std::string text = "apply(" + f.text + t + ")";
        if (f.text.substr(0, 6) == "lambda" && n && c.s.chance(40)) text = "(" + f.text + t + ")";
        if (f.text[0] == '/' && (!n || c.s.chance(60))) text = f.text + "(" + (n ? t.substr(2) : "") + ")";
        return {text, [=](Env &e, Store &st) {
                    if (f.text[0] == '/') st.get(f.text);
                    std::vector<VList> v;
                    for (auto &a : args) v.push_back(a.run(e, st));
                    return f.call(e, st, v);
                },
                false};
    }
    case 7: { // map
        int n = c.s.weighted({0, 20, 12, 4, 1});
        if (n == 4) n = c.s.range(4, 8);
        FTerm f = gen_fn(c, in, n);
        std::vector<Term> args;
        std::string t;
        for (int i = 0; i < n; i++) {
            args.push_back(gen(c, in));
            t += ", " + args[i].text;
        }
        return {"map(" + f.text + t + ")", [=](Env &e, Store &st) {
                    std::vector<VList> v;
                    size_t m = ~0;
                    for (auto &a : args) {
                        v.push_back(a.run(e, st));
                        m = std::min(m, v.back().size());
                    }
                    VList out;
                    for (size_t i = 0; i < m; i++) {
                        std::vector<VList> one;
                        for (auto &l : v) one.push_back({l[i]});
                        VList r = f.call(e, st, one);
                        out.insert(out.end(), r.begin(), r.end());
                    }
                    return bounded(out);
                },
                false};
    }
    case 8: { // reductions
        bool left = c.s.chance(50), start = c.s.chance(40);
        FTerm f = gen_fn(c, in, 2);
        Term l = gen(c, in), st0 = start ? gen(c, in) : l;
        return {std::string(left ? "lreduce(" : "rreduce(") + f.text + ", " + l.text + (start ? ", " + st0.text : "") + ")", [=](Env &e, Store &st) {
                    VList x = l.run(e, st), acc;
                    if (!left) std::reverse(x.begin(), x.end());
                    size_t i = 0;
                    if (start) {
                        acc = st0.run(e, st);
                        if (acc.empty()) throw ex::Err{};
                    } else {
                        if (x.empty()) throw ex::Err{};
                        acc = {x[0]};
                        i = 1;
                    }
                    for (; i < x.size(); i++) {
                        if (acc.size() != 1) throw Discard{}; // only single values are carried
                        acc = left ? f.call(e, st, {acc, {x[i]}}) : f.call(e, st, {{x[i]}, acc});
                        if (acc.empty()) throw ex::Err{};
                    }
                    return acc;
                },
                false};
    }
    default: { // a function handed to a function
        int n = c.s.range(1, 2);
        FTerm g = gen_lambda(c, in, n, true);
        std::string fname = c.s.pick(std::vector<std::string>{"f", "g", "h", "x", "y"});
        Scope body = in;
        body.kind[fname] = n + 1;
        body.depth = std::max(1, in.depth);
        Term b = gen(c, body);
        bool again = c.s.chance(50); // used a second time
        Term b2 = again ? gen(c, body) : b;
        return {"apply(lambda([" + fname + "], " + b.text + (again ? ", " + b2.text : "") + "), " + g.text + ")", [=](Env &e, Store &st) {
                    tick(e);
                    Env n2 = e;
                    n2.val.erase(fname);
                    n2.fn[fname] = g.call;
                    VList r = b.run(n2, st);
                    if (again) r = b2.run(n2, st);
                    e.budget = n2.budget;
                    return r;
                },
                false};
    }
    }
}

static void t_term(Ctx &c) {
    Store s;
    auto num = [&](int n) {
        VList l;
        for (int i = 0; i < n; i++) l.push_back(c.s.chance(70) ? mk_i(c.s.range(0, 9)) : mk_d(c.s.range(0, 20) / 2.));
        return l;
    };
    s.m = {{"/a", num(c.s.count(1, 4, 4))}, {"/b", num(c.s.count(0, 5, 4))}, {"/a/b", {mk_i(c.s.range(0, 9)), mk_s("text")}}};
    s.m.push_back({"/ptr", {mk_s("/o")}});
    if (c.s.chance(90)) {
        s.m.push_back({"/f1", {mk_s("lambda([x], x * 3)")}});
        s.m.push_back({"/f2", {mk_s("lambda([x, y], y - x)")}});
        s.m.push_back({"/f0", {mk_s("lambda([], 7)")}});
        s.m.push_back({"/f3", {mk_s("lambda([x], apply(lambda([y], y - 1 + (x * 2)), x))")}});
        s.m.push_back({"/ff", {mk_s("lambda([x], lambda([y], y))")}});
    }
    Scope sc;
    sc.depth = c.s.range(2, 4);
    sc.effects = c.s.chance(40);
    Term t = gen(c, sc);
    if (t.text.size() > 600) throw Discard{};
    std::string text = t.bare ? "progn(" + t.text + ")" : t.text;
    if (c.s.chance(20)) {
        text = "/r = " + t.text;
        Run r = t.run;
        t.run = [r](Env &e, Store &st) {
            VList v = r(e, st);
            st.set("/r", v);
            return v;
        };
    }
    std::string in = enc_bundle(s.m, 1);
    MBundle before = s.m;
    c.note(text);
    VList want;
    bool err = false;
    Env e;
    try {
        want = t.run(e, s);
    } catch (ex::Err &) {
        err = true;
    }
    ex::Run r = ex::run(text, in);
    CHECK(c, r.parsed, "`%s` is not accepted", text.c_str());
    CHECK(c, (r.err != 0) == err, "`%s` on\n%s\ngives %s; want %s", text.c_str(), dump(before).c_str(), r.err ? strf("error %x", r.err).c_str() : ex::dump(r.out).c_str(), err ? "an error" : ex::dump(want).c_str());
    if (!err) CHECK(c, ex::same(r.out, want), "`%s` on\n%s\nis %s; want %s", text.c_str(), dump(before).c_str(), ex::dump(r.out).c_str(), ex::dump(want).c_str());
    if (r.bndl != enc_bundle(s.m, 1)) {
        MBundle got = must_decode(c, "bundle afterwards", r.bndl.data(), r.bndl.size());
        c.fail("`%s` on\n%s\nleaves\n%s\nwant\n%s", text.c_str(), dump(before).c_str(), dump(got).c_str(), dump(s.m).c_str());
    }
    c.nontrivial = !err && e.budget >= 2;
    if (err) c.label("error");
}

namespace pt {
Property property = {"P31",
                     "two or more applications of a function, without an error",
                     {{"term", 1, t_term}},
                     {"string values differ from every parameter name", "a function handed on as a value has no free names", "reductions carry single values", "functions get as many arguments as they have parameters"},
                     100000,
                     3000000};
}
