// P29: precedence and associativity
// uses: expr.cpp
#include "expr.hpp"
#include <set>
using namespace pt;
using ex::VList;

// The operator table, low to high:
//   1 = += -= *= /= %= ^=   right     2 ?:  right      3 | ||  left     4 & &&  left    5 == !=  left
//   6 < > <= >=  left       7 + -  left                8 * / %  left    9 ^  left
//   10 - ! (prefix), ?? ??= (an address on the left)  right             11 ++ -- [[ ]]
struct Op {
    const char *sym, *fn;
    int level;
};
static const Op BIN[] = {{"|", "or", 3},  {"||", "orelse", 3}, {"&", "and", 4}, {"&&", "andalso", 4}, {"==", "eq", 5}, {"!=", "ne", 5}, {"<", "lt", 6}, {">", "gt", 6},
                         {"<=", "le", 6}, {">=", "ge", 6},     {"+", "add", 7}, {"-", "sub", 7},      {"*", "mul", 8}, {"/", "div", 8}, {"%", "mod", 8}, {"^", "pow", 9}};
static const Op ASG[] = {{"=", "", 1}, {"+=", "add", 1}, {"-=", "sub", 1}, {"*=", "mul", 1}, {"/=", "div", 1}, {"%=", "mod", 1}, {"^=", "pow", 1}};

struct T {
    enum K { LIT, ADDR, LIST, CALL, BIN, ASG, TERN, NEG, NOT, COAL, COALEQ, PREINC, PREDEC, POSTINC, POSTDEC, NTH } k = LIT;
    const Op *op = nullptr;
    std::string text; // literal text, address, or function name
    VList val;        // literal
    std::vector<T> kids;
    int level() const {
        switch (k) {
        case BIN: case ASG: return op->level;
        case TERN: return 2;
        case NEG: case NOT: case COAL: case COALEQ: return 10;
        default: return 11;
        }
    }
};

static const char *ADDRS[] = {"/a", "/b", "/c/d", "/x"};

static T leaf(Ctx &c, bool boolean) {
    T t;
    if (boolean) {
        t.text = c.s.chance(50) ? "true" : "false";
        t.val = {mk(t.text == "true" ? 'T' : 'F')};
        return t;
    }
    switch (c.s.weighted({5, 4, 2})) {
    case 0:
        do {
            char ty = c.s.pickc("iiiidHIc");
            t.val = {ty == 'i' ? mk_i(c.s.range(0, 9)) : ex::gen_num(c, (const char[]){ty, 0}, false)};
            t.text = ex::lit(t.val[0]);
        } while (t.text.empty());
        break;
    case 1: t.k = T::ADDR; t.text = ADDRS[c.s.below(4)]; break;
    default: {
        t.k = T::LIST;
        int n = c.s.range(1, 3);
        for (int i = 0; i < n; i++) t.kids.push_back(leaf(c, false));
        break;
    }
    }
    return t;
}
static T tree(Ctx &c, int depth, bool boolean) {
    if (depth <= 0 || c.s.chance(12)) return leaf(c, boolean);
    T t;
    auto kid = [&](bool b = false) { t.kids.push_back(tree(c, depth - 1, b)); };
    int k = boolean ? c.s.weighted({3, 5, 4, 1}) : 4 + c.s.weighted({14, 2, 2, 3, 1, 1, 1, 2, 2, 2, 2});
    switch (k) {
    case 0: // logic
        t.k = T::BIN;
        t.op = &BIN[c.s.below(4)];
        kid(true), kid(true);
        break;
    case 1: // comparison
        t.k = T::BIN;
        t.op = &BIN[4 + c.s.below(6)];
        kid(), kid();
        break;
    case 2: t.k = T::NOT; kid(true); break;
    case 3: t.k = T::TERN; kid(true), kid(true), kid(true); break;
    case 4: // any binary operator, mostly arithmetic
        t.k = T::BIN;
        t.op = &BIN[c.s.chance(85) ? 10 + c.s.below(6) : c.s.below(16)];
        kid(), kid();
        break;
    case 5: t.k = T::NEG; kid(); break;
    case 6: t.k = T::TERN; kid(c.s.chance(70)), kid(), kid(); break;
    case 7:
        t.k = T::ASG;
        t.op = &ASG[c.s.chance(50) ? 0 : c.s.below(7)];
        t.text = ADDRS[c.s.below(4)];
        kid();
        break;
    case 8: t.k = T::COAL; t.text = c.s.chance(60) ? "/none" : ADDRS[c.s.below(4)]; kid(); break;
    case 9: t.k = T::COALEQ; t.text = c.s.chance(60) ? "/new" : ADDRS[c.s.below(4)]; kid(); break;
    case 10: t.k = c.s.chance(50) ? T::PREINC : T::PREDEC; t.text = ADDRS[c.s.below(4)]; break;
    case 11: t.k = c.s.chance(50) ? T::POSTINC : T::POSTDEC; t.text = ADDRS[c.s.below(4)]; break;
    case 12: {
        t.k = T::NTH;
        kid();
        T z;
        z.val = {mk_i(c.s.chance(85) ? 0 : 1)};
        z.text = ex::lit(z.val[0]);
        t.kids.push_back(z);
        break;
    }
    case 13: t.k = T::CALL; t.text = c.s.pick(std::vector<const char *>{"abs", "sum", "length", "reverse", "identity"}); kid(); break;
    default: t.k = T::NOT; kid(); break;
    }
    return t;
}

// ---- printing
enum Style { MIN, FULL, FN };
typedef std::vector<std::string> Toks;
static void print(const T &t, Style st, Toks &o);
static void child(const T &t, Style st, Toks &o, bool paren) {
    bool op = t.k != T::LIT && t.k != T::ADDR && t.k != T::LIST && t.k != T::CALL;
    if (st == FULL) paren = op;
    if (st == FN) paren = false;
    if (paren) o.push_back("(");
    print(t, st, o);
    if (paren) o.push_back(")");
}
static void call(const std::string &f, const std::vector<const T *> &a, Toks &o) {
    o.push_back(f);
    o.push_back("(");
    for (size_t i = 0; i < a.size(); i++) {
        if (i) o.push_back(",");
        print(*a[i], FN, o);
    }
    o.push_back(")");
}
static T addr(const std::string &a) {
    T t;
    t.k = T::ADDR;
    t.text = a;
    return t;
}
static T fcall(const std::string &f, std::vector<T> kids) {
    T t;
    t.k = T::CALL;
    t.text = f;
    t.kids = kids;
    return t;
}
static void print(const T &t, Style st, Toks &o) {
    switch (t.k) {
    case T::LIT: case T::ADDR: o.push_back(t.text); return;
    case T::LIST:
        if (st == FN) {
            std::vector<const T *> a;
            for (auto &k : t.kids) a.push_back(&k);
            return call("list", a, o);
        }
        o.push_back("[");
        for (size_t i = 0; i < t.kids.size(); i++) {
            if (i) o.push_back(",");
            print(t.kids[i], st, o);
        }
        o.push_back("]");
        return;
    case T::CALL: {
        o.push_back(t.text);
        o.push_back("(");
        for (size_t i = 0; i < t.kids.size(); i++) {
            if (i) o.push_back(",");
            print(t.kids[i], st, o);
        }
        o.push_back(")");
        return;
    }
    case T::BIN:
        if (st == FN) return call(t.op->fn, {&t.kids[0], &t.kids[1]}, o);
        child(t.kids[0], st, o, t.kids[0].level() < t.op->level);
        o.push_back(t.op->sym);
        child(t.kids[1], st, o, t.kids[1].level() <= t.op->level);
        return;
    case T::ASG: {
        T a = addr(t.text);
        if (st == FN) {
            if (t.op == ASG) return call("assign", {&a, &t.kids[0]}, o);
            T v = fcall(t.op->fn, {a, t.kids[0]});
            return call("assign", {&a, &v}, o);
        }
        o.push_back(t.text);
        o.push_back(t.op->sym);
        child(t.kids[0], st, o, false);
        return;
    }
    case T::TERN:
        if (st == FN) return call("if", {&t.kids[0], &t.kids[1], &t.kids[2]}, o);
        child(t.kids[0], st, o, t.kids[0].level() <= 2);
        o.push_back("?");
        child(t.kids[1], st, o, false);
        o.push_back(":");
        child(t.kids[2], st, o, t.kids[2].level() < 2);
        return;
    case T::NEG: {
        if (st == FN) {
            T z;
            z.text = "0";
            return call("sub", {&z, &t.kids[0]}, o);
        }
        o.push_back("-");
        child(t.kids[0], st, o, t.kids[0].level() < 10);
        return;
    }
    case T::NOT:
        if (st == FN) return call("not", {&t.kids[0]}, o);
        o.push_back("!");
        child(t.kids[0], st, o, t.kids[0].level() < 10);
        return;
    case T::COAL: case T::COALEQ: {
        T a = addr(t.text), b = fcall("bound", {a}), v = fcall("if", {b, a, t.kids[0]});
        if (st == FN) return t.k == T::COAL ? print(v, FN, o) : call("assign", {&a, &v}, o);
        o.push_back(t.text);
        o.push_back(t.k == T::COAL ? "??" : "?" "?=");
        child(t.kids[0], st, o, t.kids[0].level() < 10);
        return;
    }
    case T::PREINC: case T::PREDEC: case T::POSTINC: case T::POSTDEC: {
        bool inc = t.k == T::PREINC || t.k == T::POSTINC, pre = t.k == T::PREINC || t.k == T::PREDEC;
        T a = addr(t.text), s = fcall("assign", {a, fcall(inc ? "plus1" : "minus1", {a})});
        if (st == FN) return pre ? print(s, FN, o) : call("prog1", {&a, &s}, o);
        if (pre) o.push_back(inc ? "++" : "--");
        o.push_back(t.text);
        if (!pre) o.push_back(inc ? "++" : "--");
        return;
    }
    case T::NTH:
        if (st == FN) return call("nth", {&t.kids[0], &t.kids[1]}, o);
        child(t.kids[0], st, o, t.kids[0].level() < 11);
        o.push_back("[[");
        print(t.kids[1], st, o);
        o.push_back("]]");
        return;
    }
}
// put the tokens together, with white space where two would run into one and anywhere else at random
static std::string join(Ctx &c, const Toks &o, int loose) {
    const char *ops = "+-*/%^=<>&|!?:[]";
    std::string s;
    for (auto &t : o) {
        bool need = false;
        if (!s.empty()) {
            char a = s.back(), b = t[0];
            bool oa = strchr(ops, a), ob = strchr(ops, b);
            need = (oa && ob) || (!oa && b == '/') || (a == '/' && !ob) || ((isalnum((unsigned char)a) || a == '.' || a == '\'') && (isalnum((unsigned char)b) || b == '.' || b == '\''));
        }
        if (need || c.s.chance(loose)) s += c.s.chance(90) ? " " : c.s.chance(50) ? "\n\t" : " # not this: + 1)\n";
        s += t;
    }
    return s;
}

// ---- reference evaluation
struct Unsure {};
struct Store {
    MBundle m;
    VList *find(const std::string &a) {
        for (auto &x : m)
            if (x.addr == a) return &x.args;
        return nullptr;
    }
    VList get(const std::string &a) {
        VList *v = find(a);
        if (!v) throw ex::Err{};
        return *v;
    }
    void set(const std::string &a, const VList &l) {
        if (VList *v = find(a)) *v = l;
        else m.push_back({a, l});
    }
};
static bool truth(const MAtom &a) {
    if (a.tt == 'T') return true;
    if (ex::isflt(a.tt)) return ex::num(a) != 0;
    if (ex::isint(a.tt)) return a.i != 0;
    return false;
}
static VList apply(const std::string &f, const VList &a, const VList &b) {
    if (a.empty() || b.empty()) throw Unsure{};
    for (auto *l : {&a, &b})
        for (auto &x : *l)
            if (!ex::isnum(x.tt) || (f == "mod" && x.tt == 'H' && x.i < 0)) throw Unsure{};
    if (f == "add") return ex::zip(ex::add, a, b);
    if (f == "sub") return ex::zip(ex::sub, a, b);
    if (f == "mul") return ex::zip(ex::mul, a, b);
    if (f == "div") return ex::zip(ex::div, a, b);
    if (f == "mod") // rounded as the code does: P27 decides the value itself
        return ex::zip([](const MAtom &x, const MAtom &y) {
            if (!ex::isflt(x.tt) && !ex::isflt(y.tt)) return ex::mod(x, y);
            double p = ex::num(x), q = ex::num(y);
            return q == 0 ? x : mk_d(p - fabs(q) * floor(p / fabs(q)));
        }, a, b);
    if (f == "pow") return ex::zip([](const MAtom &x, const MAtom &y) { return mk_d(pow(ex::num(x), ex::num(y))); }, a, b);
    if (f == "and") return ex::zip([](const MAtom &x, const MAtom &y) { return mk(truth(x) && truth(y) ? 'T' : 'F'); }, a, b);
    if (f == "or") return ex::zip([](const MAtom &x, const MAtom &y) { return mk(truth(x) || truth(y) ? 'T' : 'F'); }, a, b);
    VList r;
    size_t n = a.size() == 1 ? b.size() : b.size() == 1 ? a.size() : std::min(a.size(), b.size());
    std::string sym;
    for (auto &o : BIN)
        if (f == o.fn) sym = o.sym;
    for (size_t i = 0; i < n; i++) {
        const MAtom &x = a[a.size() == 1 ? 0 : i], &y = b[b.size() == 1 ? 0 : i];
        if ((ex::isflt(x.tt) && ex::isint(y.tt) && (y.i >> 50)) || (ex::isflt(y.tt) && ex::isint(x.tt) && (x.i >> 50))) throw Unsure{};
        r.push_back(ex::cmp(sym, x, y));
    }
    return r;
}
static VList one_more(const VList &l, int d) {
    VList r;
    for (auto &a : l) {
        if (a.tt == 'd') r.push_back(mk_d(a.d + d));
        else if (a.tt == 'f') r.push_back(mk_f(a.f + d));
        else if (ex::isint(a.tt)) r.push_back(mk(a.tt, ex::trunc_to(a.tt, (int64_t)((uint64_t)a.i + d))));
        else throw Unsure{};
    }
    return r;
}
static VList eval(const T &t, Store &s) {
    switch (t.k) {
    case T::LIT: return t.val;
    case T::ADDR: return s.get(t.text);
    case T::LIST: {
        VList r;
        for (auto &k : t.kids) {
            VList v = eval(k, s);
            r.insert(r.end(), v.begin(), v.end());
        }
        return r;
    }
    case T::CALL: {
        VList v = eval(t.kids[0], s);
        if (t.text == "identity") return v;
        if (t.text == "length") return {mk_i(v.size())};
        if (t.text == "reverse") return VList(v.rbegin(), v.rend());
        throw Unsure{};
    }
    case T::BIN: {
        if (t.op->level <= 4 && strlen(t.op->sym) == 2) {
            VList a = eval(t.kids[0], s);
            if (a.size() != 1) throw Unsure{};
            if (!ex::isbool(a[0].tt)) throw ex::Err{};
            if (a[0].tt == (t.op->sym[0] == '&' ? 'F' : 'T')) return a;
            VList b = eval(t.kids[1], s);
            if (b.size() != 1) throw Unsure{};
            if (!ex::isbool(b[0].tt)) throw ex::Err{};
            return b;
        }
        VList a = eval(t.kids[0], s), b = eval(t.kids[1], s);
        return apply(t.op->fn, a, b);
    }
    case T::ASG: {
        VList v;
        if (t.op != ASG) {
            VList o = s.get(t.text);
            v = apply(t.op->fn, o, eval(t.kids[0], s));
        } else
            v = eval(t.kids[0], s);
        s.set(t.text, v);
        return v;
    }
    case T::TERN: {
        VList q = eval(t.kids[0], s);
        if (q.empty() || !ex::isnum(q[0].tt)) throw Unsure{};
        return eval(t.kids[truth(q[0]) ? 1 : 2], s);
    }
    case T::NEG: {
        VList v = eval(t.kids[0], s);
        return apply("sub", {mk_i(0)}, v);
    }
    case T::NOT: {
        VList v = eval(t.kids[0], s), r;
        for (auto &a : v) {
            if (!ex::isnum(a.tt)) throw Unsure{};
            r.push_back(ex::isbool(a.tt) ? mk(truth(a) ? 'F' : 'T') : mk_i(!truth(a)));
        }
        if (r.empty()) throw Unsure{};
        return r;
    }
    case T::COAL: case T::COALEQ: {
        VList *v = s.find(t.text);
        VList r = v && !v->empty() ? *v : eval(t.kids[0], s);
        if (t.k == T::COALEQ) s.set(t.text, r);
        return r;
    }
    case T::PREINC: case T::PREDEC: {
        VList v = one_more(s.get(t.text), t.k == T::PREINC ? 1 : -1);
        s.set(t.text, v);
        return v;
    }
    case T::POSTINC: case T::POSTDEC: {
        VList o = s.get(t.text);
        s.set(t.text, one_more(o, t.k == T::POSTINC ? 1 : -1));
        return o;
    }
    case T::NTH: {
        VList v = eval(t.kids[0], s);
        size_t i = t.kids[1].val[0].i;
        if (i >= v.size()) throw ex::Err{};
        return {v[i]};
    }
    }
    throw Unsure{};
}
static void levels(const T &t, std::set<int> &l, int &n) {
    if (t.level() < 11 || t.k == T::NTH) l.insert(t.level()), n++;
    for (auto &k : t.kids) levels(k, l, n);
}

static void check_tree(Ctx &c, const T &t) {
    MBundle m = {{"/a", {mk_i(c.s.range(-3, 9))}}, {"/b", {mk_d(c.s.range(-20, 20) / 4.0)}}, {"/c/d", ex::gen_list(c, "idhfuU", 1, 3, false)}, {"/x", {mk('h', c.s.range(0, 5))}}, {"/z", {mk_s("end")}}};
    std::string in = enc_bundle(m, 7);
    Toks o[3];
    std::string text[3];
    for (int k = 0; k < 3; k++) print(t, (Style)k, o[k]);
    text[0] = join(c, o[0], c.s.chance(50) ? 10 : 90);
    text[1] = join(c, o[1], 90);
    text[2] = join(c, o[2], 90);
    bool err = false, unsure = false;
    VList want;
    Store st{m};
    try {
        want = eval(t, st);
    } catch (ex::Err &) {
        err = true;
    } catch (Unsure &) {
        unsure = true;
    }
    c.note("bundle\n" + dump(m) + "\n" + text[0] + "\n" + text[1] + "\n" + text[2] + "\nwant " + (unsure ? "the same for all" : err ? "an error" : ex::dump(want)));
    ex::Run r[3];
    for (int k = 0; k < 3; k++) {
        r[k] = ex::run(text[k], in);
        CHECK(c, r[k].parsed && r[k].n == 1, "`%s` is not accepted as one expression", text[k].c_str());
        const char *how[] = {"", "with all parentheses, ", "as function calls, "};
        if (!unsure) {
            CHECK(c, (r[k].err != 0) == err, "%s`%s` (meaning `%s`) on\n%s\ngives %s; want %s", how[k], text[k].c_str(), text[2].c_str(), dump(m).c_str(), r[k].err ? strf("error %x", r[k].err).c_str() : ex::dump(r[k].out).c_str(),
                  err ? "an error" : ex::dump(want).c_str());
            if (!err) {
                CHECK(c, ex::same(r[k].out, want), "%s`%s` (meaning `%s`) on\n%s\ngives %s; want %s", how[k], text[k].c_str(), text[2].c_str(), dump(m).c_str(), ex::dump(r[k].out).c_str(), ex::dump(want).c_str());
            }
            MBundle got = must_decode(c, "bundle afterwards", r[k].bndl.data(), r[k].bndl.size());
            bool eq = got.size() == st.m.size();
            for (size_t i = 0; eq && i < got.size(); i++) eq = got[i].addr == st.m[i].addr && ex::same(got[i].args, st.m[i].args);
            CHECK(c, eq, "%s`%s` (meaning `%s`) on\n%s\nleaves\n%s\nwant\n%s", how[k], text[k].c_str(), text[2].c_str(), dump(m).c_str(), dump(got).c_str(), dump(st.m).c_str());
        }
        if (k) {
            CHECK(c, !r[0].err == !r[k].err && ex::same(r[0].out, r[k].out), "`%s` gives %s but `%s` gives %s", text[0].c_str(), r[0].err ? "an error" : ex::dump(r[0].out).c_str(), text[k].c_str(), r[k].err ? "an error" : ex::dump(r[k].out).c_str());
            CHECK(c, r[0].bndl == r[k].bndl, "`%s` and `%s` leave different bundles", text[0].c_str(), text[k].c_str());
        }
    }
    std::set<int> l;
    int n = 0;
    levels(t, l, n);
    c.nontrivial = n >= 2 && l.size() >= 2 && !err;
    if (err) c.label("error");
    if (unsure) c.label("spellings only");
}
static void t_tree(Ctx &c) { check_tree(c, tree(c, c.s.range(1, 4), c.s.chance(20))); }
// two or three operators in a row: every pair of the table
static void t_chain(Ctx &c) {
    int n = c.s.range(2, 4);
    // a random tree over the chain of operators
    std::vector<T> row;
    for (int i = 0; i <= n; i++) {
        T x;
        bool d = c.s.chance(30);
        x.val = {d ? mk_d(c.s.range(1, 20) / 4.0) : mk_i(c.s.range(1, 9))};
        x.text = ex::lit(x.val[0]);
        if (c.s.chance(20)) x = addr(ADDRS[c.s.below(4)]);
        row.push_back(x);
    }
    while (row.size() > 1) {
        size_t i = c.s.below(row.size() - 1);
        T t;
        if (c.s.chance(12) && row[i].k == T::ADDR) {
            t.k = T::COAL;
            t.text = row[i].text;
            t.kids = {row[i + 1]};
        } else if (c.s.chance(12)) {
            t.k = T::TERN;
            t.kids = {row[i], row[i + 1], c.s.chance(50) ? row[i] : row[i + 1]};
        } else {
            t.k = T::BIN;
            t.op = &BIN[c.s.chance(40) ? 10 + c.s.below(6) : c.s.chance(70) ? 4 + c.s.below(12) : c.s.below(16)];
            t.kids = {row[i], row[i + 1]};
        }
        if (c.s.chance(15)) {
            T u;
            u.k = c.s.chance(70) ? T::NEG : T::NOT;
            u.kids = {t};
            t = u;
        }
        row[i] = t;
        row.erase(row.begin() + i + 1);
    }
    check_tree(c, row[0]);
}

// literals
static void t_literal(Ctx &c) {
    std::string text;
    MAtom want;
    switch (c.s.below(9)) {
    case 0: {
        uint64_t v = c.s.chance(40) ? (uint64_t)c.s.range(0, 100) : c.s.u64() >> c.s.range(0, 63);
        text = strf("%llu", (unsigned long long)v);
        want = v <= 0x7fffffff ? mk_i(v) : mk(v >> 63 ? (char)72 : (char)104, v);
        break;
    }
    case 1: {
        uint64_t v = c.s.u64() >> c.s.range(32, 63);
        int w = c.s.range(1, 8);
        text = strf(c.s.chance(50) ? "0x%0*llx" : "0X%0*llX", w, (unsigned long long)v);
        want = mk('I', v);
        break;
    }
    case 2: {
        uint64_t v = c.s.u64() >> c.s.range(0, 63);
        text = strf("0x%0*llx", c.s.range(9, 16), (unsigned long long)v);
        want = mk('H', v);
        break;
    }
    case 3: case 4: {
        // decimal floating point: all the forms of C99
        std::string a, b;
        int na = c.s.range(0, 6), nb = c.s.range(na ? 0 : 1, 6);
        for (int i = 0; i < na; i++) a += '0' + c.s.below(10);
        for (int i = 0; i < nb; i++) b += '0' + c.s.below(10);
        text = a + "." + b;
        if (c.s.chance(40)) text += strf("%c%s%d", c.s.pickc("eE"), c.s.pick(std::vector<const char *>{"", "+", "-"}), c.s.range(0, 30));
        else if (nb == 0 && na && c.s.chance(30)) text = a + strf("e%d", c.s.range(0, 30));
        want = mk_d(strtod(text.c_str(), nullptr));
        break;
    }
    case 5: {
        double v = ldexp(1 + c.s.below(1 << 20) / (double)(1 << 20), c.s.range(-60, 60));
        text = strf("%a", v);
        want = mk_d(v);
        break;
    }
    case 6: {
        char ch = c.s.range(32, 126);
        text = strf("'%c'", ch);
        want = mk('c', ch);
        break;
    }
    case 7: {
        const char *w[] = {"true", "True", "TRUE", "false", "False", "FALSE", "nil", "Nil", "NIL"};
        int k = c.s.below(9);
        text = w[k];
        want = mk(k < 3 ? 'T' : k < 6 ? 'F' : 'N');
        break;
    }
    default: { // strings: a quote inside is written \"
        std::string s;
        int n = c.s.size(12);
        for (int i = 0; i < n; i++) {
            char ch = c.s.chance(20) ? '"' : c.s.chance(10) ? c.s.pickc("\n\t,()[]{}'#;/") : c.s.chance(10) ? (char)c.s.range(128, 255) : (char)c.s.range(32, 126);
            if (ch == '\\') ch = 'b';
            s += ch;
        }
        for (char ch : s) text += ch == '"' ? std::string("\\\"") : std::string(1, ch);
        text = "\"" + text + "\"";
        want = mk_s(s);
        break;
    }
    }
    std::string pre = c.s.chance(30) ? " # comment \"\n\t " : "", prog = "/r = " + pre + text + (c.s.chance(30) ? " # more" : c.s.chance(30) ? ", /s = 1" : "");
    std::string in = enc_bundle({{"/a", {mk_i(1)}}}, 7);
    c.note(prog + "\nwant " + dump(want));
    ex::Run r = ex::run(prog, in);
    CHECK(c, r.parsed && !r.err, "`%s` fails", prog.c_str());
    MBundle got = must_decode(c, "bundle", r.bndl.data(), r.bndl.size());
    CHECK(c, got.size() >= 2 && got[1].addr == "/r" && ex::same(got[1].args, VList{want}), "`%s` leaves %s; want %s", prog.c_str(), dump(got).c_str(), dump(want).c_str());
    c.nontrivial = true;
    c.label(want.tt == 's' ? "string literal" : want.tt == 'd' ? "floating-point literal" : "other literal");
}

namespace pt {
Property property = {"P29",
                     "a tree of at least two operators on two levels of the table whose value is not an error; a literal",
                     {{"tree", 6, t_tree}, {"chain", 5, t_chain}, {"literal", 2, t_literal}},
                     {"a backslash in a string literal is only used before a quote"},
                     160000,
                     3000000};
}
