// P42: nested bundles as values of the expression language
// uses: expr.cpp
#include "expr.hpp"
#include <functional>
using namespace pt;
using ex::VList;

struct World {
    MBundle m;
    uint64_t tt = 1;
    std::vector<std::pair<std::string, VList>> env; // parameters of the lambda that is being evaluated
    const VList *find(const std::string &a) const {
        for (auto &x : m)
            if (x.addr == a) return &x.args;
        return nullptr;
    }
    VList get(const std::string &a) const {
        const VList *v = find(a);
        if (!v) throw ex::Err{};
        return *v;
    }
    void set(const std::string &a, const VList &l) {
        for (auto &x : m)
            if (x.addr == a) {
                x.args = l;
                return;
            }
        m.push_back({a, l});
    }
};
struct Val {
    std::string text;
    std::function<VList(World &)> run;
};
static const std::vector<std::string> TOP = {"/b", "/bb", "/b/c", "/list", "/name", "/n", "/new", "/other"};
static const std::vector<std::string> MEM = {"/x", "/y", "/x/y", "/xx", "/b", "/name", "/absent"};
// mostly names that are there
static std::string mem(Ctx &c) { return MEM[c.s.weighted({20, 14, 8, 4, 8, 2, 1})]; }
static std::string top(Ctx &c) { return TOP[c.s.weighted({12, 6, 4, 6, 2, 3, 1, 1})]; }
static std::string holds(Ctx &c) { return TOP[c.s.weighted({14, 8, 3, 8, 1, 0, 1, 0})]; }
static std::string q(const std::string &s) { return "\"" + s + "\""; }

// the bundle that the first operand of the member functions stands for: a bundle, or the address of one
static MBundle operand(const VList &l, const World &w) {
    if (l.empty()) throw ex::Err{};
    if (l[0].tt == '.') return l[0].b;
    if (l[0].tt != 's') throw ex::Err{};
    VList v = w.get(l[0].s);
    if (v.empty() || v[0].tt != '.') throw ex::Err{};
    return v[0].b;
}
static VList look(const MBundle &b, const std::string &a) {
    for (auto &m : b)
        if (m.addr == a) return m.args;
    throw ex::Err{};
}

static Val value(Ctx &c, int depth, const std::string &param);
static Val leaf(Ctx &c) {
    VList l = ex::gen_list(c, "iidcHITF", 1, c.s.chance(60) ? 1 : 4, false);
    if (c.s.chance(20)) l[0] = mk_s(c.s.pick(std::vector<std::string>{"", "abc", "a longer string", "/b", "/x"}));
    if (c.s.chance(4)) l.clear();
    std::string s;
    for (auto &a : l) {
        std::string t = ex::lit(a);
        if (t.empty()) a = mk_i(7), t = "7";
        s += (s.empty() ? "" : ", ") + t;
    }
    if (l.size() != 1) s = "[" + s + "]";
    return {s, [l](World &) { return l; }};
}
static Val address(Ctx &c) {
    std::string a = top(c);
    return {a, [a](World &w) { return w.get(a); }};
}
static Val literal(Ctx &c, int depth, const std::string &param) {
    int n = c.s.count(0, 3);
    std::vector<std::string> a;
    std::vector<Val> v;
    std::string t;
    int k = c.s.below(3); // {…}, bundle(…), bundle(…) with a last message without values
    bool odd = k == 2 && n > 0;
    for (int i = 0; i < n; i++) {
        a.push_back(mem(c));
        v.push_back(value(c, depth - 1, param));
        if (k == 0) t += (i ? ", " : "") + a[i] + " : " + v[i].text;
        else t += (i ? ", " : "") + q(a[i]) + (odd && i == n - 1 ? "" : ", " + v[i].text);
    }
    return {k == 0 ? "{" + t + "}" : "bundle(" + t + ")", [=](World &w) {
                MBundle b;
                for (int i = 0; i < n; i++) b.push_back({a[i], odd && i == n - 1 ? VList{} : v[i].run(w)});
                return VList{mk_bndl(b)};
            }};
}
// something whose value is a bundle, or the address of one
static Val holder(Ctx &c, int depth, const std::string &param) {
    switch (c.s.weighted({6, 2, depth > 0 ? 3 : 0, depth > 0 ? 2 : 0, 2, depth > 0 ? 2 : 0})) {
    case 0: {
        std::string a = holds(c);
        return {a, [a](World &w) { return w.get(a); }};
    }
    case 1: {
        std::string a = top(c);
        return {q(a), [a](World &) { return VList{mk_s(a)}; }};
    }
    case 2: return literal(c, depth - 1, param);
    case 3: { // a member of a member
        Val h = holder(c, depth - 1, param);
        std::string m = mem(c);
        return {"getbundlemember(" + h.text + ", " + m + ")", [=](World &w) { return look(operand(h.run(w), w), m); }};
    }
    case 4: { // an element of a list of bundles
        std::string a = c.s.chance(80) ? "/list" : top(c);
        int i = c.s.range(0, 3);
        return {strf("%s[[%d]]", a.c_str(), i), [=](World &w) {
                    VList l = w.get(a);
                    if (i >= (int)l.size()) throw ex::Err{};
                    return VList{l[i]};
                }};
    }
    default: { // through list functions
        Val h = holder(c, depth - 1, param);
        int k = c.s.below(3);
        const char *fn[] = {"first", "last", "reverse"};
        return {std::string(fn[k]) + "(" + h.text + ")", [=](World &w) {
                    VList l = h.run(w);
                    if (l.empty()) throw Discard{};
                    if (k == 0) return VList{l[0]};
                    if (k == 1) return VList{l.back()};
                    return VList(l.rbegin(), l.rend());
                }};
    }
    }
}
static Val value(Ctx &c, int depth, const std::string &param) {
    switch (c.s.weighted({6, 3, depth > 0 ? 4 : 0, depth > 0 ? 4 : 0, depth > 0 ? 2 : 0, depth > 0 && param.empty() ? 2 : 0, depth > 0 && param.empty() ? 1 : 0, param.empty() ? 0 : 4, 1, depth > 0 ? 1 : 0, depth > 0 ? 1 : 0, 1})) {
    case 0: return leaf(c);
    case 1: return address(c);
    case 2: return literal(c, depth, param);
    case 3: { // a member, named by an address or by something that gives its name
        Val h = holder(c, depth, param);
        std::string m = mem(c);
        int k = c.s.weighted({4, 2, 2, 2, 1});
        if (k == 4) k = c.s.below(2) ? 4 : 5;
        static const char *T[] = {"getbundlemember(%s, %s)", "getbundlemember(%s, \"%s\")", "getbundlemember(%s, value(%s))", "getbundlemember(%s, first(%s))", "getbundlemember(%s, value(\"%s\"))", "getbundlemember(%s, list(\"%s\", 1))"};
        std::string name = k == 2 || k == 3 ? "/name" : m;
        return {strf(T[k], h.text.c_str(), name.c_str()), [=](World &w) {
                    MBundle b = operand(h.run(w), w);
                    if (k != 2 && k != 3) return look(b, m);
                    VList n = w.get("/name");
                    if (n.empty() || n[0].tt != 's') throw Discard{}; // a number gives the text of the number: not an address
                    return look(b, n[0].s);
                }};
    }
    case 4: { // the dot
        std::string a = holds(c), m = mem(c);
        bool s = c.s.chance(30);
        return {(s ? q(a) : a) + "." + m, [=](World &w) { return look(operand(s ? VList{mk_s(a)} : w.get(a), w), m); }};
    }
    case 5: { // a function of a bundle
        std::string p = c.s.pick(std::vector<std::string>{"p", "bndl", "x"});
        Val body = value(c, depth - 1, p), arg = holder(c, depth - 1, "");
        return {"apply(lambda([" + p + "], " + body.text + "), " + arg.text + ")", [=](World &w) {
                    VList v = arg.run(w);
                    World in = w;
                    in.env = {{p, v}};
                    return body.run(in);
                }};
    }
    case 6: { // the same member of each bundle of a list
        std::string m = mem(c), a = c.s.chance(80) ? "/list" : top(c);
        return {"map(lambda([x], x." + m + "), " + a + ")", [=](World &w) {
                    VList l = w.get(a), r;
                    if (l.empty()) throw Discard{};
                    for (auto &e : l) {
                        VList v = look(operand({e}, w), m);
                        if (v.size() != 1) throw Discard{}; // how map joins longer results is P31's
                        r.push_back(v[0]);
                    }
                    return r;
                }};
    }
    case 7: { // the parameter, or a member of it
        std::string m = mem(c);
        int k = c.s.below(3);
        return {k == 0 ? param : k == 1 ? param + "." + m : "getbundlemember(" + param + ", " + m + ")", [=](World &w) {
                    VList v = w.env[0].second;
                    return k == 0 ? v : look(operand(v, w), m);
                }};
    }
    case 9: { // the names of the messages in it
        Val h = holder(c, depth, param);
        return {"getaddresses(" + h.text + ")", [=](World &w) {
                    VList v = h.run(w), r;
                    if (v.empty() || v[0].tt != '.') throw ex::Err{};
                    for (auto &m : v[0].b) r.push_back(mk_s(m.addr));
                    return r;
                }};
    }
    case 10: { // whether a member is there, and has a value
        std::string a = holds(c), m = mem(c);
        bool b = c.s.chance(50);
        return {(b ? "bound(" : "exists(") + a + "." + m + ")", [=](World &w) {
                    VList v;
                    bool there = true;
                    try {
                        v = look(operand(w.get(a), w), m);
                    } catch (ex::Err &) {
                        there = false;
                    }
                    return VList{mk(there && (!b || !v.empty()) ? 'T' : 'F')};
                }};
    }
    case 8: return {"gettimetag()", [](World &w) { return VList{mk_t(w.tt >> 32, (uint32_t)w.tt)}; }};
    default: {
        Val x = value(c, depth - 1, param), y = value(c, depth - 1, param);
        return {"list(" + x.text + ", " + y.text + ")", [=](World &w) {
                    VList a = x.run(w), b = y.run(w);
                    a.insert(a.end(), b.begin(), b.end());
                    return a;
                }};
    }
    }
}

static VList with(const VList &l, size_t i, const std::string &m, const VList &v) {
    World n;
    n.m = l[i].b;
    n.set(m, v);
    VList r = l;
    r[i] = mk_bndl(n.m);
    return r;
}
// an update: the value it gives
static Val stmt(Ctx &c) {
    std::string m = mem(c), a = holds(c);
    if (c.s.chance(25)) a = "/new";
    int depth = c.s.range(0, 2);
    Val v = value(c, depth, "");
    switch (c.s.weighted({4, 4, 2, 3, 2, 2, 1})) {
    case 0: // bind an address to something
        return {a + " = " + v.text, [=](World &w) {
                    VList x = v.run(w);
                    w.set(a, x);
                    return x;
                }};
    case 1: { // a member of the bundle at an address; of a new bundle when the address is unbound
        int k = c.s.below(2);
        return {k ? a + "." + m + " = " + v.text : "assigntobundlemember(" + a + ", " + m + ", " + v.text + ")", [=](World &w) {
                    const VList *o = w.find(a);
                    VList l = o ? *o : VList{mk_bndl({})};
                    if (l.empty()) throw ex::Err{};
                    if (l[0].tt == 's') throw Discard{}; // an address that leads to another one
                    if (l[0].tt != '.') throw ex::Err{};
                    l = with(l, 0, m, v.run(w));
                    w.set(a, l);
                    return l;
                }};
    }
    case 2: // the address as a string: only for what is bound
        return {"assigntobundlemember(" + q(a) + ", " + m + ", " + v.text + ")", [=](World &w) {
                    VList l = {mk_bndl(operand({mk_s(a)}, w))};
                    l = with(l, 0, m, v.run(w));
                    w.set(a, l);
                    return l;
                }};
    case 3: { // an element of a list of bundles
        std::string t = c.s.chance(80) ? "/list" : a;
        int i = c.s.range(0, 3);
        return {strf("assigntobundlemember(%s[[%d]], ", t.c_str(), i) + m + ", " + v.text + ")", [=](World &w) {
                    VList l = w.get(t);
                    if (i >= (int)l.size()) throw ex::Err{};
                    if (l[i].tt == 's') throw Discard{};
                    if (l[i].tt != '.') throw ex::Err{};
                    l = with(l, i, m, v.run(w));
                    w.set(t, l);
                    return l;
                }};
    }
    case 4: // through an address that is computed
        return {"assigntobundlemember(first(/name), " + m + ", " + v.text + ")", [=](World &w) {
                    VList n = w.get("/name");
                    if (n.empty()) throw Discard{};
                    MBundle b = operand({n[0]}, w);
                    VList x = v.run(w);
                    if (n[0].tt != 's') throw ex::Err{}; // not something that can be assigned to
                    VList l = with({mk_bndl(b)}, 0, m, x);
                    w.set(n[0].s, l);
                    return l;
                }};
    case 5: { // the member named by a string
        return {"assigntobundlemember(" + a + ", " + q(m) + ", " + v.text + ")", [=](World &w) {
                    VList l = w.get(a); // nothing is made for what is unbound
                    if (l.empty()) throw ex::Err{};
                    if (l[0].tt == 's') throw Discard{};
                    if (l[0].tt != '.') throw ex::Err{};
                    l = with(l, 0, m, v.run(w));
                    w.set(a, l);
                    return l;
                }};
    }
    default: // the header's timetag
        return {"settimetag(" + v.text + ")", [=](World &w) {
                    VList x = v.run(w);
                    if (x.size() != 1 || x[0].tt != 't') throw Discard{};
                    w.tt = (uint64_t)x[0].sec << 32 | x[0].frac;
                    return VList{mk('?')};
                }};
    }
}

static MBundle gen_inner(Ctx &c, int depth) {
    MBundle b;
    int n = c.s.range(0, 4);
    for (int i = 0; i < n + 2; i++) {
        MMsg m;
        m.addr = i < 2 ? (i ? "/y" : "/x") : mem(c);
        if (i < 2 && c.s.chance(30)) continue;
        switch (c.s.weighted({6, 2, depth > 0 ? 4 : 0})) {
        case 0: m.args = ex::gen_list(c, "iidfhcuIHCUTFN", 0, 4, false); break;
        case 1: m.args = {mk_s(mem(c))}; break;
        default: m.args = {mk_bndl(gen_inner(c, depth - 1))};
        }
        b.push_back(m);
    }
    return b;
}
static World gen_world(Ctx &c) {
    World w;
    w.tt = c.s.u64();
    auto add = [&](const char *a, const VList &l) {
        if (c.s.chance(90)) w.m.insert(w.m.begin() + c.s.below(w.m.size() + 1), {a, l});
    };
    add("/b", {mk_bndl(gen_inner(c, 2))});
    add("/bb", {mk_bndl(gen_inner(c, 1)), mk_i(3)});
    add("/b/c", {mk_bndl({})});
    VList l;
    int n = c.s.range(0, 4);
    for (int i = 0; i < n; i++)
        if (c.s.chance(90)) {
            MBundle b = gen_inner(c, 1);
            if (c.s.chance(60)) b.insert(b.begin(), {"/x", {mk_i(i)}});
            l.push_back(mk_bndl(b));
        } else
            l.push_back(mk_i(i));
    add("/list", l);
    add("/name", {mk_s(c.s.chance(60) ? mem(c) : top(c))});
    add("/n", ex::gen_list(c, "id", 0, 3, false));
    if (c.s.chance(20)) add("/other", {mk_t(c.s.u64(), c.s.u64())});
    return w;
}

static void compare(Ctx &c, const std::string &text, const World &before, const World &w, bool err, const VList &last, int ran, int k, const std::string &in) {
    c.note(dump(before.m) + "\n" + text + "\nwant " + (err ? "an error" : ex::dump(last)) + " and\n" + dump(w.m));
    ex::Run r = ex::run(text, in);
    CHECK(c, r.parsed, "`%s` is not accepted", text.c_str());
    CHECK(c, (r.err != 0) == err && r.n == ran, "`%s` on\n%s\ngives %s in expression %d of %d; want %s in %d", text.c_str(), dump(before.m).c_str(), r.err ? strf("error %x", r.err).c_str() : ("no error, " + ex::dump(r.out)).c_str(), r.n, k,
          err ? "an error" : ex::dump(last).c_str(), ran);
    std::string want = enc_bundle(w.m, w.tt);
    if (r.bndl != want) {
        MBundle got = must_decode(c, "bundle afterwards", r.bndl.data(), r.bndl.size());
        c.fail("`%s` on\n%s\nleaves\n%s\nwant\n%s%s", text.c_str(), dump(before.m).c_str(), dump(got).c_str(), dump(w.m).c_str(), dump(got) == dump(w.m) ? " (other bytes)" : "");
    }
    if (!err && !(last.size() == 1 && last[0].tt == '?'))
        CHECK(c, ex::same(r.out, last), "the value of `%s` on\n%s\nis %s; want %s", text.c_str(), dump(before.m).c_str(), ex::dump(r.out).c_str(), ex::dump(last).c_str());
    if (err) c.label("error");
}

static bool deep(const MBundle &b) {
    for (auto &m : b)
        for (auto &a : m.args)
            if (a.tt == '.' && !a.b.empty()) return true;
    return false;
}

// generate until the reference has a value for it; errors only now and then
template <class G> static Val mostly_valid(Ctx &c, const World &w, G gen) {
    for (int i = 0;; i++) {
        Val v = gen();
        if (i == 5 || c.s.chance(8)) return v;
        try {
            World t = w;
            v.run(t);
            return v;
        } catch (ex::Err &) {
        } catch (Discard &) {
        }
    }
}

// reading: the value and nothing else
static void t_read(Ctx &c) {
    World w = gen_world(c), before = w;
    std::string in = enc_bundle(w.m, w.tt);
    Val v = mostly_valid(c, w, [&] { return value(c, 3, ""); });
    std::string text = "list(" + v.text + ")";
    VList want;
    bool err = false;
    try {
        want = v.run(w);
    } catch (ex::Err &) {
        err = true;
    }
    compare(c, text, before, w, err, want, 1, 1, in);
    c.nontrivial = !err && text.find("/") != std::string::npos && deep(before.m) && text.size() > 12;
}

// a program of updates
static void t_update(Ctx &c) {
    World w = gen_world(c), before = w;
    std::string in = enc_bundle(w.m, w.tt), text;
    int k = c.s.range(1, 5), ran = 0;
    VList last;
    bool err = false;
    for (int i = 0; i < k; i++) {
        Val e = err ? stmt(c) : mostly_valid(c, w, [&] { return stmt(c); });
        text += (i ? ", " : "") + e.text;
        if (err) continue; // nothing after an error is run
        ran++;
        try {
            last = e.run(w);
        } catch (ex::Err &) {
            err = true;
        }
    }
    compare(c, text, before, w, err, last, ran, k, in);
    c.nontrivial = ran >= 2 && enc_bundle(w.m, w.tt) != in && deep(w.m);
}

// the narrow integers travel in four bytes, of which only the low ones count
static void narrow(MBundle &b) {
    for (auto &m : b)
        for (auto &a : m.args)
            if (a.tt == '.') narrow(a.b);
            else if (strchr("cCuU", a.tt)) a.i = ex::trunc_to(a.tt, a.i);
}

// bundle() of a blob or of a list of bytes: the bundle with those bytes, or an error when they are none
static void t_bytes(Ctx &c) {
    GenOpt o;
    o.depth = 2;
    o.max_args = 4;
    MBundle b = gen_bundle(c, o);
    std::string bytes = enc_bundle(b, c.s.u64());
    bool bad = c.s.chance(40);
    if (bad) {
        switch (c.s.below(4)) {
        case 0: bytes.resize(c.s.below(bytes.size())); break;
        case 1: bytes[c.s.below(8)] ^= 1 << c.s.below(7); break; // the identifier
        case 2: bytes += std::string(1 + c.s.below(12), c.s.chance(50) ? '\0' : '/'); break;
        default: bytes[16 + c.s.below(std::max<size_t>(1, bytes.size() - 16)) - (bytes.size() == 16)] ^= 1 << c.s.below(8);
        }
    }
    bool blob = c.s.chance(50);
    VList src;
    std::string padded = bytes;
    if (blob) src = {mk('b')}, src[0].s = bytes;
    else {
        const char *types = c.s.pick(std::vector<const char *>{"i", "c", "ihuUI", "d"});
        for (unsigned char ch : bytes) {
            char t = c.s.pickc(types);
            int v = t == 'c' || c.s.chance(30) ? (signed char)ch : ch;
            if (strchr("UI", t)) v = ch;
            src.push_back(t == 'd' ? mk_d(v) : mk(t, v));
        }
        while (padded.size() % 4) padded.push_back(0); // the list is filled up with zeros
        if (src.size() == 1 || src.empty()) throw Discard{};
    }
    MBundle top = {{"/src", src}}, want;
    if (c.s.chance(50)) top.insert(top.begin(), {"/other", {mk_i(1)}});
    bool ok = dec_bundle(padded, want);
    narrow(want);
    std::string in = enc_bundle(top, 5);
    c.note(strf("%zu bytes as a %s, %s", bytes.size(), blob ? "blob" : "list", ok ? "valid" : "not valid"));
    ex::Run r = ex::run("/r = bundle(/src)", in);
    CHECK(c, r.parsed, "not accepted");
    if (!bad) CHECK(c, ok, "the reference decoder refuses its own bundle");
    if (ok) {
        CHECK(c, !r.err, "bundle() of the bytes of %s gives error %x", dump(want).c_str(), r.err);
        CHECK(c, r.out.size() == 1 && r.out[0].tt == '.' && dump(r.out[0].b) == dump(want), "bundle() of the bytes of %s gives %s", dump(want).c_str(), ex::dump(r.out).c_str());
    } else if (!r.err) {
        // bytes that the strict decoder refuses (padding that is not zero, say) may still be read as a bundle
        MBundle out = must_decode(c, "bundle after bundle() of doubtful bytes", r.bndl.data(), r.bndl.size());
        CHECK(c, bad, "bundle() refused");
        c.label("doubtful");
    } else {
        CHECK(c, r.bndl == in, "a failed bundle() changes the bundle");
        c.label("refused");
    }
    c.nontrivial = b.size() > 1;
}

namespace pt {
Property property = {"P42",
                     "for reads, the world holds a bundle with messages and the expression looks into it; for updates, at least two statements ran and a nested bundle with messages remains",
                     {{"read", 4, t_read}, {"update", 5, t_update}, {"bytes", 2, t_bytes}},
                     {"an address that leads to the address of a bundle is not a target of member assignment"},
                     70000,
                     3000000};
}
