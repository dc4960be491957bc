// P28: comparison, logic and conditionals
// uses: expr.cpp
#include "expr.hpp"
using namespace pt;
using ex::VList;

static std::string with(const std::vector<MMsg> &m, uint64_t tt) { return enc_bundle(m, tt); }

static bool truth(const MAtom &a) {
    if (a.tt == 'T') return true;
    if (ex::isflt(a.tt)) return ex::num(a) != 0;
    if (ex::isint(a.tt)) return a.i != 0;
    return false;
}

static void value_or_error(Ctx &c, const std::string &text, const MBundle &m, bool err, const VList &want) {
    uint64_t tt = c.s.u64();
    std::string in = with(m, tt);
    c.note("bundle\n" + dump(m) + "\n/r = " + text + "\nwant " + (err ? "an error" : ex::dump(want)));
    ex::Run r = ex::run("/r = " + text, in);
    CHECK(c, r.parsed, "`/r = %s` is not accepted by the parser", text.c_str());
    CHECK(c, (r.err != 0) == err, "`/r = %s` on %s %s %s; want %s", text.c_str(), dump(m).c_str(), r.err ? "gives error" : "gives", r.err ? strf("%x", r.err).c_str() : ex::dump(r.out).c_str(),
          err ? "an error" : ex::dump(want).c_str());
    if (err) {
        CHECK(c, r.bndl == in, "a failed `/r = %s` changes the bundle", text.c_str());
        return;
    }
    MBundle got = must_decode(c, "bundle after the assignment", r.bndl.data(), r.bndl.size());
    CHECK(c, got.size() == m.size() + 1 && got.back().addr == "/r" && !r.bndl.compare(0, in.size(), in), "`/r = %s` leaves the bundle %s", text.c_str(), dump(got).c_str());
    CHECK(c, ex::same(got.back().args, want), "`/r = %s` on %s gives %s; want %s", text.c_str(), dump(m).c_str(), ex::dump(got.back().args).c_str(), ex::dump(want).c_str());
}

static const char *OPS[] = {"<", "<=", ">", ">=", "==", "!="};
static const char *FNS[] = {"lt", "le", "gt", "ge", "eq", "ne"};

static void t_compare(Ctx &c) {
    int k = c.s.below(6);
    std::string op = OPS[k];
    int mode = c.s.weighted({3, 2, 2, 2});
    int na = mode == 1 ? 1 : c.s.count(1, 5), nb = mode == 0 ? na : mode == 2 ? 1 : c.s.count(1, 5);
    VList a, b;
    GenOpt o;
    o.any_bytes = c.s.chance(50);
    int kind = c.s.weighted({5, 3, 2, 2, k >= 4 ? 2 : 0, k >= 4 ? 2 : 0});
    auto one = [&](int other) -> MAtom {
        switch (kind) {
        case 0: return ex::gen_num(c, "idfhcuIHCUTF", c.s.chance(20));
        case 1: return mk_s(gen_string(c, o));
        case 2: // strings and numbers: a string is greater than any number
            return other ? ex::gen_num(c, "idh", false) : mk_s(gen_string(c, o));
        case 3: // timetags, and numbers of seconds, whose quarters never meet the eighths of the timetags
            if (c.s.chance(30)) {
                MAtom x = ex::gen_num(c, "idfhuIHUT", false);
                if (ex::isflt(x.tt)) x.d = c.s.range(0, 20) / 4., x.f = (float)x.d;
                else if (x.tt != 'T') x.i = c.s.chance(70) ? c.s.range(0, 4) : c.s.range(0, 30000);
                return x;
            }
            return mk_t(c.s.chance(80) ? c.s.range(0, 4) : c.s.range(0, 30001), c.s.chance(40) ? 0 : (uint32_t)(2 * c.s.range(0, 3) + 1) << 29);
        case 5: {
            if (c.s.chance(3)) return ex::gen_num(c, "idTFh", false);
            GenOpt q;
            q.types = "isf";
            q.max_msgs = q.max_args = 2;
            q.depth = c.s.chance(20);
            return mk_bndl(gen_bundle(c, q));
        }
        default: return c.s.chance(40) ? mk('N') : ex::gen_num(c, "idTFh", false);
        }
    };
    bool swap = c.s.chance(50);
    for (int i = 0; i < na; i++) a.push_back(one(swap));
    for (int i = 0; i < nb; i++) {
        // near the other side, so that equality is not rare
        if (c.s.chance(40) && kind != 2) {
            MAtom x = a[i % a.size()];
            if (ex::isint(x.tt) && c.s.chance(50) && (kind != 3 || x.i > 0)) x.i = ex::trunc_to(x.tt, (int64_t)((uint64_t)x.i + c.s.range(-1, 1)));
            if (x.tt == '.' && !x.b.empty() && c.s.chance(30)) x.b.back().addr.back() ^= 1;
            if (x.tt == 's' && !x.s.empty() && c.s.chance(50)) x.s.back() = c.s.chance(50) ? 'a' : (char)200;
            if (ex::isint(x.tt) && c.s.chance(20)) {
                char t = c.s.pickc("ihHuU");
                x = mk(t, ex::trunc_to(t, x.i));
            }
            b.push_back(x);
        } else
            b.push_back(one(!swap));
    }
    // numbers of a wide integer type against floating point lose digits
    bool flt = false, big = false, err = false;
    for (auto *l : {&a, &b})
        for (auto &x : *l) {
            flt |= ex::isflt(x.tt);
            big |= ex::isint(x.tt) && (x.i > (1ll << 50) || x.i < -(1ll << 50));
        }
    if (flt && big) throw Discard{};
    VList want;
    size_t n = a.size() == 1 ? b.size() : b.size() == 1 ? a.size() : std::min(a.size(), b.size());
    try {
        for (size_t i = 0; i < n; i++) want.push_back(ex::cmp(op, a[a.size() == 1 ? 0 : i], b[b.size() == 1 ? 0 : i]));
    } catch (ex::Err &) {
        err = true;
    }
    std::string oa = ex::operand(c, "/a", a), ob = ex::operand(c, "/b", b);
    std::string text = c.s.chance(40) ? std::string(FNS[k]) + "(" + oa + ", " + ob + ")" : oa + " " + op + " " + ob;
    value_or_error(c, text, {{"/a", a}, {"/b", b}}, err, want);
    c.label(kind == 0 ? "numbers" : kind == 1 ? "strings" : kind == 2 ? "string and number" : kind == 3 ? "timetags" : kind == 4 ? "nil" : "bundles");
    bool t = false, f = false;
    for (auto &x : want) (x.tt == 'T' ? t : f) = true;
    c.nontrivial = (t && f) || a.size() != b.size() || kind != 0;
}

static void t_logic(Ctx &c) {
    int k = c.s.below(3);
    int mode = c.s.weighted({3, 2, 2, 2});
    int na = mode == 1 ? 1 : c.s.count(1, 5), nb = mode == 0 ? na : mode == 2 ? 1 : c.s.count(1, 5);
    auto one = [&]() -> MAtom {
        if (c.s.chance(30)) {
            char t = c.s.pickc("idfhcuIHCUFN");
            return t == 'd' ? mk_d(c.s.chance(50) ? 0. : -0.) : t == 'f' ? mk_f(0) : mk(t, 0);
        }
        if (c.s.chance(20)) return mk('h', (int64_t)1 << c.s.range(0, 62));
        if (c.s.chance(15)) return mk_d(0.25);
        return ex::gen_num(c, "idfhcuIHCUTF", false);
    };
    VList a, b, want;
    for (int i = 0; i < na; i++) a.push_back(one());
    for (int i = 0; i < nb; i++) b.push_back(one());
    std::string text;
    if (k == 2) {
        for (auto &x : a) {
            bool v = !truth(x);
            if (ex::isbool(x.tt) || x.tt == 'N') want.push_back(mk(v ? 'T' : 'F'));
            else want.push_back(mk_i(v));
        }
        text = c.s.chance(50) ? "!/a" : "not(/a)";
    } else {
        size_t n = a.size() == 1 ? b.size() : b.size() == 1 ? a.size() : std::min(a.size(), b.size());
        for (size_t i = 0; i < n; i++) {
            bool x = truth(a[a.size() == 1 ? 0 : i]), y = truth(b[b.size() == 1 ? 0 : i]);
            want.push_back(mk((k ? x || y : x && y) ? 'T' : 'F'));
        }
        text = c.s.chance(50) ? (k ? "/a | /b" : "/a & /b") : k ? "or(/a, /b)" : "and(/a, /b)";
    }
    value_or_error(c, text, {{"/a", a}, {"/b", b}}, false, want);
    c.nontrivial = want.size() > 1;
}

// ---- programs whose operands leave a trace: operand k appends k to /log
struct Node {
    enum Kind { LEAF, AND, OR, ANDALSO, ORELSE, IF, TERN, NOT } kind = LEAF;
    int id = 0;
    std::string text;  // leaf: the value's text
    MAtom val;
    std::vector<Node> kids;
};
static Node gen_node(Ctx &c, int depth, int &id, bool boolean) {
    Node n;
    if (depth <= 0 || c.s.chance(20)) {
        n.id = id++;
        switch (boolean ? 0 : c.s.below(4)) {
        case 1: n.val = mk_i(c.s.chance(50) ? 0 : 7); break;
        case 2: n.val = mk_d(c.s.chance(50) ? 0.5 : 0); break;
        default: n.val = mk(c.s.chance(50) ? 'T' : 'F');
        }
        n.text = ex::lit(n.val);
        if (ex::isbool(n.val.tt) && c.s.chance(40)) n.text = n.val.tt == 'T' ? c.s.pick(std::vector<const char *>{"/one == 1", "/one < 2", "bound(/one)", "!exists(/none)"}) : c.s.pick(std::vector<const char *>{"/one != 1", "/one >= 2", "bound(/none)", "bound(/empty)"});
        return n;
    }
    switch (c.s.weighted({3, 3, 4, 4, 3, 3, 2})) {
    case 0: n.kind = Node::AND; break;
    case 1: n.kind = Node::OR; break;
    case 2: n.kind = Node::ANDALSO; break;
    case 3: n.kind = Node::ORELSE; break;
    case 4: n.kind = Node::IF; break;
    case 5: n.kind = Node::TERN; break;
    default: n.kind = Node::NOT; break;
    }
    int k = n.kind == Node::NOT ? 1 : n.kind == Node::IF || n.kind == Node::TERN ? 3 : 2;
    for (int i = 0; i < k; i++) n.kids.push_back(gen_node(c, depth - 1, id, c.s.chance(90)));
    return n;
}
static std::string text_of(Ctx &c, const Node &n) {
    std::vector<std::string> k;
    for (auto &x : n.kids) k.push_back(text_of(c, x));
    bool fn = c.s.chance(40);
    switch (n.kind) {
    case Node::LEAF: return strf("progn(/log = list(/log, %d), %s)", n.id, n.text.c_str());
    case Node::AND: return fn ? "and(" + k[0] + ", " + k[1] + ")" : "(" + k[0] + " & " + k[1] + ")";
    case Node::OR: return fn ? "or(" + k[0] + ", " + k[1] + ")" : "(" + k[0] + " | " + k[1] + ")";
    case Node::ANDALSO: return fn ? "andalso(" + k[0] + ", " + k[1] + ")" : "(" + k[0] + " && " + k[1] + ")";
    case Node::ORELSE: return fn ? "orelse(" + k[0] + ", " + k[1] + ")" : "(" + k[0] + " || " + k[1] + ")";
    case Node::IF: return "if(" + k[0] + ", " + k[1] + ", " + k[2] + ")";
    case Node::TERN: return "(" + k[0] + " ? " + k[1] + " : " + k[2] + ")";
    default: return fn ? "not(" + k[0] + ")" : "(!" + k[0] + ")";
    }
}
static MAtom eval_node(const Node &n, std::vector<int> &log) {
    switch (n.kind) {
    case Node::LEAF: log.push_back(n.id); return n.val;
    case Node::AND: case Node::OR: {
        bool x = truth(eval_node(n.kids[0], log)), y = truth(eval_node(n.kids[1], log));
        return mk((n.kind == Node::AND ? x && y : x || y) ? 'T' : 'F');
    }
    case Node::ANDALSO: case Node::ORELSE: {
        MAtom x = eval_node(n.kids[0], log);
        if (!ex::isbool(x.tt)) throw ex::Err{};
        if (x.tt == (n.kind == Node::ANDALSO ? 'F' : 'T')) return x;
        MAtom y = eval_node(n.kids[1], log);
        if (!ex::isbool(y.tt)) throw ex::Err{};
        return y;
    }
    case Node::IF: case Node::TERN: return eval_node(n.kids[truth(eval_node(n.kids[0], log)) ? 1 : 2], log);
    default: {
        MAtom x = eval_node(n.kids[0], log);
        bool v = !truth(x);
        return ex::isbool(x.tt) ? mk(v ? 'T' : 'F') : mk_i(v);
    }
    }
}
static void t_shortcircuit(Ctx &c) {
    int id = 1;
    Node n = gen_node(c, 3, id, true);
    MBundle m = {{"/one", {mk_i(1)}}, {"/empty", {}}, {"/log", {mk_i(0)}}, {"/after", {mk_s("z")}}};
    std::string text = "/r = " + text_of(c, n), in = with(m, 1);
    std::vector<int> log{0};
    VList want;
    bool err = false;
    try {
        want.push_back(eval_node(n, log));
    } catch (ex::Err &) {
        err = true;
    }
    std::string ls;
    for (int x : log) ls += strf(" %d", x);
    c.note(text + "\nwant " + (err ? "an error" : ex::dump(want)) + ", operands evaluated:" + ls);
    ex::Run r = ex::run(text, in);
    CHECK(c, r.parsed, "`%s` is not accepted by the parser", text.c_str());
    CHECK(c, (r.err != 0) == err, "`%s` %s; want %s", text.c_str(), r.err ? strf("gives error %x", r.err).c_str() : "gives no error", err ? "an error" : ex::dump(want).c_str());
    m[2].args.clear();
    for (int x : log) m[2].args.push_back(mk_i(x));
    if (!err) m.push_back({"/r", want});
    MBundle got = must_decode(c, "bundle afterwards", r.bndl.data(), r.bndl.size());
    CHECK(c, got.size() >= 3 && got[2] == m[2], "`%s` evaluates the operands %s; want%s", text.c_str(), got.size() >= 3 ? ex::dump(got[2].args).c_str() : "?", ls.c_str());
    CHECK(c, got == m, "`%s` leaves\n%s\nwant\n%s", text.c_str(), dump(got).c_str(), dump(m).c_str());
    c.nontrivial = (int)log.size() > 2 && (int)log.size() - 1 < id - 1;
    if ((int)log.size() - 1 < id - 1) c.label("skipped");
    if (err) c.label("error");
}

static void t_bound(Ctx &c) {
    const char *addrs[] = {"/a", "/b", "/a/b", "/c", "/cc"};
    MBundle m;
    int n = c.s.range(0, 4);
    for (int i = 0; i < n; i++) {
        const char *a = addrs[c.s.below(5)];
        bool dup = false;
        for (auto &x : m) dup |= x.addr == a;
        if (dup) continue;
        m.push_back({a, c.s.chance(40) ? VList{} : ex::gen_list(c, "idhTF", 1, 3, false)});
    }
    if (c.s.chance(60)) m.push_back({"/z", {mk_i(9)}});
    std::string ad = addrs[c.s.below(5)];
    const MMsg *hit = nullptr;
    for (auto &x : m)
        if (x.addr == ad) hit = &x;
    bool bound = hit && !hit->args.empty();
    VList want, dflt = {mk_i(42)};
    int k = c.s.below(6);
    std::string text;
    if (k < 2 && c.s.chance(30)) ad = "\"" + ad + "\"";
    switch (k) {
    case 5: text = "emptybundle()"; want = {mk(m.empty() ? 'T' : 'F')}; break;
    case 0: text = "bound(" + ad + ")"; want = {mk(bound ? 'T' : 'F')}; break;
    case 1: text = "exists(" + ad + ")"; want = {mk(hit ? 'T' : 'F')}; break;
    case 2: text = ad + " ?? 42"; want = bound ? hit->args : dflt; break;
    case 3: text = "if(bound(" + ad + "), " + ad + ", 42)"; want = bound ? hit->args : dflt; break;
    default: { // ??= sets the address only when it is not bound
        text = ad + " ?" "?= 42";
        std::string in = with(m, 5);
        c.note("bundle\n" + dump(m) + "\n" + text);
        ex::Run r = ex::run(text, in);
        CHECK(c, r.parsed && !r.err, "`%s` fails on\n%s", text.c_str(), dump(m).c_str());
        MBundle w = m;
        if (!bound) {
            if (hit) w[hit - &m[0]].args = dflt;
            else w.push_back({ad, dflt});
        }
        MBundle got = must_decode(c, "bundle", r.bndl.data(), r.bndl.size());
        CHECK(c, got == w, "`%s` on\n%s\nleaves\n%s\nwant\n%s", text.c_str(), dump(m).c_str(), dump(got).c_str(), dump(w).c_str());
        c.nontrivial = true;
        return;
    }
    }
    value_or_error(c, text, m, false, want);
    c.nontrivial = m.size() > 2;
    c.label(!hit ? "absent" : bound ? "bound" : "empty");
}

// the value of an absent address is an error, of a present one its arguments
static void t_branch(Ctx &c) {
    VList test = ex::gen_list(c, "idfhcuIHCUTF", 1, 3, false), a = ex::gen_list(c, "idhTF", 0, 3, false), b = ex::gen_list(c, "idhTF", 0, 3, false);
    if (c.s.chance(40)) test[0] = c.s.chance(50) ? mk_d(0.5) : mk('h', (int64_t)1 << c.s.range(30, 62));
    if (c.s.chance(30)) test[0] = mk('i', 0);
    bool t = truth(test[0]);
    int miss = c.s.weighted({4, 1, 1}), k = c.s.below(3); // which branch is unbound
    std::string A = miss == 1 ? "/none" : "/a", B = miss == 2 ? "/none" : "/b", text;
    bool err = t ? miss == 1 : miss == 2;
    text = k == 0 ? "if(/t, " + A + ", " + B + ")" : k == 1 ? "/t ? " + A + " : " + B : "if(/t, " + A + ")";
    VList want = t ? a : b;
    if (k == 2 && !t) want.clear(), err = false;
    value_or_error(c, text, {{"/t", test}, {"/a", a}, {"/b", b}}, err, want);
    c.nontrivial = true;
    c.label(miss ? "unbound branch" : "bound branches");
}

namespace pt {
Property property = {"P28",
                     "a comparison with both outcomes or mixed kinds, a program in which an operand is skipped, a bundle with several addresses",
                     {{"compare", 6, t_compare}, {"logic", 3, t_logic}, {"shortcircuit", 6, t_shortcircuit}, {"bound", 3, t_bound}, {"branch", 3, t_branch}},
                     {"a floating-point value is compared with integers only up to 2^50", "only the first element of a list decides if()"},
                     200000,
                     5000000};
}
