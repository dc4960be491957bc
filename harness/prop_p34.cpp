// P34: string functions and casts of the expression language against their definitions
// uses: expr.cpp
// uses: fmt.cpp
// uses: pattern.cpp
#include "conv.hpp"
#include "expr.hpp"
#include "pattern.hpp"
using namespace pt;
using ex::VList;

struct Q {
    Ctx &c;
    MBundle m;
    std::string arg(const VList &v, bool literal = true) {
        std::string a = strf("/v%d", (int)m.size());
        std::string t = literal ? ex::operand(c, a.c_str(), v) : a;
        if (t == a) m.push_back({a, v});
        return t;
    }
    ex::Run run(const std::string &text) {
        std::string in = enc_bundle(m, 3);
        c.note(text + "  on\n" + dump(m));
        ex::Run r = ex::run(text, in);
        CHECK(c, r.parsed, "`%s` is not accepted", text.c_str());
        CHECK(c, r.bndl == in, "`%s` changes the bundle", text.c_str());
        return r;
    }
    VList eval(const std::string &text) {
        ex::Run r = run(text);
        CHECK(c, !r.err, "`%s` on\n%s\ngives error %x", text.c_str(), dump(m).c_str(), r.err);
        return r.out;
    }
    void want(const std::string &text, const VList &w) {
        VList got = eval(text);
        CHECK(c, ex::same(got, w), "`%s` on\n%s\nis %s; want %s", text.c_str(), dump(m).c_str(), ex::dump(got).c_str(), ex::dump(w).c_str());
    }
    void fails(const std::string &text) {
        c.label("error");
        ex::Run r = run(text);
        CHECK(c, r.err, "`%s` on\n%s\nis %s; want an error", text.c_str(), dump(m).c_str(), ex::dump(r.out).c_str());
    }
};
static std::string str(Ctx &c, const char *chars, int hi) {
    std::string s;
    int n = c.s.count(0, 0, 8);
    if (!n) n = c.s.size(hi);
    for (int i = 0; i < n; i++) s += c.s.chance(6) ? (char)(1 + c.s.below(255)) : c.s.pickc(chars);
    return s;
}
// as strings go into results
static std::string text_of(const MAtom &a) { return std::string(fmt_value(a).c_str()); }
static std::string char_or_text(const MAtom &a) {
    if (a.tt == 'c' || a.tt == 'C') return a.i ? std::string(1, (char)a.i) : "";
    return text_of(a);
}
static std::string f(Ctx &c, const char *name, std::initializer_list<std::string> args) {
    std::string r = name;
    r += "(";
    int i = 0;
    for (auto &a : args) r += (i++ ? ", " : "") + a;
    return r + ")";
}

static void t_strlen(Ctx &c) {
    Q q{c, {}};
    VList l, w;
    int n = c.s.count(0, 4);
    for (int i = 0; i < n; i++) l.push_back(c.s.chance(60) ? mk_s(str(c, "ab /", 40)) : conv::gen_value(c));
    for (auto &a : l) w.push_back(mk('h', (int64_t)text_of(a).size()));
    c.nontrivial = n > 0;
    q.want(f(c, "strlen", {q.arg(l)}), w);
}
static void t_strchar(Ctx &c) {
    Q q{c, {}};
    VList idx, l, w;
    int n = c.s.range(1, 3), k = c.s.range(0, 5);
    size_t shortest = SIZE_MAX;
    for (int i = 0; i < n; i++) {
        l.push_back(mk_s(str(c, "abcdefg", 12)));
        shortest = std::min(shortest, l[i].s.size());
    }
    bool bad = false;
    for (int i = 0; i < k; i++) {
        int v = shortest && !c.s.chance(5) ? (int)c.s.below(shortest) : c.s.chance(50) ? (int)shortest + (int)c.s.below(2) : -1 - (int)c.s.below(2);
        bad = bad || v < 0 || v >= (int)shortest;
        idx.push_back(c.s.chance(80) ? mk_i(v) : mk('h', v));
    }
    std::string text = f(c, "strchar", {q.arg(idx), q.arg(l)});
    c.nontrivial = k > 1;
    if (bad) return q.fails(text);
    for (auto &a : l) {
        std::string s;
        for (auto &i : idx) s += a.s[i.i];
        w.push_back(mk_s(s));
    }
    q.want(text, w);
}
static void t_strfind(Ctx &c) {
    Q q{c, {}};
    std::string hay = str(c, "aab", 24), sub;
    if (hay.size() && c.s.chance(60)) {
        size_t at = c.s.below(hay.size());
        sub = hay.substr(at, 1 + c.s.size(4));
    } else sub = str(c, "aab", 3);
    VList w;
    if (sub.size())
        for (size_t p = 0; (p = hay.find(sub, p)) != std::string::npos; p += sub.size()) w.push_back(mk('h', (int64_t)p));
    c.nontrivial = w.size() > 1;
    q.want(f(c, "strfind", {q.arg({mk_s(sub)}), q.arg({mk_s(hay)})}), w);
}
static void t_strcmp(Ctx &c) {
    Q q{c, {}};
    std::string a = str(c, "ab", 8), b = c.s.chance(30) ? a : c.s.chance(50) ? a.substr(0, c.s.below(a.size() + 1)) + str(c, "ab", 3) : str(c, "ab", 8);
    if (c.s.chance(5)) {
        std::string t = c.s.chance(50) ? f(c, "strcmp", {q.arg({mk_s(a)}), q.arg({})}) : f(c, "strcmp", {q.arg({}), q.arg({mk_s(a)})});
        return q.fails(t);
    }
    int n = c.s.chance(40) ? c.s.range(0, 9) : -1;
    std::string x = n < 0 ? a : a.substr(0, n), y = n < 0 ? b : b.substr(0, n);
    int w = x.compare(y);
    std::string text = n < 0 ? f(c, "strcmp", {q.arg({mk_s(a)}), q.arg({mk_s(b)})}) : f(c, "strcmp", {q.arg({mk_s(a)}), q.arg({mk_s(b)}), q.arg({mk_i(n)})});
    VList got = q.eval(text);
    c.nontrivial = a != b && a.size() && b.size();
    CHECK(c, got.size() == 1 && got[0].tt == 'i', "`%s` is %s", text.c_str(), ex::dump(got).c_str());
    CHECK(c, (got[0].i < 0) == (w < 0) && (got[0].i > 0) == (w > 0), "`%s` on\n%s\nis %d; want the sign of %d", text.c_str(), dump(q.m).c_str(), (int)got[0].i, w);
}
static void t_split(Ctx &c) {
    Q q{c, {}};
    std::string sep = str(c, "/,ab", 3), s;
    int n = c.s.chance(20) ? c.s.range(15, 40) : c.s.range(0, 8);
    for (int i = 0; i < n; i++) {
        if (c.s.chance(85)) s += str(c, "xyab", 3);
        s += sep.size() && c.s.chance(80) ? std::string(1, c.s.pick(std::vector<char>(sep.begin(), sep.end()))) : "";
    }
    VList w;
    if (sep.empty()) {
        for (char ch : s) w.push_back(mk('c', (int8_t)ch));
    } else {
        std::string t;
        for (char ch : s + sep[0]) {
            if (sep.find(ch) == std::string::npos) t += ch;
            else {
                if (t.size()) w.push_back(mk_s(t));
                t.clear();
            }
        }
    }
    c.nontrivial = w.size() > 1 && sep.size();
    if (w.size() > 16) c.label("more than 16 pieces");
    q.want(f(c, "split", {q.arg({mk_s(sep)}), q.arg({mk_s(s)})}), w);
}
static void t_join(Ctx &c) {
    Q q{c, {}};
    bool nosep = c.s.chance(6);
    std::string sep = nosep ? "" : str(c, "/, ", 3);
    std::string text = "join(" + q.arg(nosep ? VList{} : VList{mk_s(sep)});
    std::vector<std::string> p;
    int k = c.s.range(1, 3);
    for (int i = 0; i < k; i++) {
        VList l;
        int n = c.s.count(0, 4);
        for (int j = 0; j < n; j++) {
            l.push_back(c.s.chance(55) ? mk_s(str(c, "ab", 6)) : conv::gen_value(c));
            p.push_back(char_or_text(l[j]));
        }
        text += ", " + q.arg(l);
    }
    std::string w;
    for (size_t i = 0; i < p.size(); i++) w += (i ? sep : "") + p[i];
    c.nontrivial = p.size() > 1;
    q.want(text + ")", {mk_s(w)});
}
static void t_inverse(Ctx &c) {
    // splitting undoes joining and joining undoes splitting, when no piece is empty or contains the separator
    Q q{c, {}};
    char sep = c.s.pickc("/,. x");
    VList l;
    std::string s;
    int n = c.s.chance(20) ? c.s.range(15, 35) : c.s.range(1, 6);
    for (int i = 0; i < n; i++) {
        std::string p = str(c, "abc,/", 5);
        std::string r;
        for (char ch : p)
            if (ch != sep) r += ch;
        if (r.empty()) r = "q";
        l.push_back(mk_s(r));
        s += (i ? std::string(1, sep) : "") + r;
    }
    c.nontrivial = n > 1;
    std::string sp = q.arg({mk_s(std::string(1, sep))}, false);
    if (c.s.chance(50)) q.want("split(" + sp + ", join(" + sp + ", " + q.arg(l) + "))", l);
    else q.want("join(" + sp + ", split(" + sp + ", " + q.arg({mk_s(s)}) + "))", {mk_s(s)});
}

// the value cast to type t; false when C does not define the conversion
static bool cast_to(const MAtom &a, char t, MAtom &out) {
    int64_t v = 0;
    switch (t) {
    case 'c': if (!conv::ref_int(a, 8, true, v)) return false; break;
    case 'C': if (!conv::ref_int(a, 8, false, v)) return false; break;
    case 'u': if (!conv::ref_int(a, 16, true, v)) return false; break;
    case 'U': if (!conv::ref_int(a, 16, false, v)) return false; break;
    case 'i': if (!conv::ref_int(a, 32, true, v)) return false; break;
    case 'I': if (!conv::ref_int(a, 32, false, v)) return false; break;
    case 'h': if (!conv::ref_int(a, 64, true, v)) return false; break;
    case 'H': if (!conv::ref_int(a, 64, false, v)) return false; break;
    case 'f': out = mk_f((float)conv::ref_double(a, true)); return true;
    case 'd': out = mk_d(conv::ref_double(a, false)); return true;
    case 'T': out = mk(conv::ref_bool(a) ? 'T' : 'F'); return true;
    case 's':
        if (a.tt == 'b') out = mk_s(a.s.c_str());
        else if (a.tt == 'c' || a.tt == 'C') out = mk_s(a.i >= 32 && a.i < 127 ? std::string(1, (char)a.i) : strf("%d", (int)a.i));
        else out = mk_s(text_of(a));
        return true;
    case 'b': {
        std::string p = enc(a);
        if (a.tt == 'b' || a.tt == 's') p = a.s;
        else if (a.tt == 'c' || a.tt == 'C') p = p.substr(3);
        else if (a.tt == 'u' || a.tt == 'U') p = p.substr(2);
        out = mk('b');
        out.s = p;
        return true;
    }
    }
    out = mk(t, v);
    return true;
}
static void note_cast(Ctx &c, const VList &l, char t) {
    for (auto &a : l)
        if (a.tt != t) c.nontrivial = true;
}
static void t_cast(Ctx &c) {
    Q q{c, {}};
    static const char *F[] = {"int8", "char", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "string"};
    static const char T[] = "ccuihCUIHfdTs";
    int k = c.s.below(13);
    VList l, w;
    int n = c.s.count(0, 4);
    for (int i = 0; i < n; i++) {
        MAtom a = conv::gen_value(c), o;
        if (!cast_to(a, T[k], o)) {
            a = mk('i', gen_int(c, 'i'));
            cast_to(a, T[k], o);
        }
        l.push_back(a);
        w.push_back(o);
    }
    note_cast(c, l, T[k]);
    c.label(F[k]);
    q.want(f(c, F[k], {q.arg(l)}), w);
}
static void t_blob(Ctx &c) {
    Q q{c, {}};
    VList l;
    MAtom w = mk('b');
    if (c.s.chance(15)) {
        GenOpt o;
        o.depth = 1;
        MAtom b = mk_bndl(gen_bundle(c, o));
        w.s = enc_bundle(b.b, 0);
        l.push_back(b);
        c.label("bundle");
    } else {
        int n = c.s.size(12);
        for (int i = 0; i < n; i++) {
            MAtom a = c.s.chance(70) ? mk(c.s.pickc("iihcCu"), (int64_t)c.s.range(-128, 255)) : conv::gen_value(c);
            if (strchr("cCu", a.tt)) a.i = ex::trunc_to(a.tt, a.i);
            int64_t v;
            if (!conv::ref_int(a, 8, true, v)) a = mk_i(v = 5);
            l.push_back(a);
            w.s += (char)v;
        }
    }
    c.nontrivial = l.size() > 1;
    q.want(f(c, "blob", {q.arg(l)}), {w});
}
static void t_dyncast(Ctx &c) {
    Q q{c, {}};
    VList tags, l, w;
    int n = c.s.range(1, 5);
    bool one = c.s.chance(40), bad = false;
    char t = 0;
    for (int i = 0; i < n; i++) {
        if (!one || !i) t = c.s.chance(4) ? c.s.pickc("xz[ ") : c.s.pickc("cCuUiIhHfdsb");
        if (!one || !i) tags.push_back(mk('c', t));
        MAtom a = conv::gen_value(c), o;
        if (strchr("xz[ ", t)) {
            bad = true;
            l.push_back(a);
            continue;
        }
        if (t == 'b' && strchr("TFN", a.tt)) a = mk_i(3);
        if (!cast_to(a, t, o)) {
            a = mk('i', gen_int(c, 'i'));
            cast_to(a, t, o);
        }
        l.push_back(a);
        w.push_back(o);
        if (a.tt != t) c.nontrivial = true;
    }
    std::string text = f(c, "cast", {q.arg(tags), q.arg(l)});
    if (bad) return q.fails(text);
    q.want(text, w);
}
static void t_typetags(Ctx &c) {
    Q q{c, {}};
    GenOpt o;
    o.depth = 1;
    o.max_msgs = 2;
    VList l, w;
    int n = c.s.count(0, 6);
    for (int i = 0; i < n; i++) l.push_back(gen_atom(c, o, 1));
    for (auto &a : l) w.push_back(mk('c', a.tt));
    c.nontrivial = n > 1;
    std::string a = q.arg(l);
    if (c.s.chance(30)) {
        // a value cast to the types it has is unchanged
        bool ok = n > 0;
        for (auto &x : l) ok = ok && strchr("cCuUiIhHfdsb", x.tt);
        if (ok) {
            c.label("identity cast");
            return q.want("cast(typetags(" + a + "), " + a + ")", l);
        }
    }
    q.want("typetags(" + a + ")", w);
}
static void t_order(Ctx &c) {
    Q q{c, {}};
    bool wide = c.s.chance(50);
    VList l, w, back;
    int n = c.s.count(1, 4);
    bool bad = false;
    for (int i = 0; i < n; i++) {
        char t = c.s.chance(4) ? c.s.pickc(wide ? "fdsT" : "hHfdsT") : c.s.pickc(wide ? "cCuUiIhH" : "cCuUiI");
        MAtom a = strchr("fdsT", t) ? gen_atom(c, GenOpt(), 0, t) : mk(t, gen_int(c, t));
        l.push_back(a);
        if (strchr(wide ? "fdsT" : "hHfdsT", t)) {
            bad = true;
            continue;
        }
        bool sgn = strchr("cuih", t);
        uint64_t v = (uint64_t)a.i, r = 0;
        int bytes = wide ? 8 : 4;
        for (int b = 0; b < bytes; b++) r = r << 8 | (v >> (8 * b) & 255);
        char ot = wide ? (sgn ? 'h' : 'H') : sgn ? 'i' : 'I';
        w.push_back(mk(ot, ex::trunc_to(ot, (int64_t)r)));
        back.push_back(mk(ot, ex::trunc_to(ot, a.i)));
    }
    const char *h = wide ? "hton64" : "hton32", *g = wide ? "ntoh64" : "ntoh32";
    std::string a = q.arg(l);
    if (c.s.chance(50)) std::swap(h, g);
    c.nontrivial = !bad;
    if (bad) return q.fails(f(c, h, {a}));
    if (c.s.chance(50)) q.want(f(c, h, {a}), w);
    else q.want(f(c, g, {f(c, h, {a})}), back);
}
static void t_time(Ctx &c) {
    Q q{c, {}};
    uint32_t sec = (uint32_t)c.s.u64(), frac = c.s.chance(30) ? 0 : (uint32_t)c.s.u64();
    VList got;
    std::string text;
    double tol = 4300;
    c.nontrivial = frac != 0;
    switch (c.s.below(4)) {
    case 0: text = f(c, "strtotime", {q.arg({mk_s(fmt_time(sec, frac))})}); break;
    case 1: {
        double d = sec + frac / 4294967295.0;
        if (d >= 4294967296.) throw Discard{};
        bool flt = c.s.chance(30);
        if (flt) d = (float)(d / 4096);
        text = f(c, "floattotime", {q.arg({flt ? mk_f((float)d) : mk_d(d)})});
        sec = (uint32_t)d;
        frac = (uint32_t)((d - sec) * 4294967295.0);
        tol = 2;
        break;
    }
    case 2: // the text of a timetag and back
        text = "strtotime(string(" + q.arg({mk_t(sec, frac)}, false) + "))";
        break;
    default: {
        VList l{c.s.chance(50) ? mk_s(str(c, "ab", 9)) : mk_i(c.s.range(0, 9))};
        text = f(c, "readstring", {q.arg(l)});
        if (l[0].tt == 's') return q.want(text, l);
        return q.fails(text);
    }
    }
    got = q.eval(text);
    CHECK(c, got.size() == 1 && got[0].tt == 't' && got[0].sec == sec && fabs((double)got[0].frac - frac) <= tol, "`%s` on\n%s\nis %s; want about %u.%08x", text.c_str(),
          dump(q.m).c_str(), ex::dump(got).c_str(), sec, frac);
}
static void t_match(Ctx &c) {
    Q q{c, {}};
    static const char *CH = "abc";
    VList pats, addrs, w;
    std::vector<std::vector<PSeg>> ps;
    int np = c.s.range(1, 3), na = c.s.range(0, 5);
    for (int i = 0; i < np; i++) {
        std::vector<PSeg> p;
        int n = c.s.range(1, 3);
        for (int j = 0; j < n; j++) p.push_back(gen_pseg(c, CH));
        for (auto &x : p)
            if (x.empty()) x = lit_seg("a");
        ps.push_back(p);
        pats.push_back(mk_s(render(p)));
    }
    for (int i = 0; i < na; i++) {
        auto &p = ps[c.s.below(np)];
        std::string a;
        int n = c.s.chance(60) ? (int)p.size() : c.s.range(1, 3);
        for (int j = 0; j < n; j++) {
            std::string g = j < (int)p.size() ? gen_instance(c, p[j], CH) : std::string(1, c.s.pickc(CH));
            a += "/" + (g.empty() ? "a" : g);
        }
        addrs.push_back(mk_s(a));
    }
    for (auto &p : ps) {
        MMsg pat{"/pattern", {mk_s(render(p))}}, full{"/full", {}}, part{"/partial", {}}, un{"/unmatched", {}};
        for (auto &a : addrs) {
            int r = ref_match(p, a.s).r;
            (r == 3 ? full : r == 1 ? part : un).args.push_back(a);
            if (r == 1 || r == 3) c.nontrivial = true;
        }
        w.push_back(mk_bndl({pat, full, part, un}));
    }
    q.want(f(c, "match", {q.arg(pats, false), q.arg(addrs, false)}), w);
}
// strings longer than a stack
static void t_long(Ctx &c) {
    size_t n = c.s.chance(30) ? c.s.range(1, 100000) : 8400000 + c.s.range(0, 9999);
    std::string s(n, (char)c.s.range('a', 'z'));
    s[c.s.below(n)] = '-';
    s[n - 1] = 'x';
    int k = c.s.below(5);
    static const char *T[] = {"/s + \"tail\"", "\"head\" + /s", "/s + 5", "5 + /s", "strlen(/s)"};
    VList want = {k == 0 ? mk_s(s + "tail") : k == 1 ? mk_s("head" + s) : k == 2 ? mk_s(s + "5") : k == 3 ? mk_s("5" + s) : mk('h', (int64_t)n)};
    c.note(strf("%s on a string of %zu characters", T[k], n));
    ex::Run r = ex::run(T[k], enc_bundle({{"/s", {mk_s(s)}}}, 7));
    CHECK(c, r.parsed && !r.err && r.out.size() == 1, "%s fails", T[k]);
    CHECK(c, r.out[0].tt == want[0].tt && r.out[0].s == want[0].s && r.out[0].i == want[0].i, "%s gives another value (%zu characters)", T[k], r.out[0].s.size());
    c.nontrivial = n > 1000;
}

namespace pt {
Property property = {
    "P34",
    "calls of the string functions, casts, byte-order and time functions and match() on generated strings (empty, repetitive, any bytes), "
    "values of every type with weight on numeric strings and the limits of the integer types, as literals and as messages; the oracles are "
    "the C++ string operations, the conversion table of P05 and the pattern matcher of P06. Non-trivial: at least two pieces, a change of "
    "type, a match, or a nonzero fraction",
    {{"strlen", 2000, t_strlen}, {"strchar", 3000, t_strchar}, {"strfind", 3000, t_strfind}, {"strcmp", 3000, t_strcmp}, {"split", 4000, t_split}, {"join", 4000, t_join},
     {"split and join", 3000, t_inverse}, {"cast", 6000, t_cast}, {"blob", 2000, t_blob}, {"cast by typetags", 4000, t_dyncast}, {"typetags", 2000, t_typetags},
     {"byte order", 3000, t_order}, {"time", 3000, t_time}, {"match", 4000, t_match}, {"long", 1, t_long}},
    {"conversions of floating-point numbers out of the integer type's range are not specified by C"},
    250000, 15000000,
};
}
