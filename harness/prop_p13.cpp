// P13: the printed form of a bundle parses back to the same bundle
// uses: fmt.cpp
#include "fmt.hpp"
using namespace pt;
extern "C" {
t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);
t_osc_bndl_u *osc_parser_parseString_r(long len, char *ptr);
}

static GenOpt opts(Ctx &c) {
    GenOpt o;
    o.types = c.s.chance(50) ? "ifdshHIcCuUTFNt." : "ssidhtT.";
    o.special_floats = false;
    o.max_str = c.s.chance(15) ? 60 : 10;
    o.max_args = c.s.chance(10) ? 20 : 4;
    o.max_msgs = c.s.chance(10) ? 15 : 4;
    static const int depths[] = {0, 1, 2, 4};
    o.depth = depths[c.s.weighted({2, 4, 3, 1})];
    if (o.depth == 4) o.max_msgs = 2, o.max_args = 2;
    if (c.s.chance(30)) o.seg_chars = "ab.:_-!$%&()+<=>@^`|~;?*[]{}\"'\\0129";
    return o;
}
static bool number(char tt) { return strchr("iIhHuUcCfd", tt) && tt; }
static bool is_int(const MAtom &a) { return strchr("iIhHuU", a.tt) && a.tt; }

// is got the value that a's text spells?
static bool spells(const MAtom &a, const MAtom &got, std::string &why) {
    switch (a.tt) {
    case 'i': case 'u': case 'h': case 'I': case 'U': case 'H':
        if (!is_int(got)) return false;
        if (a.tt == 'H' && a.i < 0) return got.tt == 'H' && got.i == a.i;
        return got.tt != 'H' ? got.i == a.i : (got.i >= 0 && got.i == a.i);
    case 'c': case 'C':
        return (got.tt == 'c' || got.tt == 'C') && (char)got.i == (char)a.i;
    case 'f': case 'd': {
        double want = strtod(strf("%g", a.tt == 'f' ? (double)a.f : a.d).c_str(), nullptr);
        if (got.tt == 'd') return got.d == want && std::signbit(got.d) == std::signbit(want);
        if (got.tt == 'f') return got.f == (float)want;
        return is_int(got) && (double)got.i == want;
    }
    case 's': return got.tt == 's' && got.s == a.s;
    case 'T': case 'F': case 'N': return got.tt == a.tt;
    case 't': {
        // to the printed microsecond
        if (got.tt != 't') return false;
        double us = floor((double)a.frac / 4294967295.0 * 1e6 + .5);
        if (us > 999999) us = 999999;
        double x = (double)got.frac / 4294967296.0 * 1e6 - us;
        return got.sec == a.sec && x > -.01 && x < .01;
    }
    case '.': {
        if (got.tt != '.' || got.b.size() != a.b.size()) return false;
        for (size_t i = 0; i < a.b.size(); i++) {
            if (a.b[i].addr != got.b[i].addr || a.b[i].args.size() != got.b[i].args.size()) return false;
            for (size_t j = 0; j < a.b[i].args.size(); j++)
                if (!spells(a.b[i].args[j], got.b[i].args[j], why)) {
                    if (why.empty()) why = strf("%s became %s", dump(a.b[i].args[j]).c_str(), dump(got.b[i].args[j]).c_str());
                    return false;
                }
        }
        return true;
    }
    }
    return false;
}
static void round(Ctx &c) {
    GenOpt o = opts(c);
    MBundle b = gen_bundle(c, o);
    if (b.empty()) b.push_back(gen_msg(c, o, o.depth));
    spellable(b);
    std::string want = fmt_bundle(b);
    c.note(want);
    c.nontrivial = want.size() >= 20 && (b.size() >= 2 || b[0].args.size() >= 2);
    for (auto &m : b)
        for (auto &a : m.args) {
            if (a.tt == '.') c.label("nested");
            if (a.tt == 's' && a.s.find_first_of("\"\\") != std::string::npos) c.label("escaped string");
            if (number(a.tt)) c.label("number");
        }
    char *text;
    if (c.s.chance(50)) {
        std::string w = enc_bundle(b);
        Buf in(w);
        text = osc_bundle_s_format(in.n, in.p);
    } else {
        t_osc_bndl_u *u = build_bundle(b);
        text = osc_bundle_u_format(u);
        osc_bundle_u_free(u);
    }
    t_osc_bndl_u *r = nullptr;
    if (c.s.chance(20)) r = osc_parser_parseString_r(strlen(text), text);
    else {
        t_osc_err e = osc_parser_parseString(strlen(text), text, &r);
        CHECK(c, e == 0, "parsing gives error %d:\n%s", (int)e, text);
    }
    CHECK(c, r != nullptr, "parsing gives nothing:\n%s", text);
    MAtom x = mk_bndl(b), y = mk_bndl(read_bundle(r));
    std::string why;
    CHECK(c, spells(x, y, why), "%s\n%s\nparses to\n%s", why.c_str(), text, dump(y.b).c_str());
    CHECK(c, osc_bundle_u_getMsgCount(r) == (int)b.size(), "message count %d", osc_bundle_u_getMsgCount(r));
    // the same text again, in both representations
    char *again = osc_bundle_u_format(r);
    CHECK(c, !strcmp(text, again), "printed again:\n%s\nwas\n%s", again, text);
    t_osc_bndl_s *s = osc_bundle_u_serialize(r);
    must_decode(c, "the parsed bundle", osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
    char *third = osc_bundle_s_format(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s));
    CHECK(c, !strcmp(text, third), "printed from the serialised form:\n%s\nwas\n%s", third, text);
    osc_mem_free(third);
    osc_bundle_s_deepFree(s);
    osc_mem_free(again);
    osc_mem_free(text);
    osc_bundle_u_free(r);
}
// hand-spelled text: the grammar's freedom of white space, number forms and empty bundles
static std::string ws(Ctx &c, const char *need = "") {
    std::string r = need;
    int n = c.s.chance(60) ? 0 : 1 + (int)c.s.below(3);
    while (n--) r += c.s.pickc(" \t\n");
    return r;
}
static std::string spell(Ctx &c, MBundle &b);
static std::string spell(Ctx &c, MAtom &a) {
    switch (a.tt) {
    case '.': return a.b.empty() ? "{" + ws(c) + "}" : "{" + ws(c) + spell(c, a.b) + ws(c, " ") + "}";
    case 's': {
        // an address as a value needs no quotes
        if (c.s.chance(15)) return (a.s = "/" + gen_seg(c, GenOpt())) + "\n";
        std::string r = "\"";
        for (char ch : a.s) {
            if (ch == '"' || ch == '\\' || (ch != '\n' && c.s.chance(10))) r += '\\';
            r += ch;
        }
        return r + "\"";
    }
    case 'I': { // hexadecimal
        return strf(c.s.chance(50) ? "0x%x" : "0X%X", (uint32_t)a.i);
    }
    case 'H': return strf("0x%09llx", (unsigned long long)a.i);
    case 'd': {
        static const char *const f[] = {"%.17e", "%.17E", "%.20g.", "%.17g"};
        std::string r = strf(f[c.s.below(2)], a.d);
        return r;
    }
    }
    return fmt_atom(a);
}
static std::string spell(Ctx &c, MBundle &b) {
    std::string r;
    for (size_t i = 0; i < b.size(); i++) {
        if (i) r += ws(c) + "," + ws(c, b[i - 1].args.empty() ? "\n" : ""); // a comma may stand in an address
        r += b[i].addr;
        auto &args = b[i].args;
        if (args.empty()) {
            continue;
        }
        r += ws(c, " ") + ":" + ws(c);
        bool list = args.size() > 1 || c.s.chance(30);
        if (list) r += "[" + ws(c);
        for (size_t k = 0; k < args.size(); k++) {
            if (k) r += ws(c) + "," + ws(c);
            r += spell(c, args[k]);
        }
        if (list) r += ws(c) + "]";
    }
    return r;
}
static bool same(const MAtom &a, const MAtom &g, std::string &why) {
    bool ok;
    if (a.tt == '.') {
        ok = g.tt == '.' && a.b.size() == g.b.size();
        for (size_t i = 0; ok && i < a.b.size(); i++) {
            ok = a.b[i].addr == g.b[i].addr && a.b[i].args.size() == g.b[i].args.size();
            for (size_t k = 0; ok && k < a.b[i].args.size(); k++) ok = same(a.b[i].args[k], g.b[i].args[k], why);
        }
    } else if (a.tt == 'd') ok = g.tt == 'd' && g.d == a.d;
    else if (a.tt == 'I' || a.tt == 'H') ok = g.tt == a.tt && g.i == a.i;
    else { std::string w; ok = spells(a, g, w); }
    if (!ok && why.empty() && a.tt != '.') why = strf("%s became %s", dump(a).c_str(), dump(g).c_str());
    return ok;
}
static void spelled(Ctx &c) {
    GenOpt o;
    o.types = "idsIHTFNch.CuU";
    o.special_floats = false;
    o.max_msgs = 4;
    o.max_args = 4;
    MBundle b = gen_bundle(c, o, 2);
    if (b.empty()) b.push_back(gen_msg(c, o, 1));
    spellable(b);
    std::string text = ws(c) + spell(c, b) + ws(c);
    c.note(text);
    c.nontrivial = text.size() >= 20 && b.size() >= 2;
    Buf in(text + std::string(1, '\0'));
    t_osc_bndl_u *r = nullptr;
    t_osc_err e = osc_parser_parseString((long)text.size(), in.p, &r);
    CHECK(c, e == 0 && r, "parsing gives error %d:\n%s", (int)e, text.c_str());
    MAtom x = mk_bndl(b), y = mk_bndl(read_bundle(r));
    std::string why;
    CHECK(c, same(x, y, why), "%s\n%s\nparses to\n%s", why.c_str(), text.c_str(), dump(y.b).c_str());
    osc_bundle_u_free(r);
}
namespace pt {
Property property = {
    "P13", "texts of at least 20 characters with two messages or two arguments",
    {{"print and parse", 3, round}, {"spelled text", 2, spelled}},
    {"bundles have at least one message, as the grammar has no empty text",
     "addresses hold no white space and no '#', and do not end in a comma; no blobs, infinities or NaN, which text cannot spell"},
    70000, 5000000,
};
}
