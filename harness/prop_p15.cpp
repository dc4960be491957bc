// P15: the line-based text form parses to the bundle it spells
// uses: fmt.cpp
#include "fmt.hpp"
using namespace pt;
extern "C" t_osc_err osc_legacy_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);

static std::string blank(Ctx &c, bool need) {
    std::string r = need ? c.s.chance(80) ? " " : "\t" : "";
    int n = c.s.chance(75) ? 0 : 1 + (int)c.s.below(3);
    while (n--) r += c.s.pickc(" \t");
    return r;
}
static std::string eol(Ctx &c) {
    std::string r = blank(c, false) + "\n";
    int n = c.s.chance(70) ? 0 : (int)c.s.below(4);
    while (n--) r += c.s.pickc(" \t\n");
    return r;
}
static const char *WORD = "abcxyzABC_-.~!@$%^&*()=+;?<>/|0129";
static bool word_like(const std::string &s) { // an unquoted word that is read as a string
    if (s.empty() || s[0] == '/' || s[0] == '\'') return false;
    bool letter = false;
    for (char ch : s) {
        if (!strchr(WORD, ch)) return false;
        if (strchr("xyzABC_~!@$%^&*()=;?<>|", ch)) letter = true; // no number has these
    }
    return letter && s.compare(0, 2, "0x") && s.compare(0, 3, "-0x");
}
struct Line { MBundle b; std::string text; };
static MBundle gen(Ctx &c, int depth, std::string &text, int maxmsgs);
static MAtom value(Ctx &c, int depth, std::string &text) {
    GenOpt o;
    o.special_floats = false;
    MAtom a;
    switch (c.s.weighted({3, 3, 3, 2, 2, 2, 1, 1, depth > 0 ? 3 : 0, 1})) {
    case 0: // an integer, of the size it needs
        if (c.s.chance(80)) a = mk_i((int32_t)gen_int(c, 'i'));
        else if (c.s.chance(70)) {
            int64_t v = gen_int(c, 'h');
            a = v == (int32_t)v ? mk_i((int32_t)v) : mk('h', v);
        } else a = mk('H', (int64_t)(c.s.u64() | 1ull << 63));
        text += a.tt == 'H' ? strf("%llu", (unsigned long long)a.i) : strf("%lld", (long long)a.i);
        break;
    case 1: { // a double
        static const char *const f[] = {"%.17e", "%.17E", "%.6f", "%.0f.", "%.1f"};
        double d = gen_double(c, false);
        if (!std::isfinite(d) || fabs(d) > 1e200) d = 2.5;
        std::string t = strf(f[c.s.below(5)], d);
        a = mk_d(strtod(t.c_str(), nullptr));
        text += t;
        break;
    }
    case 2: { // a quoted string
        a = mk_s(gen_string(c, o));
        text += "\"";
        for (char ch : a.s) {
            if (ch == '"' || ch == '\\' || c.s.chance(10)) text += '\\';
            text += ch;
        }
        text += "\"";
        c.label("quoted");
        break;
    }
    case 3: { // a word
        std::string w;
        do {
            w = "";
            int n = 1 + c.s.size(6);
            while (n--) w += c.s.pickc(WORD);
            if (c.s.chance(50)) w += "x_";
        } while (!word_like(w) && (w = "word", false));
        if (!word_like(w)) w = "wordx";
        a = mk_s(w);
        text += w;
        break;
    }
    case 4: { // an unquoted string with escaped characters
        int n = 1 + c.s.size(6);
        bool any = false;
        for (int i = 0; i < n; i++) {
            bool esc = (i == n - 1 && !any) || c.s.chance(40);
            char ch = esc ? c.s.pickc(" \\\":[]{},ab'\n") : c.s.pickc("abcxyz01");
            if (i == 0 && !esc) ch = 'x';
            any |= esc;
            if (esc) text += '\\';
            text += ch;
            a.s += ch;
        }
        a.tt = 's';
        c.label("escaped word");
        break;
    }
    case 5: {
        static const char *const t[] = {"true", "True", "TRUE"}, *const f[] = {"false", "False", "FALSE"};
        int k = (int)c.s.below(3);
        if (c.s.chance(50)) a = mk('T'), text += t[k];
        else a = mk('F'), text += f[k];
        break;
    }
    case 6: {
        char ch = (char)(33 + c.s.below(94));
        a = mk('c', ch);
        text += std::string("'") + ch + "'";
        break;
    }
    case 7: {
        a = mk_t((uint32_t)c.s.u64(), 0);
        text += fmt_time(a.sec, 0);
        break;
    }
    case 8: {
        c.label("sub-bundle");
        text += "[";
        text += c.s.chance(50) ? blank(c, false) : eol(c);
        MBundle b = gen(c, depth - 1, text, 3);
        text += "]";
        a = mk_bndl(b);
        break;
    }
    default: { // an address
        std::string s = gen_addr(c, o);
        s.erase(std::remove_if(s.begin(), s.end(), [](char ch) { return strchr(" \t\n#\":[]", ch); }), s.end());
        if (s.size() < 2) s = "/a";
        a = mk_s(s);
        text += s;
    }
    }
    return a;
}
static MBundle gen(Ctx &c, int depth, std::string &text, int maxmsgs) {
    MBundle b;
    GenOpt o;
    int n = c.s.size(maxmsgs);
    for (int i = 0; i < n; i++) {
        MMsg m;
        m.addr = gen_addr(c, o);
        m.addr.erase(std::remove_if(m.addr.begin(), m.addr.end(), [](char ch) { return strchr(" \t\n#\":", ch); }), m.addr.end());
        if (m.addr.size() < 2) m.addr = "/a";
        text += blank(c, false) + m.addr;
        int k = c.s.size(4);
        for (int j = 0; j < k; j++) {
            text += blank(c, true);
            m.args.push_back(value(c, depth, text));
        }
        text += eol(c);
        b.push_back(m);
    }
    return b;
}
static bool same(const MAtom &a, const MAtom &g) {
    if (a.tt != g.tt) return false;
    if (a.tt == '.') {
        if (a.b.size() != g.b.size()) return false;
        for (size_t i = 0; i < a.b.size(); i++) {
            if (a.b[i].addr != g.b[i].addr || a.b[i].args.size() != g.b[i].args.size()) return false;
            for (size_t k = 0; k < a.b[i].args.size(); k++)
                if (!same(a.b[i].args[k], g.b[i].args[k])) return false;
        }
        return true;
    }
    return a == g;
}
static void lines(Ctx &c) {
    std::string text;
    MBundle b = gen(c, c.s.chance(10) ? 4 : 2, text, c.s.chance(10) ? 12 : 4);
    c.note(text);
    c.nontrivial = b.size() >= 2 && text.size() >= 15;
    Buf in(text + std::string(1, '\0'));
    t_osc_bndl_u *r = nullptr;
    t_osc_err e = osc_legacy_parser_parseString((long)text.size(), in.p, &r);
    CHECK(c, e == 0 && r, "parsing gives error %d:\n%s", (int)e, text.c_str());
    MBundle got = read_bundle(r);
    CHECK(c, same(mk_bndl(b), mk_bndl(got)), "\n%s\nparses to\n%s\nwant\n%s", text.c_str(), dump(got).c_str(), dump(b).c_str());
    CHECK(c, osc_bundle_u_getMsgCount(r) == (int)b.size(), "message count %d", osc_bundle_u_getMsgCount(r));
    t_osc_bndl_s *s = osc_bundle_u_serialize(r);
    std::string w(osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
    CHECK(c, w == enc_bundle(b), "the parsed bundle serialises to\n%s\nwant\n%s", show(w).c_str(), show(enc_bundle(b)).c_str());
    osc_bundle_s_deepFree(s);
    osc_bundle_u_free(r);
}
// sub-bundles that are longer than the stack is large
static void large(Ctx &c) {
    size_t n = c.s.below(2) ? (8u << 20) + c.s.below(1u << 20) : c.s.below(9000);
    std::string big(n, 'a'), text;
    MBundle b, in;
    int pos = (int)c.s.below(3);
    for (int i = 0; i < 3; i++) {
        MMsg m;
        m.addr = strf("/m%d", i);
        text += m.addr;
        if (i == pos) {
            m.args.push_back(mk_s(big));
            text += " \"" + big + "\"";
        }
        m.args.push_back(mk_i(i));
        text += strf(" %d\n", i);
        in.push_back(m);
    }
    // the first of the values, a later one, or a bundle in a bundle
    MMsg m;
    m.addr = "/o";
    int how = (int)c.s.below(3);
    bool nl = c.s.below(2);
    text = std::string("[") + (nl ? "\n" : "") + text + "]";
    if (how == 1) m.args.push_back(mk_i(1)), text = "1 " + text;
    if (how == 2) {
        text = "[/i " + text + "\n]";
        MMsg i;
        i.addr = "/i";
        i.args.push_back(mk_bndl(in));
        in = {i};
    }
    m.args.push_back(mk_bndl(in));
    text = "/o " + text + "\n";
    b.push_back(m);
    c.note(strf("%zu times a in message %d, form %d", n, pos, how));
    c.nontrivial = true;
    Buf buf(text + std::string(1, '\0'));
    t_osc_bndl_u *r = nullptr;
    t_osc_err e = osc_legacy_parser_parseString((long)text.size(), buf.p, &r);
    CHECK(c, e == 0 && r, "parsing gives error %d", (int)e);
    t_osc_bndl_s *s = osc_bundle_u_serialize(r);
    std::string w(osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
    CHECK(c, w == enc_bundle(b), "the parsed bundle serialises to other bytes");
    osc_bundle_s_deepFree(s);
    osc_bundle_u_free(r);
}
namespace pt {
Property property = {
    "P15", "texts of at least 15 characters with two messages",
    {{"lines", 60000, lines}, {"large", 1, large}},
    {"every message ends in a newline and the text does not begin with one, as the grammar has it",
     "addresses hold no white space, '#', '\"' or ':'"},
    300000, 15000000,
};
}
