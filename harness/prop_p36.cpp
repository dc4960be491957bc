// P36: quoting for text output
#include "model.hpp"
using namespace pt;
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
extern "C" {
t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);
t_osc_err osc_legacy_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);
}

static std::string gen(Ctx &c) {
    std::string r;
    int n = c.s.chance(10) ? c.s.size(300) : c.s.size(12);
    int mode = c.s.weighted({4, 2, 1, 1});
    while (n--)
        switch (mode) {
        case 0: r += c.s.pickc("a\"\\\n'n{}[]#:, %sx/1."); break;
        case 1: r += (char)(1 + c.s.below(255)); break;
        case 2: r += c.s.pickc("\"\\"); break;
        case 3: r += c.s.pickc("ab \\"); break;
        }
    return r;
}
static bool meta(char ch) { return ch == '"' || ch == '\\'; }
static std::string quote(const std::string &s) {
    std::string r;
    for (char ch : s) {
        if (meta(ch)) r += '\\';
        r += ch;
    }
    return r;
}
static void note(Ctx &c, const std::string &s) { c.note("string " + show(s)); }
static bool special(const std::string &s) { return s.find_first_of("\"\\") != std::string::npos; }

typedef int (*Fn)(char *, size_t, char *);
// `want` in a buffer of n bytes: the full length reported, a terminated prefix written, nothing beyond
static void in_buffer(Ctx &c, const char *name, Fn fn, const std::string &s, const std::string &want) {
    Buf str(s + std::string(1, '\0'));
    int len = fn(NULL, 0, str.p);
    CHECK(c, len == (int)want.size(), "%s with no buffer reports %d for %s: want %zu", name, len, show(s).c_str(), want.size());
    int sel = c.s.weighted({2, 3, 2});
    size_t n = sel == 0 ? want.size() + 1 : sel == 1 ? c.s.below(want.size() + 2) : want.size() + 2 + c.s.below(8);
    size_t before = c.s.below(3); // so that the buffer need not be aligned
    Buf b(std::string(before, 'B') + std::string(n, 'Z'));
    len = fn(b.p + before, n, str.p);
    CHECK(c, len == (int)want.size(), "%s into %zu bytes reports %d for %s: want %zu", name, n, len, show(s).c_str(), want.size());
    for (size_t i = 0; i < before; i++) CHECK(c, b.p[i] == 'B', "%s writes before its buffer", name);
    if (n) {
        size_t k = std::min(n - 1, want.size());
        CHECK(c, memchr(b.p + before, 0, n), "%s into %zu bytes leaves no terminator for %s", name, n, show(s).c_str());
        CHECK(c, std::string(b.p + before) == want.substr(0, k), "%s into %zu bytes writes %s for %s: want %s", name, n, show(b.p + before).c_str(), show(s).c_str(),
              show(want.substr(0, k)).c_str());
        for (size_t i = k + 1; i < n; i++) CHECK(c, b.p[before + i] == 'Z', "%s writes byte %zu of its buffer, after the terminator at %zu", name, i, k);
    }
    if (n <= want.size()) c.label("truncated");
    CHECK(c, s == str.p, "%s changes its input", name);
}
static void t_quote(Ctx &c) {
    std::string s = gen(c);
    note(c, s);
    c.nontrivial = special(s);
    switch (c.s.below(3)) {
    case 0: in_buffer(c, "quotedStringWithQuotedMeta", osc_strfmt_quotedStringWithQuotedMeta, s, "\"" + quote(s) + "\""); break;
    case 1: in_buffer(c, "stringWithQuotedMeta", osc_strfmt_stringWithQuotedMeta, s, quote(s)); break;
    case 2: in_buffer(c, "quotedString", osc_strfmt_quotedString, s, "\"" + s + "\""); break;
    }
    CHECK(c, osc_strfmt_quotedStringWithQuotedMeta(NULL, 0, NULL) == 0 && osc_strfmt_stringWithQuotedMeta(NULL, 0, NULL) == 0, "no string: not 0");
}
// the first len bytes of a buffer that need not be terminated
static void t_alloc(Ctx &c) {
    std::string s = gen(c);
    int len = (int)c.s.below(s.size() + 1);
    if (c.s.chance(60)) len = (int)s.size();
    s.resize(len);
    note(c, s);
    c.nontrivial = special(s);
    Buf in(s);
    int m = 0;
    for (char ch : s) {
        m += meta(ch);
        CHECK(c, !!osc_strfmt_isMeta(ch) == meta(ch), "isMeta(%s) is %d", show(std::string(1, ch)).c_str(), osc_strfmt_isMeta(ch));
    }
    CHECK(c, osc_strfmt_countMeta(len, in.p) == m, "countMeta counts %d of %d in %s", osc_strfmt_countMeta(len, in.p), m, show(s).c_str());
    std::string want = "\"" + quote(s) + "\"";
    bool own = c.s.chance(40);
    char *out = own ? (char *)malloc(want.size() + 1) : NULL;
    char *given = out;
    int n = osc_strfmt_addQuotesAndQuoteMeta(len, in.p, &out);
    CHECK(c, n == (int)want.size(), "addQuotesAndQuoteMeta reports %d for %s: want %zu", n, show(s).c_str(), want.size());
    CHECK(c, out && (!own || out == given), "addQuotesAndQuoteMeta does not use the buffer it is given");
    CHECK(c, want == out, "addQuotesAndQuoteMeta writes %s for %s", show(out).c_str(), show(s).c_str());
    if (own) free(out);
    else osc_mem_free(out);
}
// what was quoted is read back by the library's parsers, and by the value formatter's round trip
static void t_parse(Ctx &c) {
    std::string s = gen(c);
    note(c, s);
    c.nontrivial = special(s);
    bool legacy = c.s.chance(50);
    std::string q((size_t)osc_strfmt_quotedStringWithQuotedMeta(NULL, 0, (char *)s.c_str()) + 1, '\0');
    if (c.s.chance(50)) osc_strfmt_quotedStringWithQuotedMeta(&q[0], q.size(), (char *)s.c_str());
    else { // as a value is printed
        t_osc_atom_u *a = osc_atom_u_alloc();
        osc_atom_u_setString(a, s.c_str());
        long n = osc_atom_u_nformat(NULL, 0, a, 0);
        CHECK(c, n == (long)q.size() - 1, "the value prints in %ld bytes, quoted it has %zu: %s", n, q.size() - 1, show(s).c_str());
        osc_atom_u_nformat(&q[0], q.size(), a, 0);
        osc_atom_u_free(a);
    }
    q.resize(q.size() - 1);
    std::string text = (legacy ? "/a " : "/a : ") + q + "\n";
    t_osc_bndl_u *b = NULL;
    t_osc_err e = legacy ? osc_legacy_parser_parseString(text.size(), (char *)text.c_str(), &b) : osc_parser_parseString(text.size(), (char *)text.c_str(), &b);
    CHECK(c, !e && b, "%s of %s fails: %d", legacy ? "legacy parse" : "parse", show(text).c_str(), (int)e);
    MBundle got = read_bundle(b);
    MBundle want{{"/a", {mk_s(s)}}};
    CHECK(c, got == want, "%s of %s gives %s", legacy ? "legacy parse" : "parse", show(text).c_str(), dump(got).c_str());
    osc_bundle_u_free(b);
}
// the other formatters: the length reported, and a terminated prefix in any buffer
static void t_numbers(Ctx &c) {
    std::string want;
    std::function<int(char *, size_t)> fn;
    const char *name;
    int64_t v = gen_int(c, 'h');
    double d = gen_double(c, true);
    switch (c.s.below(9)) {
    case 0: name = "int16", want = strf("%d", (int)(int16_t)v), fn = [=](char *b, size_t n) { return osc_strfmt_int16(b, n, (int16_t)v); }; break;
    case 1: name = "int32", want = strf("%d", (int)(int32_t)v), fn = [=](char *b, size_t n) { return osc_strfmt_int32(b, n, (int32_t)v); }; break;
    case 2: name = "int64", want = strf("%lld", (long long)v), fn = [=](char *b, size_t n) { return osc_strfmt_int64(b, n, v); }; break;
    case 3: name = "uint16", want = strf("%u", (unsigned)(uint16_t)v), fn = [=](char *b, size_t n) { return osc_strfmt_uint16(b, n, (uint16_t)v); }; break;
    case 4: name = "uint32", want = strf("%u", (unsigned)(uint32_t)v), fn = [=](char *b, size_t n) { return osc_strfmt_uint32(b, n, (uint32_t)v); }; break;
    case 5: name = "uint64", want = strf("%llu", (unsigned long long)v), fn = [=](char *b, size_t n) { return osc_strfmt_uint64(b, n, (uint64_t)v); }; break;
    case 6: {
        bool t = v & 1;
        name = "bool", want = t ? "true" : "false", fn = [=](char *b, size_t n) { return osc_strfmt_bool(b, n, t ? 'T' : 'F'); };
        break;
    }
    case 7: name = "null", want = "nil", fn = [=](char *b, size_t n) { return osc_strfmt_null(b, n); }; break;
    default: {
        MAtom a;
        bool whole = d == floor(d) && fabs(d) < 1e6;
        name = "float64", want = strf(whole ? "%g." : "%g", d), fn = [=](char *b, size_t n) { return osc_strfmt_float64(b, n, d); };
        break;
    }
    }
    c.nontrivial = want.size() > 2;
    size_t n = c.s.chance(40) ? want.size() + 1 : c.s.below(want.size() + 3);
    c.note(strf("%s %s into %zu bytes", name, want.c_str(), n));
    int len = fn(NULL, 0);
    CHECK(c, len == (int)want.size(), "%s reports %d for %s", name, len, want.c_str());
    Buf b(std::string(n, 'Z'));
    len = fn(b.p, n);
    CHECK(c, len == (int)want.size(), "%s into %zu bytes reports %d for %s", name, n, len, want.c_str());
    if (n) CHECK(c, memchr(b.p, 0, n) && std::string(b.p) == want.substr(0, n - 1), "%s into %zu bytes writes %s for %s", name, n, hex(b.p, n).c_str(), want.c_str());
}
static void t_padded(Ctx &c) {
    std::string s = gen(c);
    note(c, s);
    c.nontrivial = s.size() > 3;
    Buf b(s + std::string(1, '\0'));
    CHECK(c, osc_strfmt_strlenPadded(b.p) == (int)padstr(s).size(), "strlenPadded(%s) is %d", show(s).c_str(), osc_strfmt_strlenPadded(b.p));
}

namespace pt {
Property property = {"P36",
                     "the string has a quote or a backslash (a number of more than two characters; a string longer than its padding)",
                     {{"quote", 6, t_quote}, {"allocated", 3, t_alloc}, {"parsed", 4, t_parse}, {"numbers", 2, t_numbers}, {"padded", 1, t_padded}},
                     {"strings hold no NUL byte", "addQuotesAndQuoteMeta is given no buffer or one that is large enough, as its only protocol allows"},
                     1200000,
                     30000000};
}
