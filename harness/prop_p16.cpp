// P16: any text is parsed or cleanly rejected
// uses: fmt.cpp
#include "fmt.hpp"
using namespace pt;
extern "C" {
t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);
t_osc_bndl_u *osc_parser_parseString_r(long len, char *ptr);
t_osc_err osc_legacy_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);
}
static std::string token(Ctx &c) {
    static const char *const t[] = {"/a", "/a/b", "/a,", "/", ":", ",", "[", "]", "{", "}", "\"", "\"\"", "\"a\"", "\\", "\\\"", "\\\n", "\n", " ", "'a'", "'", "1",
                                    "-1", "0", "00", "1.", ".5", "1e5", "1e999", "-", "0x", "0x1", "0x123456789a", "0xffffffffffffffffffff", "99999999999999999999999", "5000000000",
                                    "true", "false", "nil", "True", "abc", "#", "# x\n", "2012-05-01T12:30:00Z", "2012-05-01T12:30:00.5Z", "2012-05-T12:30:00",
                                    "-12012-12-31T23:59:59+01:00", "%s%n", "\xff", "\x80", "\t", "{}[", "]:", "/b : 1", "/b 1\n", "/c : [1, 2]", "/d : {\n/e\n}", "\"a\\\"b\"", "\"a\\\\\""};
    return t[c.s.below(sizeof t / sizeof *t)];
}
static std::string text(Ctx &c, bool legacy) {
    std::string r;
    switch (c.s.weighted({4, 4, 2, 1, 1})) {
    case 0: { // a valid text, with a few edits
        GenOpt o;
        o.max_args = o.max_msgs = 3;
        MBundle b = gen_bundle(c, o, 2);
        r = fmt_bundle(b);
        if (legacy)
            for (auto &ch : r) {
                if (ch == ':' || ch == ',') ch = c.s.chance(90) ? ' ' : ch;
                if (ch == '{') ch = '[';
                if (ch == '}') ch = ']';
            }
        int n = c.s.size(4);
        for (int i = 0; i < n && !r.empty(); i++) {
            size_t p = c.s.below(r.size());
            switch (c.s.below(4)) {
            case 0: r.erase(p, 1 + c.s.below(4)); break;
            case 1: r.insert(p, token(c)); break;
            case 2: r[p] = (char)c.s.u64(); break;
            case 3: r.insert(p, r.substr(c.s.below(r.size()), c.s.below(12))); break;
            }
        }
        if (legacy) r += "\n";
        c.label("edited");
        break;
    }
    case 1: { // tokens in any order
        int n = c.s.size(14);
        while (n--) {
            r += token(c);
            if (c.s.chance(30)) r += " ";
        }
        c.label("tokens");
        break;
    }
    case 2: { // bytes
        int n = c.s.size(30);
        while (n--) r += (char)c.s.u64();
        break;
    }
    case 3: { // deep nesting, closed or not
        bool open = c.s.chance(5); // many, never closed: more than the parser's stack holds
        int n = 1 + c.s.size(open ? 6000 : legacy ? 50 : c.s.chance(2) ? 200 : 60);
        for (int i = 0; i < n; i++) r += legacy ? "/a [" : "/a : {";
        r += legacy ? "/a 1\n" : "/a : 1 ";
        int k = open ? 0 : c.s.chance(70) ? n : (int)c.s.below(n + 2);
        for (int i = 0; i < k; i++) r += legacy ? "]\n" : "}";
        c.label("deep");
        break;
    }
    case 4: { // long tokens
        std::string t = token(c);
        int n = 1 + c.s.size(400);
        if (c.s.chance(50)) r = legacy ? "/a " : "/a : ";
        if (c.s.chance(30)) r += "\"";
        while (n--) r += t;
        if (c.s.chance(50)) r += "\"";
        if (legacy) r += "\n";
        c.label("long");
        break;
    }
    }
    // text ends at its NUL
    size_t z = r.find('\0');
    if (z != std::string::npos) r.resize(z);
    return r;
}
typedef t_osc_err (*parser)(long, char *, t_osc_bndl_u **);

static void good(Ctx &c, parser parse, bool legacy) {
    const char *t = legacy ? "/x 1 \"a b\" [/y 2.5\n]\n/z\n" : "/x : [1, \"a b\", {/y : 2.5}], /z";
    Buf in(std::string(t) + std::string(1, '\0'));
    t_osc_bndl_u *r = nullptr;
    t_osc_err e = parse(in.n - 1, in.p, &r);
    CHECK(c, !e && r, "a correct text is rejected afterwards");
    MBundle want = {{"/x", {mk_i(1), mk_s("a b"), mk_bndl({{"/y", {mk_d(2.5)}}})}}, {"/z", {}}};
    MBundle got = read_bundle(r);
    CHECK(c, mk_bndl(got) == mk_bndl(want), "a correct text parses to %s afterwards", dump(got).c_str());
    osc_bundle_u_free(r);
}
static void run(Ctx &c, bool legacy) {
    std::string t = text(c, legacy);
    c.note(show(t));
    parser parse = legacy ? osc_legacy_parser_parseString : osc_parser_parseString;
    Buf in(t + std::string(1, '\0'));
    bool r_form = !legacy && c.s.chance(25);
    HeapTrack::reset();
    HeapTrack::on();
    t_osc_bndl_u *r = nullptr;
    t_osc_err e = OSC_ERR_NONE;
    if (r_form) r = osc_parser_parseString_r((long)t.size(), in.p);
    else e = parse((long)t.size(), in.p, &r);
    long live = HeapTrack::live();
    HeapTrack::off();
    c.nontrivial = t.size() >= 4;
    if (e) {
        c.label("rejected");
        CHECK(c, !r, "the text is rejected with error %d, and gives a bundle", (int)e);
    }
    if (!r) {
        CHECK(c, e || r_form, "no error and no bundle");
        CHECK(c, live == 0, "%ld blocks remain of a rejected text", live);
    } else {
        c.label("parsed");
        CHECK(c, !strcmp(in.p, t.c_str()), "parsing changed the text");
        t_osc_bndl_s *s = osc_bundle_u_serialize(r);
        MBundle dec = must_decode(c, "the parsed bundle", osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
        CHECK(c, mk_bndl(dec) == mk_bndl(read_bundle(r)), "the parsed bundle and its bytes differ");
        osc_bundle_s_deepFree(s);
        HeapTrack::on();
        osc_bundle_u_free(r);
        live = HeapTrack::live();
        HeapTrack::off();
        CHECK(c, live == 0, "%ld blocks remain of the parse after freeing its bundle", live);
    }
    if (c.s.chance(30)) {
        // and again: the same outcome
        t_osc_bndl_u *r2 = nullptr;
        t_osc_err e2 = parse((long)t.size(), in.p, &r2);
        CHECK(c, r_form || e == e2, "error %d, then %d", (int)e, (int)e2);
        CHECK(c, !r == !r2, "parsed only once");
        if (r2) osc_bundle_u_free(r2);
    }
    good(c, parse, legacy);
}
static void current(Ctx &c) { run(c, false); }
static void legacy(Ctx &c) { run(c, true); }
static void init() { puts(""); printf("%s %f\n", "x", 1.); }
namespace pt {
Property property = {
    "P16", "texts of at least 4 characters",
    {{"bundle text", 3, current}, {"line-based text", 2, legacy}},
    {"text is NUL-terminated"},
    120000, 6000000, {}, 0, init,
};
}
