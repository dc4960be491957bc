// P43: errors are named, located, and delivered to the handler with the caller's context
// uses: expr.cpp
// uses: exgen.cpp
// uses: guard.cpp
#include "pt.hpp"
#include "expr.hpp"
#include "exgen.hpp"
#include "guard.hpp"
#include <set>
extern "C" {
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
}
using namespace pt;

struct Rep {
    void *ctx;
    std::string s;
};
static std::vector<Rep> reps;
static int ret_val;
static int handler(void *ctx, const char *const s) {
    if (reps.size() < 10000) reps.push_back({ctx, s});
    return ret_val;
}
struct Listen {
    Listen() { reps.clear(); osc_error_setHandler(handler); }
    ~Listen() { osc_error_setHandler(nullptr); }
};
static const std::vector<std::pair<t_osc_err, const char *>> &codes() {
    static const std::vector<std::pair<t_osc_err, const char *>> v = {
        {OSC_ERR_NONE, "no error"},
        {OSC_ERR_BUNDLETOOSMALL, "too small"},
        {OSC_ERR_NOBUNDLEID, "#bundle"},
        {OSC_ERR_MSGTOOSMALL, "too small"},
        {OSC_ERR_MALFORMEDADDRESS, "address"},
        {OSC_ERR_NOBUNDLE, "bundle"},
        {OSC_ERR_OUTOFMEM, "memory"},
        {OSC_ERR_NULLPTR, "NULL"},
        {OSC_ERR_BADTYPETAG, "typetag"},
        {OSC_ERR_MALFORMEDMSG, "message"},
        {OSC_ERR_INVAL, "invalid"},
        {OSC_ERR_EXPPARSE, "pars"},
        {OSC_ERR_MSGTOOLARGE, "beyond"},
        {OSC_ERR_INVALIDCHARINADDRESS, "invalid character"},
        {OSC_ERR_PARSER_FUNCTIONNOTFOUND, "function"},
        {OSC_ERR_EXPR_FUNCTIONNOTFOUND, "function"},
        {OSC_ERR_EXPR_ADDRESSUNBOUND, "unbound"},
        {OSC_ERR_EXPR_ARGCHK, "argument"},
        {OSC_ERR_EXPR_EVAL, "evaluating"},
        {OSC_ERR_PARSER, "parsing"}};
    return v;
}
static t_osc_err gen_code(Ctx &c) {
    switch (c.s.weighted({8, 1, 1})) {
    case 0: return c.s.pick(codes()).first;
    case 1: return c.s.below(0x2000);
    default: return c.s.u64();
    }
}
static std::string gen_text(Ctx &c, int max) {
    static const char *A = "abcdefgh /.%sdn:\n\\(){}#\"ghi";
    std::string s;
    int n = c.s.chance(85) ? c.s.size(max < 20 ? max : 20) : (int)c.s.below(max);
    char fill = c.s.pickc(A);
    for (int i = 0; i < n; i++) s += i < 40 ? c.s.pickc(A) : fill;
    return s;
}

// one report made directly
static void direct(Ctx &c) {
    Listen l;
    bool fn = c.s.chance(50), fu = c.s.chance(50);
    std::string file = gen_text(c, 6000), func = gen_text(c, 6000), s = gen_text(c, 6000);
    int line = c.s.chance(50) ? (int)c.s.below(100000) : c.s.chance(50) ? -(int)c.s.below(10) : 0;
    t_osc_err code = gen_code(c);
    int ctx, i = (int)c.s.u64(), j = c.s.range(-5, 5);
    void *cp = c.s.chance(80) ? &ctx : nullptr;
    ret_val = c.s.range(-3, 40);
    int form = c.s.below(5), none = c.s.chance(5);
    c.note(strf("file %s func %s line %d code %llx form %d s %s", show(file).c_str(), show(func).c_str(), line, (unsigned long long)code, form, show(s).c_str()));
    if (none) osc_error_setHandler(nullptr);
    const char *fp = fn ? file.c_str() : nullptr, *up = fu ? func.c_str() : nullptr;
    int r;
    std::string more;
    switch (form) {
    case 0: r = osc_error_handler(cp, fp, up, line, code, nullptr); break;
    case 1: r = osc_error_handler(cp, fp, up, line, code, "plain text"); more = "plain text"; break;
    case 2: r = osc_error_handler(cp, fp, up, line, code, "%s", s.c_str()); more = s; break;
    case 3: r = osc_error_handler(cp, fp, up, line, code, "%d: %s (%d of 100%%)", i, s.c_str(), j); more = strf("%d: %s (%d of 100%%)", i, s.c_str(), j); break;
    default:
        r = osc_error_handler(cp, nullptr, nullptr, -1, code, "%s and %s", s.c_str(), func.c_str());
        fn = fu = false;
        line = -1;
        more = s + " and " + func;
    }
    if (none) {
        CHECK(c, r == 0 && reps.empty(), "without a handler the report returned %d", r);
        c.label("no handler");
        return;
    }
    std::string want;
    if (fn) want += file + ":\n";
    if (fu) want += func + "(): ";
    if (line > 0) want += strf("%d: ", line);
    if (code) want += std::string(osc_error_string(code)) + ": \n";
    want += more;
    bool cut = want.size() >= MAX_ERR_STRING_LEN;
    want = want.substr(0, MAX_ERR_STRING_LEN - 1);
    CHECK(c, reps.size() == 1, "one error was reported %zu times", reps.size());
    CHECK(c, reps[0].ctx == cp, "the context given to the handler is not the one of the error");
    CHECK(c, r == ret_val, "the handler returned %d, the report %d", ret_val, r);
    CHECK(c, reps[0].s == want, "reported %s, should be %s", show(reps[0].s).c_str(), show(want).c_str());
    if (cut) c.label("longer than the report can be");
    c.nontrivial = fn || fu || form > 1;
}

static void names(Ctx &c) {
    t_osc_err a = gen_code(c), b = gen_code(c);
    auto known = [&](t_osc_err e) -> const char * {
        for (auto &x : codes())
            if (x.first == e) return x.second;
        return nullptr;
    };
    std::string sa = osc_error_string(a), sb = osc_error_string(b);
    c.note(strf("%llx %s, %llx %s", (unsigned long long)a, sa.c_str(), (unsigned long long)b, sb.c_str()));
    for (auto &x : {std::make_pair(a, sa), std::make_pair(b, sb)}) {
        const char *k = known(x.first);
        if (k) CHECK(c, x.second.find(k) != std::string::npos, "error %llx is called %s", (unsigned long long)x.first, show(x.second).c_str());
        else CHECK(c, x.second.find("unrecognized") != std::string::npos, "%llx is no error code, but is called %s", (unsigned long long)x.first, show(x.second).c_str());
    }
    auto fnf = [](t_osc_err e) { return e == OSC_ERR_PARSER_FUNCTIONNOTFOUND || e == OSC_ERR_EXPR_FUNCTIONNOTFOUND; };
    if (known(a) && known(b) && a != b && !(fnf(a) && fnf(b)))
        CHECK(c, sa != sb, "errors %llx and %llx are both called %s", (unsigned long long)a, (unsigned long long)b, show(sa).c_str());
    c.nontrivial = known(a) && known(b);
}

static void addresses(Ctx &c) {
    std::string s;
    if (c.s.chance(85)) s = "/";
    int n = c.s.count(0, 12);
    for (int i = 0; i < n; i++) {
        if (c.s.chance(6)) s += c.s.pickc(" #");
        else if (c.s.chance(5)) s += (char)(1 + c.s.below(255));
        else s += c.s.pickc("abc/1_*?{},[]-!.");
    }
    s.resize(strlen(s.c_str()));
    c.note(show(s));
    Buf b(s + std::string(1, '\0'));
    t_osc_err e = osc_error_validateAddress(b.p);
    t_osc_err want = s.size() < 2 || s[0] != '/' ? OSC_ERR_MALFORMEDADDRESS : s.find_first_of("# ") != std::string::npos ? OSC_ERR_INVALIDCHARINADDRESS : OSC_ERR_NONE;
    CHECK(c, e == want, "the address %s gives %llx, not %llx", show(s).c_str(), (unsigned long long)e, (unsigned long long)want);
    CHECK(c, memcmp(b.p, s.c_str(), s.size() + 1) == 0, "validating changed the address");
    CHECK(c, osc_error_validateAddress(nullptr) == OSC_ERR_NULLPTR, "no address at all is not reported as such");
    c.nontrivial = s.size() > 2 && s[0] == '/';
    c.label(want == OSC_ERR_NONE ? "good address" : "bad address");
}

// everything reported while one text is parsed and evaluated
static void expression(Ctx &c, const std::string &text_, const MBundle &b) {
    std::string text = text_.substr(0, 2000), bndl = enc_bundle(b);
    text.resize(strlen(text.c_str()));
    c.note("text   " + show(text));
    c.note("bundle " + dump(b));
    guard::growth_ok = exgen::may_grow(text, bndl);
    guard::limit(16 << 20, 64 << 20, 3 << 20);
    guard::begin(0x41);
    Listen l;
    ret_val = 0;
    struct Off { ~Off() { guard::limit(0, 0, 0); guard::release(); } } off;
    int pctx, ectx;
    Buf t(text + std::string(1, '\0'));
    t_osc_expr *e = nullptr;
    t_osc_err pe = osc_expr_parser_parseExpr(t.p, &e, &pctx);
    size_t np = reps.size();
    CHECK(c, pe || !np, "the text is accepted, but an error was reported: %s", show(reps[0].s).c_str());
    CHECK(c, !pe || np, "the text is rejected, but no error was reported");
    for (auto &r : reps) {
        CHECK(c, r.ctx == &pctx, "an error of the parser came with another context: %s", show(r.s).c_str());
        size_t k = r.s.find(":\n");
        std::string m = "error parsing expression: \n";
        CHECK(c, k != std::string::npos && r.s.compare(k + 2, m.size(), m) == 0, "a parse error is reported as %s", show(r.s).c_str());
        std::string x = r.s.substr(k + 2 + m.size()), at;
        bool whole = r.s.size() < MAX_ERR_STRING_LEN - 1, ok = false;
        // the whole text, with the place of the error on a line of its own or not at all
        if (x.compare(0, text.size() + 1, text + "\n") == 0) ok = true, c.label("without a location");
        for (size_t p = x.find("\n-->                "); !ok && p != std::string::npos; p = x.find("\n-->                ", p + 1)) {
            if (text.compare(0, p, x, 0, p) != 0) break;
            size_t q = p + 20;
            for (size_t n = 0; p + n <= text.size() && !ok; n++)
                ok = x.compare(q, n, text, p, n) == 0 && q + n < x.size() && x[q + n] == '\n' && x.compare(q + n + 1, text.size() - p - n + 1, text.substr(p + n) + "\n") == 0;
            if (ok) c.label("with a location");
        }
        if (whole) CHECK(c, ok, "the report of a parse error does not show the text: %s", show(r.s).c_str());
    }
    int err = 0;
    long len = (long)bndl.size();
    char *bp = (char *)osc_mem_alloc(len);
    memcpy(bp, bndl.data(), len);
    for (t_osc_expr *x = pe ? nullptr : e; x && !err; x = osc_expr_next(x)) {
        t_osc_atom_ar_u *out = nullptr;
        err = osc_expr_eval(x, &len, &bp, &out, &ectx);
        if (out) osc_atom_array_u_free(out);
    }
    osc_mem_free(bp);
    if (e) osc_expr_free(e);
    for (size_t i = np; i < reps.size(); i++) {
        CHECK(c, reps[i].ctx == &ectx, "an error of the evaluation came with another context: %s", show(reps[i].s).c_str());
        CHECK(c, !reps[i].s.empty(), "an empty report");
    }
    c.nontrivial = !reps.empty();
    c.label(pe ? "rejected by the parser" : err ? (reps.size() > np ? "evaluation error, reported" : "evaluation error, silent") : reps.size() > np ? "evaluated, with a report" : "evaluated");
}
static void calls(Ctx &c) { MBundle b = exgen::bundle(c); expression(c, exgen::call(c), b); }
static void programs(Ctx &c) { MBundle b = exgen::bundle(c); expression(c, exgen::program(c), b); }
static void mutants(Ctx &c) { MBundle b = exgen::bundle(c); expression(c, exgen::mutant(c), b); }
static void soups(Ctx &c) { MBundle b = exgen::bundle(c); expression(c, exgen::soup(c), b); }

static bool accepted(const std::string &text) {
    Buf t(text + std::string(1, '\0'));
    t_osc_expr *e = nullptr;
    t_osc_err pe = osc_expr_parser_parseExpr(t.p, &e, nullptr);
    if (e) osc_expr_free(e);
    return !pe;
}
// a mistake of a known kind at a known place
static void located(Ctx &c) {
    Listen l;
    std::string pre, post, bad, detail, where;
    bool place = false;
    pre = c.s.chance(80) ? exgen::program(c) : "1";
    if (c.s.chance(20)) pre = std::string("/q = ") + c.s.pickc("0123456789") + ", " + pre;
    if (c.s.chance(20)) pre = "/q = quote(1 + (2 * 3)), " + pre;
    pre.resize(strlen(pre.c_str()));
    if (pre.size() > 700 || pre.find('#') != std::string::npos || !accepted(pre)) throw Discard{};
    post = c.s.chance(40) ? " , /z = 1" : c.s.chance(40) ? "" : c.s.chance(50) ? " " : ", foo(((";
    const exgen::Fn &f = c.s.pick(exgen::functions());
    int n = 0;
    switch (c.s.below(4)) {
    case 0: // a token that can't come here
        bad = c.s.chance(50) ? ")" : c.s.chance(50) ? "}" : "]";
        pre += " ";
        place = true;
        break;
    case 1: // a function that isn't there
        bad = ", nosuch" + std::string(c.s.count(0, 8), 'f') + "(1, /a)";
        detail = "unknown function \"" + bad.substr(2, bad.size() - 9) + "\"";
        break;
    case 2: // too many or too few arguments
        if (f.req > 0 && c.s.chance(50)) n = c.s.below(f.req);
        else if (f.opt >= 0) n = f.req + f.opt + 1 + c.s.below(3);
        else if (f.req > 0) n = f.req - 1;
        else throw Discard{};
        bad = ", " + f.name + "(";
        for (int i = 0; i < n; i++) bad += i ? ", 1" : "1";
        bad += ")";
        {
            int want = n < f.req ? f.req : f.req + f.opt;
            detail = strf("expected %d argument%s for function %s but found %d", want, want == 1 ? "" : "s", f.name.c_str(), n);
        }
        if (!isalpha((unsigned char)f.name[0]) || f.name == "lambda" || f.name == "quote" || f.name == "apply") throw Discard{};
        break;
    default: // an assignment to something that isn't an address
        bad = ", 12 = 3";
    }
    if (post.empty()) place = false; // at the very end the text is shown as it is
    std::string text = pre + bad + post;
    c.note(show(text) + " should report " + detail);
    Buf t(text + std::string(1, '\0'));
    t_osc_expr *e = nullptr;
    int ctx;
    t_osc_err pe = osc_expr_parser_parseExpr(t.p, &e, &ctx);
    if (e) osc_expr_free(e);
    CHECK(c, pe, "%s is accepted", show(text).c_str());
    CHECK(c, !reps.empty() && reps[0].ctx == &ctx, "no report with the context of the caller");
    const std::string &r = reps[0].s;
    if (!detail.empty() && detail.size() < 200) CHECK(c, r.find(detail) != std::string::npos, "the report doesn't say %s: %s", show(detail).c_str(), show(r).c_str());
    if (place) CHECK(c, r.find("\n" + pre + "\n-->                " + bad + "\n" + post + "\n") != std::string::npos, "the report shows another place: %s", show(r).c_str());
    c.nontrivial = true;
}

// an operand that isn't in the bundle
static void unbound(Ctx &c) {
    Listen l;
    MBundle b;
    static const char *BOUND[] = {"/a", "/b", "/foo/bar", "/x"};
    for (const char *a : BOUND) { MMsg m; m.addr = a; m.args = {mk('i', 3), mk('i', 4)}; b.push_back(m); }
    std::string gone = std::string("/gone") + "abcd"[c.s.below(4)] + (c.s.chance(20) ? "/deep" + std::string(c.s.count(0, 10), 'p') : "");
    std::string text, pre, num = strf("%d", c.s.range(0, 9));
    static const char *OPS[] = {"+", "-", "*", "/ ", "%", "<", "<=", ">", ">=", "==", "!=", "&&", "||"};
    std::string op = OPS[c.s.below(sizeof OPS / sizeof *OPS)];
    bool logic = op == "&&" || op == "||";
    switch (c.s.below(9)) {
    case 0: text = gone + " " + op + " " + num; break;
    case 1: text = (op == "&&" ? "true " : op == "||" ? "false " : c.s.chance(50) ? "/a " : num + " ") + op + " " + gone; break;
    case 2: text = "/out = " + gone; break;
    case 3: text = "if(" + gone + ", 1, 2)"; break;
    case 4: text = "[" + num + ", " + gone + ", /a]"; break;
    case 5: text = "{/m : " + gone + "}"; break;
    case 6: text = std::string(c.s.chance(50) ? "abs(" : "first(") + gone + ")"; break;
    case 7: text = "map(lambda([q], q + " + gone + "), [1, 2])"; break;
    default: text = gone + "[[" + num + "]]";
    }
    if (!logic && c.s.chance(30)) text = "abs(" + num + " + (" + text + "))";
    if (c.s.chance(30)) pre = "/first = 1, ";
    c.note(pre + text);
    std::string full = pre + text;
    Buf t(full + std::string(1, '\0'));
    t_osc_expr *e = nullptr;
    int ctx;
    t_osc_err pe = osc_expr_parser_parseExpr(t.p, &e, &ctx);
    CHECK(c, !pe && e, "%s isn't accepted", full.c_str());
    std::string bndl = enc_bundle(b);
    long len = (long)bndl.size();
    char *bp = (char *)osc_mem_alloc(len);
    memcpy(bp, bndl.data(), len);
    int err = 0;
    for (t_osc_expr *x = e; x && !err; x = osc_expr_next(x)) {
        t_osc_atom_ar_u *out = nullptr;
        err = osc_expr_eval(x, &len, &bp, &out, &ctx);
        CHECK(c, !err || !out, "a value with error %d", err);
        if (out) osc_atom_array_u_free(out);
    }
    osc_mem_free(bp);
    osc_expr_free(e);
    CHECK(c, err, "%s is evaluated without an error, though %s is unbound", full.c_str(), gone.c_str());
    bool named = false;
    std::string m = "address " + gone + " is unbound";
    for (auto &r : reps) {
        CHECK(c, r.ctx == &ctx, "reported with another context: %s", show(r.s).c_str());
        if (r.s.compare(0, 18, "address is unbound") == 0 && r.s.find(m) != std::string::npos) named = true;
    }
    CHECK(c, named, "%s: no report says that %s (of %zu; the first is %s)", full.c_str(), m.c_str(), reps.size(), reps.empty() ? "" : show(reps[0].s).c_str());
    c.nontrivial = true;
}

// a mistake in a text that is longer than the stack is large
static void long_text(Ctx &c) {
    static const struct { const char *pre, *post; bool ok; } form[] = {
        {"/x = \"", "\"", true}, {"/x = [1, \"", "\"]", true}, {"/x = [\"", "\" = ", false}, {"\"", "\"++ = 1", false}, {"\"", "\"-- = 1", false},
        {"++\"", "\" = 1", false}, {"--\"", "\" = 1", false}, {"/x", " = )", false}, {"/x = \"", "\")", false}, {"/x = abs(\"", "\", 1)", false}};
    auto &f = form[c.s.below(sizeof form / sizeof *form)];
    size_t n = c.s.below(2) ? (8u << 20) + c.s.below(1u << 20) : c.s.below(9000);
    std::string text = f.pre + std::string(n, 'a') + f.post;
    c.note(strf("%s<%zu times a>%s", f.pre, n, f.post));
    Buf t(text + std::string(1, '\0'));
    int ctx;
    Listen l;
    t_osc_expr *e = nullptr;
    t_osc_err pe = osc_expr_parser_parseExpr(t.p, &e, &ctx);
    CHECK(c, !pe == f.ok, "the text is %s", pe ? "rejected" : "accepted");
    CHECK(c, f.ok ? reps.empty() : !reps.empty(), "%zu reports", reps.size());
    for (auto &r : reps) {
        CHECK(c, r.ctx == &ctx, "a report with another context");
        CHECK(c, !r.s.empty(), "an empty report");
    }
    CHECK(c, text == t.p, "the text was changed");
    c.nontrivial = !reps.empty();
    if (e) osc_expr_free(e);
}
static void init() { ex::run("/r = abs(1)", enc_bundle({})); guard::install(); osc_error_setHandler(nullptr); }

namespace pt {
Property property = {"P43", "a report with some text of its own; two defined codes; an address of more than two characters; a text that gives at least one report",
    {{"direct", 800, direct}, {"names", 200, names}, {"addresses", 400, addresses}, {"calls", 600, calls}, {"programs", 600, programs}, {"mutants", 800, mutants}, {"soup", 600, soups}, {"located", 800, located}, {"unbound", 600, unbound}, {"long", 4, long_text}},
    {"a program that legitimately needs more than 64 MB or 3 MB of stack is not judged"},
    200000, 3000000, {}, 20, init};
}
