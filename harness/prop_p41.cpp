// P41: a parsed expression is the tree that was written; printing, copying and building trees keep it
// uses: expr.cpp
// uses: exgen.cpp
#include "exgen.hpp"
#include "expr.hpp"
#include <set>
extern "C" {
#include "osc_expr_rec.h"
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
}
using namespace pt;

enum { A_LIST = 2, A_ATOM = 8, A_EXPR = 0x10, A_ADDR = 0x20, A_FUNC = 0x80 };

struct N {
    std::string text, sx; // as written, and in prefix form
    int level = 11;       // of its operator (see P29); 11: binds like a name
    bool value = false;   // a number, string or address: not an expression of its own
};
static std::string pn(const N &n, bool paren) { return paren ? "(" + n.text + ")" : n.text; }
static std::string sp(Ctx &c) { return c.s.chance(80) ? " " : c.s.pick(std::vector<const char *>{"  ", "\n", "\t "}); }

static N address(Ctx &c) {
    N n;
    n.value = true;
    n.text = n.sx = c.s.pick(std::vector<const char *>{"/a", "/b", "/c/d", "/x/yz/1", "/long/address/of/many/parts/to/fill/the/buffer/with"});
    return n;
}
static N leaf(Ctx &c) {
    N n;
    n.value = true;
    switch (c.s.weighted({5, 4, 3, 1})) {
    case 0: n.text = n.sx = std::to_string(c.s.chance(80) ? c.s.below(20) : c.s.below(1ull << (c.s.chance(50) ? 31 : 40))); break;
    case 1: return address(c);
    case 2: {
        std::string s;
        for (int k = c.s.size(c.s.chance(10) ? 600 : 6); k > 0; k--) s += c.s.pickc("abcxyz019 ,()[]/+");
        n.text = n.sx = "\"" + s + "\"";
        break;
    }
    default: n.text = n.sx = c.s.pick(std::vector<const char *>{"true", "false", "'a'", "1.5"}); break;
    }
    return n;
}
static N node(Ctx &c, int depth);
static N arg(Ctx &c, int depth) { return depth <= 0 || c.s.chance(25) ? leaf(c) : node(c, depth - 1); }
static std::string args(Ctx &c, int n, int depth, std::string &sx) {
    std::string t;
    for (int i = 0; i < n; i++) {
        N a = arg(c, depth);
        t += (i ? "," + sp(c) : "") + a.text;
        sx += " " + a.sx;
    }
    return t;
}
static const std::vector<exgen::Fn> &fns() {
    static std::vector<exgen::Fn> v;
    if (v.empty())
        for (auto &f : exgen::functions())
            if (isalpha((unsigned char)f.name[0]) && std::string(f.name) != "lambda" && std::string(f.name) != "quote") v.push_back(f);
    return v;
}
static N lambda(Ctx &c, int depth) {
    N n;
    int k = c.s.below(4);
    std::string ps, px;
    for (int i = 0; i < k; i++) {
        std::string p = c.s.pick(std::vector<const char *>{"x", "y", "acc", "elem_1"});
        ps += (i ? ", " : "") + p;
        px += (i ? ", " : "") + p;
    }
    n.text = "lambda(" + (k == 1 && c.s.chance(50) ? ps : "[" + ps + "]");
    n.sx = "(lambda (" + px + ")";
    for (int b = c.s.range(1, 3); b > 0; b--) {
        N e = arg(c, depth);
        n.text += ", " + e.text;
        n.sx += " " + (e.value ? "(prog1 " + e.sx + ")" : e.sx);
    }
    n.text += ")";
    n.sx += ")";
    return n;
}
struct Op { const char *sym, *name; int level; };
static const Op BIN[] = {{"|", "|", 3}, {"||", "||", 3}, {"&", "&", 4}, {"&&", "&&", 4}, {"==", "==", 5}, {"!=", "!=", 5}, {"<", "<", 6}, {">", ">", 6}, {"<=", "<=", 6}, {">=", ">=", 6},
                         {"+", "+", 7}, {"-", "-", 7}, {"*", "*", 8}, {"/", "/", 8}, {"%", "%", 8}, {"^", "pow", 9}};
static N node(Ctx &c, int depth) {
    N n;
    switch (c.s.weighted({10, 5, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 2, 2})) {
    case 0: {
        const Op &o = BIN[c.s.below(16)];
        N l = arg(c, depth), r = arg(c, depth);
        n.text = pn(l, l.level < o.level) + sp(c) + o.sym + sp(c) + pn(r, r.level <= o.level);
        n.sx = "(" + std::string(o.name) + " " + l.sx + " " + r.sx + ")";
        n.level = o.level;
        return n;
    }
    case 1: { // a call
        const exgen::Fn &f = c.s.pick(fns());
        int k = f.req + (f.opt < 0 ? c.s.size(4) : c.s.range(0, f.opt));
        n.sx = "(" + std::string(f.name);
        n.text = f.name + std::string("(");
        n.text += args(c, k, depth, n.sx) + ")";
        n.sx += ")";
        return n;
    }
    case 2: // a list
        n.sx = "(list";
        n.text = "[";
        {
            std::string t = args(c, c.s.size(4), depth, n.sx);
            // [[ and ]] are single symbols
            n.text += (!t.empty() && t[0] == '[' ? " " : "") + t + (!t.empty() && t.back() == ']' ? " " : "") + "]";
        }
        n.sx += ")";
        return n;
    case 3: { // assignment
        N a = address(c), v = arg(c, depth);
        int k = c.s.below(8);
        static const Op ASG[] = {{"=", "", 0}, {"+=", "+", 0}, {"-=", "-", 0}, {"*=", "*", 0}, {"/=", "/", 0}, {"%=", "%", 0}, {"^=", "pow", 0}, {"?" "?=", "", 0}};
        n.level = 1;
        bool coal = k == 7;
        n.text = a.text + " " + ASG[k].sym + " " + pn(v, coal && v.level < 10);
        if (coal) n.level = 10, n.sx = "(= " + a.sx + " (if (bound " + a.sx + ") " + a.sx + " " + v.sx + "))";
        else if (k == 0) n.sx = "(assign " + a.sx + " " + v.sx + ")";
        else n.sx = "(assign " + a.sx + " (" + ASG[k].name + " " + a.sx + " " + v.sx + "))";
        return n;
    }
    case 4: {
        N q = arg(c, depth), t = arg(c, depth), e = arg(c, depth);
        n.text = pn(q, q.level <= 2) + " ? " + t.text + " : " + pn(e, e.level < 2);
        n.sx = "(if " + q.sx + " " + t.sx + " " + e.sx + ")";
        n.level = 2;
        return n;
    }
    case 5: {
        N v = arg(c, depth);
        bool neg = c.s.chance(50);
        n.text = (neg ? "- " : "! ") + pn(v, v.level < 10);
        n.sx = (neg ? "(- 0 " : "(! ") + v.sx + ")";
        n.level = 10;
        return n;
    }
    case 6: {
        N a = address(c), v = arg(c, depth);
        n.text = a.text + " ?" "? " + pn(v, v.level < 10);
        n.sx = "(if (bound " + a.sx + ") " + a.sx + " " + v.sx + ")";
        n.level = 10;
        return n;
    }
    case 7: {
        N a = address(c);
        bool inc = c.s.chance(50), pre = c.s.chance(50);
        std::string s = "(assign " + a.sx + (inc ? " (plus1 " : " (minus1 ") + a.sx + "))";
        n.text = pre ? (inc ? "++" : "--") + a.text : a.text + (inc ? "++" : "--");
        n.sx = pre ? s : "(prog1 " + a.sx + " " + s + ")";
        return n;
    }
    case 8: { // element
        N v = arg(c, depth);
        n.sx = "(nth " + v.sx;
        n.text = pn(v, v.level < 11) + "[[ ";
        n.text += args(c, c.s.range(1, 3), depth, n.sx) + " ]]";
        n.sx += ")";
        return n;
    }
    case 9: { // assignment to elements
        N a = address(c);
        std::string ix;
        n.level = 1;
        if (c.s.chance(40)) {
            bool step = c.s.chance(50);
            N f = leaf(c), s = leaf(c), l = leaf(c);
            n.text = a.text + "[[ " + f.text + (step ? " : " + s.text : "") + " : " + l.text + " ]] = ";
            ix = "(aseq " + f.sx + " " + l.sx + (step ? " " + s.sx : "") + ")";
        } else {
            int k = c.s.range(1, 3);
            std::string sx, t = args(c, k, depth, sx);
            n.text = a.text + "[[ " + t + " ]] = ";
            ix = k == 1 ? sx.substr(1) : "(list" + sx + ")";
        }
        N v = arg(c, depth);
        n.text += v.text;
        n.sx = "(assign_to_index " + a.sx + " " + ix + " " + v.sx + ")";
        return n;
    }
    case 10: { // a member of a bundle
        N a = address(c), b = address(c);
        n.text = a.text + "." + b.text;
        if (c.s.chance(50)) {
            N v = arg(c, depth);
            n.level = 1;
            n.text += " = " + v.text;
            n.sx = "(assigntobundlemember " + a.sx + " " + b.sx + " " + v.sx + ")";
        } else
            n.sx = "(. " + a.sx + " " + b.sx + ")";
        return n;
    }
    case 11: { // a bundle
        n.sx = "(bundle";
        n.text = "{";
        for (int i = 0, k = c.s.size(3); i < k; i++) {
            N a = address(c), v = arg(c, depth);
            n.text += (i ? ", " : "") + a.text + " : " + v.text;
            n.sx += " \"" + a.sx + "\" " + v.sx;
        }
        n.text += "}";
        n.sx += ")";
        return n;
    }
    case 12: { // functions as arguments
        N f = lambda(c, depth);
        std::string name = c.s.pick(std::vector<const char *>{"map", "apply", "lreduce", "rreduce"});
        std::string sx, t = args(c, 1, depth, sx);
        n.text = name + "(" + f.text + ", " + t + ")";
        n.sx = "(" + name + " " + f.sx + sx + ")";
        return n;
    }
    case 13: {
        N f = lambda(c, depth);
        std::string sx, t = args(c, c.s.range(1, 3), depth, sx);
        n.text = "(" + f.text + ", " + t + ")";
        n.sx = "(apply " + f.sx + sx + ")";
        return n;
    }
    case 14: {
        N a = address(c);
        n.text = "`" + a.text + "`";
        n.sx = "(value " + a.sx + ")";
        return n;
    }
    case 15: {
        N a = address(c);
        std::string sx, t = args(c, c.s.below(3), depth, sx);
        n.text = a.text + "(" + t + ")";
        n.sx = "(apply " + a.sx + sx + ")";
        return n;
    }
    default: {
        N v = node(c, depth - 1 > 0 ? depth - 1 : 0);
        if (depth <= 0) { // quote
            n.text = "quote(/a + 1)";
            n.sx = "(quote \"/a + 1\")";
            return n;
        }
        n = v;
        n.text = "(" + v.text + ")";
        n.level = 11;
        return n;
    }
    }
}

// spaces before closing parentheses and at the ends of lines are of no account, except in strings
static std::string norm(const std::string &s) {
    std::string r;
    bool q = false;
    for (char ch : s) {
        if (ch == '"' && (r.empty() || r.back() != '\'')) q = !q;
        if (!q && (ch == ')' || ch == '\n'))
            while (!r.empty() && r.back() == ' ') r.pop_back();
        r += ch;
    }
    return r;
}
static std::string printed(Ctx &c, t_osc_expr *e) {
    char *f = nullptr;
    if (c.s.chance(30)) f = (char *)osc_mem_alloc(c.s.range(1, 600));
    long n = -1;
    osc_expr_format(e, &n, &f);
    CHECK(c, f && n >= 0 && (long)strlen(f) == n, "printing gives %s of length %ld, reported %ld", f ? "text" : "nothing", f ? (long)strlen(f) : 0, n);
    std::string s(f, n);
    osc_mem_free(f);
    return norm(s);
}
// the same, by walking the tree
static std::string walk(Ctx &c, t_osc_expr *e);
static std::string walk_arg(Ctx &c, t_osc_expr_arg *a) {
    switch (osc_expr_arg_getType(a)) {
    case A_ATOM: {
        t_osc_atom_u *at = osc_expr_arg_getOSCAtom(a);
        std::string s(osc_atom_u_nformat(nullptr, 0, at, 0) + 1, '\0');
        osc_atom_u_nformat(&s[0], s.size(), at, 0);
        s.pop_back();
        return s;
    }
    case A_ADDR: return osc_expr_arg_getOSCAddress(a);
    case A_EXPR: return walk(c, osc_expr_arg_getExpr(a));
    case A_FUNC: {
        t_osc_expr_rec *r = osc_expr_arg_getFunction(a);
        std::string s = "(lambda (";
        for (int i = 0; i < osc_expr_rec_getNumRequiredArgs(r); i++) s += (i ? ", " : "") + std::string(osc_expr_rec_getRequiredArgsNames(r)[i]);
        s += ")";
        for (t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r); e; e = osc_expr_next(e)) s += " " + walk(c, e);
        return s + ")";
    }
    }
    c.fail("argument of type %d", osc_expr_arg_getType(a));
}
static std::string walk(Ctx &c, t_osc_expr *e) {
    std::string s = "(" + std::string(osc_expr_rec_getName(osc_expr_getRec(e)));
    long n = 0;
    for (t_osc_expr_arg *a = osc_expr_getArgs(e); a; a = osc_expr_arg_next(a), n++) s += " " + walk_arg(c, a);
    CHECK(c, osc_expr_getArgCount(e) == n, "%s) has %ld arguments, reported %ld", s.c_str(), n, osc_expr_getArgCount(e));
    return s + ")";
}

static void parse(Ctx &c) {
    std::string text, want;
    int k = c.s.range(1, 3);
    size_t longest = 0;
    for (int i = 0; i < k; i++) {
        N n = c.s.chance(85) ? node(c, c.s.range(1, 4)) : leaf(c);
        if (n.value && n.text[0] == '"') n = address(c); // a string alone is not an expression
        text += (i ? "," + sp(c) : "") + n.text;
        want += (n.value ? "(progn " + n.sx + ")" : n.sx) + "\n";
        longest = std::max(longest, n.sx.size());
    }
    c.note("text " + text);
    c.nontrivial = text.size() > 12;
    if (want.size() > 512) c.label("longer than 512 characters");
    Buf b(text + std::string(1, '\0'));
    t_osc_expr *e = nullptr;
    HeapTrack::reset();
    HeapTrack::on();
    t_osc_err r = osc_expr_parser_parseExpr(b.p, &e, nullptr);
    CHECK(c, !r && e, "refused, error %d", (int)r);
    want = norm(want);
    std::string got = printed(c, e);
    CHECK(c, got == want, "parsed as\n%sinstead of\n%s", got.c_str(), want.c_str());
    std::string w;
    for (t_osc_expr *x = e; x; x = osc_expr_next(x)) w += walk(c, x) + "\n";
    CHECK(c, norm(w) == want, "the tree is\n%sinstead of\n%s", w.c_str(), want.c_str());
    // copies
    t_osc_expr *d = nullptr;
    osc_expr_copyAllLinked(&d, e);
    CHECK(c, d && printed(c, d) == want && printed(c, e) == want, "the copy is\n%sinstead of\n%s", printed(c, d).c_str(), want.c_str());
    bool first = c.s.chance(50);
    osc_expr_free(first ? e : d);
    t_osc_expr *left = first ? d : e;
    CHECK(c, printed(c, left) == want, "after freeing the %s: %s", first ? "original" : "copy", printed(c, left).c_str());
    t_osc_expr *one = nullptr;
    osc_expr_copy(&one, left);
    CHECK(c, one && !osc_expr_next(one) && printed(c, one) == want.substr(0, want.find('\n') + 1), "a copy of the first expression is %s", printed(c, one).c_str());
    osc_expr_free(one);
    osc_expr_free(left);
    HeapTrack::off();
}

// the tokens of a text, whether or not they make an expression
struct Tok {
    std::string text;
    MAtom val;
    bool punct = false; // needs no space around it
};
static Tok token(Ctx &c) {
    auto S = [](const std::string &t, const std::string &v) {
        Tok k;
        k.text = t;
        k.val = mk_s(v);
        return k;
    };
    auto V = [](const std::string &t, const MAtom &v) {
        Tok k;
        k.text = t;
        k.val = v;
        return k;
    };
    switch (c.s.weighted({6, 4, 4, 4, 4, 6, 5, 4, 1, 2, 1})) {
    case 0: { // decimal
        uint64_t v = c.s.chance(60) ? c.s.below(100) : c.s.u64() >> c.s.below(64);
        if (c.s.chance(15)) v = (1ull << c.s.pick(std::vector<int>{31, 32, 63})) - 1 + c.s.below(2);
        return V(strf("%llu", (unsigned long long)v), v > INT64_MAX ? mk('H', (int64_t)v) : v > INT32_MAX ? mk('h', (int64_t)v) : mk_i((int)v));
    }
    case 1: { // hexadecimal: up to eight digits are 32 bits
        int n = c.s.range(1, 16);
        std::string d;
        for (int i = 0; i < n; i++) d += c.s.pickc("0123456789abcdefABCDEF");
        uint64_t v = strtoull(d.c_str(), nullptr, 16);
        return V((c.s.chance(70) ? "0x" : "0X") + d, n > 8 ? mk('H', (int64_t)v) : mk('I', (int64_t)v));
    }
    case 2: { // floating point, in its spellings
        std::string a = std::to_string(c.s.below(1000)), b = std::to_string(c.s.below(1000)), e = std::string(c.s.pick(std::vector<const char *>{"e", "E", "e+", "e-"})) + std::to_string(c.s.below(20)), t;
        switch (c.s.below(6)) {
        case 0: t = a + "." + b; break;
        case 1: t = "." + b; break;
        case 2: t = a + "."; break;
        case 3: t = a + e; break;
        case 4: t = a + "." + b + e; break;
        default: t = "0x" + a + "." + b + "p" + std::to_string(c.s.below(9)); break;
        }
        double v = strtod(t.c_str(), nullptr);
        if (c.s.chance(20)) t += c.s.pickc("fFlL");
        return V(t, mk_d(v));
    }
    case 3: { // a word
        std::string s(1, c.s.pickc("abcxyzABC_$@~"));
        for (int k = c.s.size(c.s.chance(5) ? 400 : 8); k > 0; k--) s += c.s.pickc("abcxyz_$@~09#");
        static const std::set<std::string> KW = {"true", "false", "nil"};
        if (KW.count(s)) s += "x";
        return S(s, s);
    }
    case 4: { // an address
        std::string s = "/";
        for (int k = 1 + c.s.size(c.s.chance(5) ? 400 : 8); k > 0; k--) s += c.s.pickc("abcxyz_$@~09#/");
        return S(s, s);
    }
    case 5: { // a string: an escaped quote stands for a quote, every other character for itself
        std::string t, v;
        for (int k = c.s.size(c.s.chance(5) ? 600 : 10); k > 0; k--) {
            if (c.s.chance(15)) t += "\\\"", v += "\"";
            else if (c.s.chance(15)) {
                std::string x = std::string("\\") + c.s.pickc("\\nt0()'/");
                t += x, v += x;
            } else {
                char ch = c.s.pickc("abc XYZ019'`,;()[]{}/+*#\n\t\x7f\xc3\xff");
                t += ch, v += ch;
            }
        }
        return S("\"" + t + "\"", v);
    }
    case 6: { // operators
        std::string t = c.s.pick(std::vector<const char *>{"+", "-", "*", "/", "%", "^", "!", "=", "[", "]", ":", "?", "<", ">", "`", ".", "&", "|", "<=", ">=", "!=", "==", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=",
                                                           "^=", "?" "?", "?" "?=", "[[", "]]"});
        return S(t, t);
    }
    case 7: {
        std::string t = c.s.pick(std::vector<const char *>{"(", ")", ",", "{", "}"});
        Tok k = S(t, t);
        k.punct = true;
        return k;
    }
    case 8: { // semicolons run together
        std::string t = ";";
        for (int k = c.s.below(4); k > 0; k--) t += c.s.pick(std::vector<const char *>{";", " ;", "\n;"});
        return S(t, ";");
    }
    case 9: {
        switch (c.s.below(5)) {
        case 0: return V(c.s.pick(std::vector<const char *>{"true", "True", "TRUE"}), mk('T'));
        case 1: return V(c.s.pick(std::vector<const char *>{"false", "False", "FALSE"}), mk('F'));
        case 2: return V(c.s.pick(std::vector<const char *>{"nil", "Nil", "NIL"}), mk('N'));
        case 3: return S("lambda", "lambda");
        default: {
            char ch = c.s.pickc("abc019 /+'\"\\\x7f\x80\xe9\xff");
            return V(std::string("'") + ch + "'", mk('c', ch));
        }
        }
    }
    default: { // quote( ): the text up to its parenthesis
        std::string in;
        int open = 0;
        for (int k = c.s.size(8); k > 0; k--) {
            if (c.s.chance(15)) in += "(", open++;
            else if (c.s.chance(8)) in += c.s.chance(50) ? "\\(" : "\\)"; // these are not counted
            else if (open && c.s.chance(20)) in += ")", open--;
            else in += c.s.pickc("abc /+1,[]\n");
        }
        in += std::string(open, ')');
        if (in.empty()) in = "x";
        return S("quote" + std::string(c.s.below(3), ' ') + "(" + in + ")", in);
    }
    }
}
static void tokens(Ctx &c) {
    int n = c.s.count(0, 12, 30);
    if (c.s.chance(4)) n = c.s.pick(std::vector<int>{63, 64, 65, 128, 129});
    std::vector<ex::VList> parts(1);
    std::string text;
    ex::VList want;
    std::vector<std::string> lines;
    bool punct = true;
    for (int i = 0; i < n; i++) {
        Tok k = token(c);
        if (!((punct || k.punct) && c.s.chance(60)) || (!want.empty() && want.back().tt == 's' && want.back().s == ";")) {
            if (c.s.chance(4)) text += " # " + std::string(c.s.size(8), c.s.pickc("a\"(;/")) + "\n"; // a comment
            else if (c.s.chance(10) && !text.empty()) lines.push_back(text), text.clear(); // the next string of the list
            else text += c.s.pick(std::vector<const char *>{" ", "  ", "\n", "\t"});
        }
        // two semicolons next to each other are one
        if (!want.empty() && k.val.tt == 's' && k.val.s == ";" && want.back().tt == 's' && want.back().s == ";") continue;
        text += k.text;
        want.push_back(k.val);
        punct = k.punct;
    }
    lines.push_back(text);
    ex::VList src;
    for (auto &l : lines) src.push_back(mk_s(l));
    c.note("/t = " + ex::dump(src) + "\nwant " + ex::dump(want));
    c.nontrivial = want.size() > 2;
    if (want.size() >= 64) c.label("64 tokens or more");
    ex::Run r = ex::run("/r = tokenize(/t)", enc_bundle({{"/t", src}}));
    CHECK(c, r.parsed && !r.err && r.has_out, "tokenize fails, error %x", r.err);
    for (size_t i = 0; i < std::min(r.out.size(), want.size()); i++) CHECK(c, ex::same(r.out[i], want[i]), "token %zu is %s; want %s", i, ex::dump({r.out[i]}).c_str(), ex::dump({want[i]}).c_str());
    CHECK(c, r.out.size() == want.size(), "%zu tokens: %s; want %zu: %s", r.out.size(), ex::dump(r.out).c_str(), want.size(), ex::dump(want).c_str());
}

// trees built by hand
struct MExpr {
    std::string name;
    std::vector<std::string> args;
};
static std::string show_tree(const std::vector<MExpr> &v) {
    std::string s;
    for (auto &e : v) {
        s += "(" + e.name;
        for (auto &a : e.args) s += " " + a;
        s += ")\n";
    }
    return s;
}
static t_osc_expr_arg *make_arg(Ctx &c, std::string &sx) {
    t_osc_expr_arg *a = osc_expr_arg_alloc();
    switch (c.s.below(4)) {
    case 0: {
        int v = c.s.below(1000);
        osc_expr_arg_setOSCAtom(a, osc_atom_u_allocWithInt32(v));
        sx = std::to_string(v);
        break;
    }
    case 1: {
        sx = address(c).text;
        char *p = nullptr;
        osc_util_strdup(&p, (char *)sx.c_str());
        osc_expr_arg_setOSCAddress(a, p);
        break;
    }
    case 2: {
        t_osc_expr *e = osc_expr_alloc();
        osc_expr_setRec(e, osc_expr_lookupFunction((char *)"pi"));
        osc_expr_arg_setExpr(a, e);
        sx = "(pi)";
        break;
    }
    default: {
        int n = c.s.range(1, 4);
        t_osc_atom_ar_u *l = osc_atom_array_u_alloc(n);
        sx.clear();
        for (int i = 0; i < n; i++) {
            int v = c.s.below(100);
            osc_atom_u_setInt32((t_osc_atom_u *)osc_atom_array_u_get(l, i), v);
            sx += (i ? " " : "") + std::to_string(v);
        }
        osc_expr_arg_setList(a, l);
    }
    }
    return a;
}
static void build(Ctx &c) {
    HeapTrack::reset();
    HeapTrack::on();
    {
    std::vector<MExpr> m;
    std::vector<t_osc_expr *> es;
    int steps = c.s.range(1, 14);
    auto fresh = [&]() {
        t_osc_expr *e = osc_expr_alloc();
        std::string f = c.s.pick(std::vector<const char *>{"list", "progn", "+", "map"});
        osc_expr_setRec(e, osc_expr_lookupFunction((char *)f.c_str()));
        m.push_back({f, {}});
        es.push_back(e);
        return e;
    };
    t_osc_expr *head = fresh();
    for (int i = 0; i < steps; i++) {
        size_t k = c.s.below(es.size());
        int op = c.s.below(5);
        if (op == 4) {
            t_osc_expr *prev = es.back(), *e = fresh();
            if (c.s.chance(50)) osc_expr_appendExpr(head, e), c.note("append an expression");
            else osc_expr_setNext(prev, e), c.note("set the next expression");
            continue;
        }
        // a chain of one to three arguments
        t_osc_expr_arg *chain = nullptr;
        std::vector<std::string> sx;
        for (int n = c.s.range(1, 3); n > 0; n--) {
            std::string s;
            t_osc_expr_arg *a = make_arg(c, s);
            if (!chain) chain = a;
            else CHECK(c, osc_expr_arg_append(chain, a) == (int)sx.size(), "appending to a chain of %zu", sx.size());
            sx.push_back(s);
        }
        std::vector<std::string> &args = m[k].args;
        if (op == 0 && args.empty()) {
            c.note("set " + std::to_string(sx.size()) + " arguments of " + std::to_string(k));
            osc_expr_setArg(es[k], chain);
            args = sx;
        } else if (op <= 1) {
            c.note("prepend " + std::to_string(sx.size()) + " arguments to " + std::to_string(k));
            osc_expr_prependArg(es[k], chain);
            args.insert(args.begin(), sx.begin(), sx.end());
        } else {
            c.note("append " + std::to_string(sx.size()) + " arguments to " + std::to_string(k));
            osc_expr_appendArg(es[k], chain);
            args.insert(args.end(), sx.begin(), sx.end());
        }
        CHECK(c, osc_expr_getArgCount(es[k]) == (long)args.size(), "%ld arguments instead of %zu", osc_expr_getArgCount(es[k]), args.size());
    }
    c.nontrivial = m.size() > 1;
    std::string want = show_tree(m);
    CHECK(c, printed(c, head) == want, "the tree is\n%sinstead of\n%s", printed(c, head).c_str(), want.c_str());
    size_t i = 0;
    for (t_osc_expr *e = head; e; e = osc_expr_next(e), i++) CHECK(c, i < es.size() && e == es[i] && osc_expr_getArgCount(e) == (long)m[i].args.size(), "expression %zu", i);
    CHECK(c, i == es.size(), "%zu expressions instead of %zu", i, es.size());
    t_osc_expr *d = nullptr;
    osc_expr_copyAllLinked(&d, head);
    CHECK(c, printed(c, d) == want, "the copy is\n%sinstead of\n%s", printed(c, d).c_str(), want.c_str());
    osc_expr_free(head);
    CHECK(c, printed(c, d) == want, "after freeing the original, the copy is\n%s", printed(c, d).c_str());
    osc_expr_free(d);
    }
    HeapTrack::off();
}

// the record of a function, and copies of it
struct MRec {
    std::string name, sig;
    std::vector<std::string> names[2]; // "-": none
    std::vector<int> types[2];
    void *extra = nullptr;
};
static int run_none(t_osc_expr *, int, t_osc_atom_ar_u **, t_osc_atom_ar_u **, void *) { return 0; }
static void same_rec(Ctx &c, const char *what, t_osc_expr_rec *r, const MRec &m, int opt_sign) {
    char *n = osc_expr_rec_getName(r), *s = osc_expr_rec_getSignature(r);
    CHECK(c, n && m.name == n && s && m.sig == s, "%s: name %s, signature %s", what, n ? n : "none", s ? s : "none");
    int cnt[2] = {osc_expr_rec_getNumRequiredArgs(r), osc_expr_rec_getNumOptionalArgs(r)};
    char **nm[2] = {osc_expr_rec_getRequiredArgsNames(r), osc_expr_rec_getOptionalArgsNames(r)};
    int *ty[2] = {osc_expr_rec_getRequiredArgsTypes(r), osc_expr_rec_getOptionalArgsTypes(r)};
    for (int k = 0; k < 2; k++) {
        CHECK(c, cnt[k] == (int)m.names[k].size() * (k ? opt_sign : 1), "%s: %d arguments, want %zu", what, cnt[k], m.names[k].size());
        for (size_t i = 0; i < m.names[k].size(); i++) {
            CHECK(c, nm[k] && (m.names[k][i] == "-" ? !nm[k][i] : nm[k][i] && m.names[k][i] == nm[k][i]), "%s: %s argument %zu is called %s", what, k ? "optional" : "required", i, nm[k] && nm[k][i] ? nm[k][i] : "none");
            if (!k || m.names[k][i] != "-") CHECK(c, ty[k] && ty[k][i] == m.types[k][i], "%s: %s argument %zu has type %d, want %d", what, k ? "optional" : "required", i, ty[k] ? ty[k][i] : -1, m.types[k][i]);
        }
    }
    CHECK(c, osc_expr_rec_getFunction(r) == (t_osc_expr_funcptr)run_none, "%s: another function", what);
}
static void record(Ctx &c) {
    HeapTrack::reset();
    HeapTrack::on();
    {
        MRec m;
        auto word = [&]() {
            std::string s;
            for (int k = c.s.size(12); k > 0; k--) s += c.s.pickc("abcxyz_ 019");
            return s;
        };
        m.name = word(), m.sig = word();
        t_osc_expr_rec *r = osc_expr_rec_alloc(), *d = nullptr;
        {
            Buf n(m.name + std::string(1, '\0')), s(m.sig + std::string(1, '\0'));
            osc_expr_rec_setName(r, n.p);
            osc_expr_rec_setSignature(r, s.p);
        }
        for (int k = 0; k < 2; k++) {
            int n = c.s.count(0, 6);
            if (k && n == 0) n = 1;
            std::vector<char *> ps;
            for (int i = 0; i < n; i++) {
                m.names[k].push_back(c.s.chance(12) ? "-" : word());
                m.types[k].push_back((int)c.s.below(0x200));
            }
            for (auto &x : m.names[k]) ps.push_back(x == "-" ? nullptr : (char *)x.c_str());
            if (!n) continue;
            if (k) osc_expr_rec_setOptionalArgs(r, n, ps.data(), m.types[k].data());
            else osc_expr_rec_setRequiredArgs(r, n, ps.data(), m.types[k].data());
        }
        osc_expr_rec_setFunction(r, run_none);
        c.note(m.name + strf(" %zu required %zu optional", m.names[0].size(), m.names[1].size()));
        c.nontrivial = m.names[0].size() + m.names[1].size() >= 2;
        same_rec(c, "the record", r, m, 1);
        int x;
        osc_expr_rec_setExtra(r, &x);
        CHECK(c, osc_expr_rec_getExtra(r) == &x, "another extra");
        osc_expr_rec_copy(&d, r, nullptr);
        CHECK(c, d && d != r, "no copy");
        same_rec(c, "the copy", d, m, 1);
        bool first = c.s.chance(50);
        void *extra = nullptr;
        osc_expr_rec_free(first ? r : d, &extra);
        CHECK(c, extra == (first ? &x : nullptr), "freeing the %s gives another extra", first ? "original" : "copy");
        same_rec(c, "after freeing the other", first ? d : r, m, 1);
        osc_expr_rec_free(first ? d : r, nullptr);
        // copies of the records of the library
        const exgen::Fn &f = c.s.pick(exgen::functions());
        t_osc_expr_rec *lib = osc_expr_lookupFunction((char *)f.name.c_str()), *lc = nullptr;
        osc_expr_rec_copy(&lc, lib, nullptr);
        CHECK(c, lc, "no copy of %s", f.name.c_str());
        CHECK(c, !strcmp(osc_expr_rec_getName(lc), osc_expr_rec_getName(lib)) && !strcmp(osc_expr_rec_getSignature(lc), osc_expr_rec_getSignature(lib)) &&
                     !strcmp(osc_expr_rec_getDocstring(lc), osc_expr_rec_getDocstring(lib)) && osc_expr_rec_getFunction(lc) == osc_expr_rec_getFunction(lib) &&
                     osc_expr_rec_getNumRequiredArgs(lc) == f.req && osc_expr_rec_getNumOptionalArgs(lc) == f.opt, "the copy of %s is another", f.name.c_str());
        for (int k = 0; k < 2; k++) {
            char **a = k ? osc_expr_rec_getOptionalArgsNames(lib) : osc_expr_rec_getRequiredArgsNames(lib), **b = k ? osc_expr_rec_getOptionalArgsNames(lc) : osc_expr_rec_getRequiredArgsNames(lc);
            int *ta = k ? osc_expr_rec_getOptionalArgsTypes(lib) : osc_expr_rec_getRequiredArgsTypes(lib), *tb = k ? osc_expr_rec_getOptionalArgsTypes(lc) : osc_expr_rec_getRequiredArgsTypes(lc);
            for (int i = 0; i < (k ? abs(f.opt) : f.req); i++) {
                if (a) CHECK(c, b && (a[i] ? b[i] && !strcmp(a[i], b[i]) : !b[i]), "%s argument %d of the copy of %s has another name", k ? "optional" : "required", i, f.name.c_str());
                if (ta && a && a[i]) CHECK(c, tb && ta[i] == tb[i], "%s argument %d of the copy of %s has another type", k ? "optional" : "required", i, f.name.c_str());
            }
        }
        osc_expr_rec_free(lc, nullptr);
    }
    HeapTrack::off();
}

namespace pt {
Property property = {"P41", "an expression with an operator or a call, more than one expression, or a text of more than two tokens",
    {{"parse", 5, parse}, {"build", 2, build}, {"tokens", 3, tokens}, {"records", 1, record}},
    {"white space between the parts of the printed form is not compared", "the precedence table is that of P29"},
    90000, 1500000, {}};
}
