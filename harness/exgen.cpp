#include "exgen.hpp"
using namespace pt;

namespace exgen {

const std::vector<Fn> &functions() {
    // the names and numbers of required and optional arguments in osc_expr_func.h, without jn and yn,
    // whose time in libm is proportional to the order given to them
    static const std::vector<Fn> v = {
        {"+", 2, 0}, {"-", 2, 0}, {"*", 2, 0}, {"/", 2, 0}, {"<", 2, 0}, {"<=", 2, 0}, {">", 2, 0}, {">=", 2, 0},
        {"==", 2, 0}, {"!=", 2, 0}, {"&", 2, 0}, {"|", 2, 0}, {"&&", 2, 0}, {"||", 2, 0}, {"%", 2, 0}, {"=", 2, 0},
        {"++", 1, 0}, {"--", 1, 0}, {"+=", 2, 0}, {"-=", 2, 0}, {"*=", 2, 0}, {"/=", 2, 0}, {"%=", 2, 0}, {"??", 2, 0},
        {".", 2, 0}, {"add", 2, 0}, {"sub", 2, 0}, {"mul", 2, 0}, {"div", 2, 0}, {"lt", 2, 0}, {"le", 2, 0}, {"gt", 2, 0},
        {"ge", 2, 0}, {"eq", 2, 0}, {"ne", 2, 0}, {"and", 2, 0}, {"or", 2, 0}, {"andalso", 2, 0}, {"orelse", 2, 0}, {"mod", 2, 0},
        {"assign", 2, 0}, {"plus1", 1, 0}, {"minus1", 1, 0}, {"abs", 1, 0}, {"acos", 1, 0}, {"asin", 1, 0}, {"atan", 1, 0}, {"atan2", 2, 0},
        {"ceil", 1, 0}, {"cos", 1, 0}, {"cosh", 1, 0}, {"exp", 1, 0}, {"floor", 1, 0}, {"fmod", 2, 0}, {"log", 1, 0}, {"log10", 1, 0},
        {"pow", 2, 0}, {"sin", 1, 0}, {"sinh", 1, 0}, {"sqrt", 1, 0}, {"tan", 1, 0}, {"tanh", 1, 0}, {"erf", 1, 0}, {"erfc", 1, 0},
        {"gamma", 1, 0}, {"hypot", 2, 0}, {"j0", 1, 0}, {"j1", 1, 0}, {"lgamma", 1, 0}, {"y0", 1, 0}, {"y1", 1, 0},
        {"acosh", 1, 0}, {"asinh", 1, 0}, {"atanh", 1, 0}, {"cbrt", 1, 0}, {"expm1", 1, 0}, {"ilogb", 1, 0}, {"logb", 1, 0},
        {"nextafter", 2, 0}, {"remainder", 2, 0}, {"round", 1, 0}, {"nth", 2, -1}, {"assign_to_index", 3, 0}, {"product", 1, 0}, {"sum", 1, 0}, {"cumsum", 1, 0},
        {"length", 1, 0}, {"avg", 1, 0}, {"mean", 1, 0}, {"median", 1, 0}, {"reverse", 1, 0}, {"rev", 1, 0}, {"sort", 1, -1}, {"sortidx", 1, 0},
        {"nonzero", 1, 0}, {"list", 0, -1}, {"nfill", 1, 1}, {"aseq", 2, 1}, {"interleave", 2, -1}, {"first", 1, 0}, {"last", 1, 0}, {"rest", 1, 0},
        {"butlast", 1, 0}, {"!", 1, 0}, {"not", 1, 0}, {"dot", 2, 0}, {"cross", 2, 0}, {"det", 1, -1}, {"l2norm", 1, 0}, {"min", 1, 0},
        {"max", 1, 0}, {"range", 1, 0}, {"extrema", 1, 0}, {"clip", 3, 0}, {"scale", 5, 0}, {"mtof", 1, 1}, {"ftom", 1, 1}, {"sign", 1, 0},
        {"if", 2, 1}, {"strlen", 1, 0}, {"strchar", 2, 0}, {"strfind", 2, 0}, {"strcmp", 2, 1}, {"split", 2, 0}, {"join", 2, -1}, {"bound", 1, 0},
        {"exists", 1, 0}, {"emptybundle", 0, 1}, {"getaddresses", 0, 1}, {"delete", 1, -1}, {"getmsgcount", 0, 0}, {"identity", 1, 0}, {"eval", 1, 0}, {"tokenize", 1, 0},
        {"prog1", 1, -1}, {"prog2", 1, -1}, {"progn", 1, -1}, {"apply", 2, -1}, {"map", 2, -1}, {"lreduce", 2, 1}, {"rreduce", 2, 1}, {"quote", 1, 0},
        {"value", 1, 0}, {"lambda", 0, 0}, {"gettimetag", 0, 0}, {"settimetag", 1, 0}, {"getbundlemember", 2, 0}, {"assigntobundlemember", 3, 0}, {"bitand", 2, 0}, {"bitor", 2, 0},
        {"pi", 0, 0}, {"twopi", 0, 0}, {"halfpi", 0, 0}, {"quarterpi", 0, 0}, {"oneoverpi", 0, 0}, {"twooverpi", 0, 0}, {"degtorad", 0, 0}, {"radtodeg", 0, 0},
        {"e", 0, 0}, {"lntwo", 0, 0}, {"lnten", 0, 0}, {"logtwoe", 0, 0}, {"logtene", 0, 0}, {"sqrttwo", 0, 0}, {"sqrthalf", 0, 0}, {"float32", 1, 0},
        {"float64", 1, 0}, {"int8", 1, 0}, {"char", 1, 0}, {"int16", 1, 0}, {"int32", 1, 0}, {"int64", 1, 0}, {"uint8", 1, 0}, {"uint16", 1, 0},
        {"uint32", 1, 0}, {"uint64", 1, 0}, {"bool", 1, 0}, {"string", 1, 0}, {"blob", 1, 0}, {"cast", 2, 0}, {"typetags", 1, 0}, {"hton32", 1, 0},
        {"ntoh32", 1, 0}, {"hton64", 1, 0}, {"ntoh64", 1, 0}, {"readstring", 1, 0}, {"strtotime", 1, 0}, {"floattotime", 1, 0}, {"match", 2, 0}, {"quickhull", 1, 1},
        {"bundle", 0, -1}, {"phi", 0, 0}, {"twelfth_root_of_2", 0, 0}, {"thirteenth_root_of_3", 0, 0},
    };
    return v;
}

static bool is_word(const std::string &s) { return !s.empty() && isalpha((unsigned char)s[0]); }

static const std::vector<std::string> ADDR = {"/a", "/b", "/c", "/d", "/e", "/f", "/g", "/t", "/x", "/y", "/a/b", "/missing"};
static const std::vector<std::string> PATS = {"/*", "/?", "/[a-c]", "/{a,b}", "/*/b", "/"};

static MAtom any_atom(Ctx &c, int depth);

static MMsg mk_msg(const std::string &a, std::vector<MAtom> v) {
    MMsg m;
    m.addr = a;
    m.args = std::move(v);
    return m;
}

static std::string text_atom(Ctx &c) {
    static const std::vector<std::string> v = {"foo", "1", "/a", "", "12.5", "sin", "/x = 1", "/a + 1", "a,b;c", "1.2.3", "quote", "x",
        "lambda([x], x + 1)", "+", "\"", "say \"hi\", \"bye\"", "\"\"", "eval(/c)", "[1, 2", "*", "2014-07-01T12:30:00.5Z", "2014-13-99", "now", "i", "sss", "f", "-1e9"};
    return c.s.pick(v);
}

static MAtom any_atom(Ctx &c, int depth) {
    switch (c.s.weighted({6, 4, 4, 2, 2, 1, 1, 1})) {
    case 0: return mk_i(c.s.range(-3, 40) + (c.s.chance(3) ? 2147483600 : 0));
    case 1: return c.s.chance(50) ? mk_d(c.s.range(-40, 40) / 4.0) : mk_f((float)c.s.range(-40, 40) / 8);
    case 2: return mk_s(text_atom(c));
    case 3: return mk(c.s.pickc("hHIcCuUTFN"), 0 + c.s.range(0, 7));
    case 4: {
        if (depth <= 0) return mk_i(0);
        MBundle b;
        int n = c.s.range(0, 2);
        for (int i = 0; i < n; i++) {
            std::vector<MAtom> v;
            int k = c.s.range(0, 2);
            for (int j = 0; j < k; j++) v.push_back(any_atom(c, depth - 1));
            b.push_back(mk_msg(c.s.pick(ADDR), v));
        }
        return mk_bndl(b);
    }
    case 5: {
        MAtom a;
        a.tt = 'b';
        int n = c.s.range(0, 9);
        if (c.s.chance(25)) {
            MBundle b = {mk_msg("/a", {mk_i(1)})};
            a.s = enc_bundle(b);
        } else
            for (int i = 0; i < n; i++) a.s.push_back((char)c.s.below(256));
        return a;
    }
    case 6: return mk_t((uint32_t)c.s.u64(), (uint32_t)c.s.u64());
    default: {
        static const std::vector<double> sp = {INFINITY, -INFINITY, NAN, 1e300, -1e18, 4e9, 1e-300, 0.0};
        return mk_d(c.s.pick(sp));
    }
    }
}

MBundle bundle(Ctx &c) {
    MBundle b;
    switch (c.s.weighted({14, 1, 1, 2})) {
    case 1: return b; // nothing in it
    case 2: {
        int n = c.s.range(1, 4);
        for (int i = 0; i < n; i++) b.push_back(mk_msg(c.s.pick(ADDR), {}));
        return b;
    }
    default: break;
    }
    auto list = [&](int lo, int hi, auto f) {
        std::vector<MAtom> v;
        int n = c.s.range(lo, hi);
        for (int i = 0; i < n; i++) v.push_back(f());
        return v;
    };
    b.push_back(mk_msg("/a", list(1, 4, [&] { return mk_i(c.s.range(-5, 20)); })));
    b.push_back(mk_msg("/b", list(1, 4, [&] { return mk_d(c.s.range(-40, 40) / 8.0); })));
    b.push_back(mk_msg("/c", list(1, 3, [&] { return mk_s(text_atom(c)); })));
    b.push_back(mk_msg("/d", {mk_bndl({mk_msg("/a", {mk_i(7), mk_d(.5)}), mk_msg("/x", {mk_bndl({mk_msg("/y", {mk_s("in")})})})})}));
    if (c.s.chance(30)) b.back().args.push_back(mk_bndl({}));
    b.push_back(mk_msg("/e", {}));
    b.push_back(mk_msg("/f", list(0, 6, [&] { return any_atom(c, 2); })));
    {
        MAtom g;
        g.tt = 'b';
        g.s = c.s.chance(50) ? enc_bundle({mk_msg("/a", {mk_i(2)})}) : std::string("\1\2\3\0\377", 5);
        b.push_back(mk_msg("/g", {g}));
    }
    b.push_back(mk_msg("/t", {mk_t((uint32_t)c.s.u64(), (uint32_t)c.s.u64())}));
    int n = c.s.size(3);
    for (int i = 0; i < n; i++) {
        std::string a = c.s.chance(15) ? c.s.pick(PATS) : c.s.pick(ADDR);
        MMsg m = mk_msg(a, list(0, 3, [&] { return any_atom(c, 1); }));
        b.insert(b.begin() + c.s.below(b.size() + 1), m);
    }
    return b;
}

static std::string quoted(const std::string &s) {
    std::string r = "\"";
    for (char ch : s) {
        if (ch == '"' || ch == '\\') r += '\\';
        r += ch;
    }
    return r + "\"";
}

static std::string number(Ctx &c) {
    static const std::vector<std::string> v = {"0", "1", "2", "3", "-1", "7", "0.5", "1.5", "-2.25", "1e3", "0x10", "4294967296", "18446744073709551615",
        "2147483647", "-2147483648", "1e300", "'a'", "100", "true", "false", "nil", "0xffffffffff", "1.", ".5", "-0.0", "300"};
    return c.s.pick(v);
}

struct G {
    Ctx &c;
    std::vector<std::string> vars;
    int budget = 40;
    explicit G(Ctx &c_) : c(c_) {}

    std::string addr() { return c.s.chance(4) ? c.s.pick(PATS) : c.s.pick(ADDR); }
    std::string atom() {
        switch (c.s.weighted({4, 7, 3, 2, 1})) {
        case 0: return number(c);
        case 1: return addr();
        case 2: return quoted(text_atom(c));
        case 3: return vars.empty() ? std::string("3") : c.s.pick(vars);
        default: return c.s.chance(50) ? "foo" : c.s.pick(functions()).name;
        }
    }
    std::string args(int n, int depth) {
        std::string r;
        for (int i = 0; i < n; i++) r += (i ? ", " : "") + expr(depth - 1);
        return r;
    }
    std::string fcall(int depth) {
        const Fn &f = c.s.pick(functions());
        int n = f.req;
        if (c.s.chance(f.opt ? 50 : 0)) n += c.s.range(0, f.opt < 0 ? 3 : f.opt);
        if (c.s.chance(10)) n = c.s.range(0, 4);
        if (c.s.chance(2)) return std::string(c.s.chance(50) ? "jn(" : "yn(") + std::to_string(c.s.range(-3, 20)) + ", " + expr(depth - 1) + ")";
        std::string name = f.name == "lambda" || !is_word(f.name) ? std::string("list") : f.name;
        return name + "(" + args(n, depth) + ")";
    }
    std::string lambda(int depth) {
        int n = c.s.range(0, 3);
        size_t keep = vars.size();
        std::string r = "lambda([";
        static const std::vector<std::string> names = {"x", "y", "z", "a", "sin"};
        for (int i = 0; i < n; i++) {
            std::string v = c.s.pick(names);
            vars.push_back(v);
            r += (i ? ", " : "") + v;
        }
        if (n == 1 && c.s.chance(30)) r = "lambda(" + vars.back() + ", ";
        else r += "], ";
        int k = c.s.range(1, 2);
        r += args(k, depth) + ")";
        vars.resize(keep);
        return r;
    }
    std::string expr(int depth) {
        if (depth <= 0 || --budget <= 0) return atom();
        static const std::vector<std::string> bin = {" + ", " - ", " * ", " / ", " % ", " ^ ", " == ", " != ", " < ", " <= ", " > ", " >= ", " & ", " | ",
            " && ", " || ", "+", "*"};
        static const std::vector<std::string> opeq = {" += ", " -= ", " *= ", " /= ", " %= ", " ^= ", " = ", " ??= "};
        switch (c.s.weighted({6, 6, 8, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 2})) {
        case 0: return atom();
        case 1: return expr(depth - 1) + c.s.pick(bin) + expr(depth - 1);
        case 2: return fcall(depth);
        case 3: return addr() + c.s.pick(opeq) + expr(depth - 1);
        case 4: return "[" + args(c.s.range(0, 4), depth) + "]";
        case 5: return "(" + expr(depth - 1) + ")";
        case 6: return expr(depth - 1) + " ? " + expr(depth - 1) + " : " + expr(depth - 1);
        case 7: return addr() + " ?? " + expr(depth - 1);
        case 8: return expr(depth - 1) + "[[ " + args(c.s.range(1, 3), depth) + " ]]";
        case 9: {
            std::string ix = args(c.s.range(1, 2), depth);
            if (c.s.chance(30)) ix = expr(0) + " : " + expr(0);
            if (c.s.chance(10)) ix = expr(0) + " : " + expr(0) + " : " + expr(0);
            return addr() + "[[ " + ix + " ]] = " + expr(depth - 1);
        }
        case 10: {
            std::string r = c.s.chance(15) ? "foo" : addr();
            int n = c.s.range(1, 3);
            for (int i = 0; i < n; i++) r += "." + addr();
            if (c.s.chance(50)) r += " = " + expr(depth - 1);
            return r;
        }
        case 11: {
            std::string r = "{";
            int n = c.s.range(0, 3);
            for (int i = 0; i < n; i++) r += (i ? ", " : "") + (c.s.chance(10) ? atom() : addr()) + " : " + expr(depth - 1);
            return r + "}";
        }
        case 12: {
            static const std::vector<std::string> hof = {"apply", "map", "lreduce", "rreduce", "reduce"};
            std::string f;
            switch (c.s.below(4)) {
            case 0: f = lambda(depth - 1); break;
            case 1: f = c.s.pick(functions()).name; break;
            case 2: f = quoted(c.s.pick(functions()).name); break;
            default: f = expr(depth - 1);
            }
            if (c.s.chance(25)) return "(" + f + ", " + args(c.s.range(1, 2), depth) + ")";
            return c.s.pick(hof) + "(" + f + ", " + args(c.s.range(1, 2), depth) + ")";
        }
        case 13: return "quote(" + expr(depth - 1) + ")";
        case 14: {
            static const std::vector<std::string> u = {"!", "-", "++", "--"};
            return c.s.chance(50) ? c.s.pick(u) + expr(depth - 1) : addr() + (c.s.chance(50) ? "++" : "--");
        }
        default:
            if (c.s.chance(30)) return "`" + atom() + "`";
            return lambda(depth);
        }
    }
};

std::string program(Ctx &c) {
    G g(c);
    int n = 1 + c.s.size(3);
    std::string r;
    for (int i = 0; i < n; i++) {
        if (i) r += c.s.chance(5) ? "; " : ", ";
        if (c.s.chance(60)) r += c.s.pick(std::vector<std::string>{"/x", "/y", "/a", "/d", "/e"}) + " = ";
        r += g.expr(c.s.range(1, 4));
        if (c.s.chance(4)) r += c.s.pick(std::vector<std::string>{",", " # comment\n", "\n", "# c"});
    }
    return r;
}

std::string call(Ctx &c) {
    G g(c);
    const Fn &f = c.s.pick(functions());
    int n = f.req;
    if (c.s.chance(60)) n += f.opt < 0 ? c.s.range(0, 4) : c.s.range(0, f.opt);
    if (c.s.chance(4)) n = c.s.range(0, 6);
    std::string r = c.s.chance(70) ? "/x = " : "";
    std::string a;
    for (int i = 0; i < n; i++) {
        std::string e;
        switch (c.s.weighted({12, 4, 2, 1, 1})) {
        case 0: e = g.atom(); break;
        case 1: e = "[" + g.args(c.s.range(0, 4), 1) + "]"; break;
        case 2: e = g.expr(2); break;
        case 3: e = g.lambda(1); break;
        default: e = "quote(" + g.atom() + ")";
        }
        a += (i ? ", " : "") + e;
    }
    if (!is_word(f.name) || f.name == "lambda") {
        // operators: through apply, or infix
        if (c.s.chance(50)) return r + "apply(\"" + f.name + "\"" + (a.empty() ? "" : ", " + a) + ")";
        return r + g.atom() + " " + f.name + " " + g.atom();
    }
    return r + f.name + "(" + a + ")";
}

std::string soup(Ctx &c) {
    static const std::vector<std::string> tok = {"(", ")", "[", "]", "[[", "]]", "{", "}", ",", ";", ":", "?", "??", "??=", "=", "==", "!=", "<", "<=", ">", ">=",
        "+", "-", "*", "/", "%", "^", "&", "|", "&&", "||", "!", "++", "--", "+=", "-=", "*=", "/=", "%=", "^=", ".", "`", "\"", "'", "\\", "#", "\n",
        "quote(", "quote (", "lambda(", "lambda([", "lambda", "/a", "/b", "/d", "/x", "/", "foo", "x", "1", "0", "1.5", "0x", "0x1f", "1e", "1e5", "'a'", "''",
        "true", "nil", "sin(", "list(", "if(", "eval(", "\"s\"", "\"\"", "\"a\\\"b\"", "map(", "apply(", "assign(", "/a.b", "/a./b", ".", "99999999999999999999", "\t"};
    int n = 1 + c.s.size(25);
    std::string r;
    for (int i = 0; i < n; i++) {
        r += c.s.chance(10) ? c.s.pick(functions()).name : c.s.pick(tok);
        if (!c.s.chance(40)) r += " ";
    }
    return r;
}

std::string raw(Ctx &c) {
    int n = c.s.size(60);
    std::string r;
    for (int i = 0; i < n; i++) {
        if (c.s.chance(70)) r += c.s.pickc("/ab()[]{},;:?=+-*.\"'`\\#01x \n!&|<>^%quotelmd");
        else r += (char)(1 + c.s.below(255));
    }
    return r;
}

std::string mutant(Ctx &c) {
    std::string t = c.s.chance(50) ? program(c) : call(c);
    int n = 1 + c.s.size(4);
    for (int i = 0; i < n; i++) {
        size_t at = c.s.below(t.size() + 1);
        switch (c.s.below(5)) {
        case 0: if (at < t.size()) t.erase(at, 1 + c.s.below(3)); break;
        case 1: t.insert(at, 1, c.s.pickc("/ab()[]{},;:?=+-*.\"'`\\#01x \n!&|<>^%")); break;
        case 2: t.insert(at, soup(c).substr(0, 12)); break;
        case 3: t = t.substr(0, at); break;
        default: {
            size_t b = c.s.below(t.size() + 1);
            size_t len = 1 + c.s.below(12);
            if (b < t.size()) t.insert(at, t.substr(b, len));
        }
        }
    }
    return t;
}

bool may_grow(const std::string &text, const std::string &bndl) {
    static const char *w[] = {"aseq", "nfill", "eval", "apply", "lambda", "map", "reduce", "compile", "tokenize", ":"};
    for (const char *s : w)
        if (text.find(s) != std::string::npos || bndl.find(s) != std::string::npos) return true;
    return false;
}

} // namespace exgen
