#include "expr.hpp"
extern "C" {
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
}
namespace ex {

Run run(const std::string &text, const std::string &bndl) {
    Run r;
    Buf t(std::string(text.c_str(), text.size() + 1));
    t_osc_expr *e = nullptr;
    t_osc_err pe = osc_expr_parser_parseExpr(t.p, &e, nullptr);
    long len = (long)bndl.size();
    char *b = (char *)osc_mem_alloc(len ? len : 1);
    memcpy(b, bndl.data(), len);
    r.parsed = !pe && e;
    if (r.parsed) {
        for (t_osc_expr *x = e; x; x = osc_expr_next(x)) {
            t_osc_atom_ar_u *out = nullptr;
            r.err = osc_expr_eval(x, &len, &b, &out, nullptr);
            r.n++;
            r.has_out = out != nullptr;
            r.out.clear();
            if (out) {
                for (int i = 0; i < osc_atom_array_u_getLen(out); i++)
                    r.out.push_back(read_atom((t_osc_atom_u *)osc_atom_array_u_get(out, i)));
                osc_atom_array_u_free(out);
            }
            if (r.err) break;
        }
    }
    r.bndl.assign(b, len);
    osc_mem_free(b);
    if (e) osc_expr_free(e);
    return r;
}

int rank(char t) {
    const char *o = "NTFcCuUiIhHfds";
    const char *p = strchr(o, t);
    return p && t ? (int)(p - o) : 0;
}
double num(const MAtom &a) {
    switch (a.tt) {
    case 'f': return a.f;
    case 'd': return a.d;
    case 'H': return (double)(uint64_t)a.i;
    case 'T': return 1;
    case 'F': case 'N': return 0;
    default: return (double)a.i;
    }
}
int64_t inum(const MAtom &a) {
    if (a.tt == 'T') return 1;
    if (a.tt == 'F' || a.tt == 'N') return 0;
    return a.i;
}
int64_t trunc_to(char t, int64_t v) {
    switch (t) {
    case 'c': return (int8_t)v;
    case 'C': return (uint8_t)v;
    case 'u': return (int16_t)v;
    case 'U': return (uint16_t)v;
    case 'i': return (int32_t)v;
    case 'I': return (uint32_t)v;
    default: return v;
    }
}
bool same(const MAtom &a, const MAtom &b) {
    if (a.tt != b.tt) return false;
    if (a.tt == 'd') return (std::isnan(a.d) && std::isnan(b.d)) || a.d == b.d;
    if (a.tt == 'f') return (std::isnan(a.f) && std::isnan(b.f)) || a.f == b.f;
    return a == b;
}
bool same(const VList &a, const VList &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!same(a[i], b[i])) return false;
    return true;
}
bool close_enough(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    double m = std::max(std::max(fabs(a), fabs(b)), 1.0);
    return fabs(a - b) <= tol * m;
}
std::string dump(const VList &l) {
    std::string s = "[";
    for (auto &a : l) s += (s.size() > 1 ? ", " : "") + ::dump(a);
    return s + "]";
}

std::string lit(const MAtom &a) {
    switch (a.tt) {
    case 'i': return a.i >= 0 ? pt::strf("%d", (int)a.i) : "";
    case 'I': return pt::strf("0x%x", (unsigned)a.i);
    case 'H': return pt::strf("0x%012llx", (unsigned long long)a.i);
    case 'd': {
        if (!std::isfinite(a.d) || std::signbit(a.d)) return "";
        std::string s = pt::strf("%.17g", a.d);
        if (s.find_first_of(".e") == std::string::npos) s += ".";
        if (s.find('.') == std::string::npos) s.insert(s.find('e'), ".");
        return s;
    }
    case 'T': return "true";
    case 'F': return "false";
    case 'N': return "nil";
    case 'c': return a.i >= 33 && a.i < 127 && a.i != '\'' ? pt::strf("'%c'", (int)a.i) : "";
    case 's':
        for (char ch : a.s)
            if (ch == '"' || ch == '\\') return "";
        return "\"" + a.s + "\"";
    }
    return "";
}

static MAtom dbl(double d) { return mk_d(d); }
static MAtom in(char t, int64_t v) { return mk(t, trunc_to(t, v)); }
static void need_num(const MAtom &a, const MAtom &b) {
    if (!isnum(a.tt) || !isnum(b.tt)) throw Err{};
}
static char wider(const MAtom &a, const MAtom &b) {
    char t = rank(a.tt) > rank(b.tt) ? a.tt : b.tt;
    return isbool(t) ? 'i' : t;
}
MAtom add(const MAtom &a, const MAtom &b) {
    if (a.tt == 's' && b.tt == 's') return mk_s(a.s + b.s);
    need_num(a, b);
    if (isflt(a.tt) || isflt(b.tt)) return dbl(num(a) + num(b));
    return in(wider(a, b), (int64_t)((uint64_t)inum(a) + (uint64_t)inum(b)));
}
MAtom sub(const MAtom &a, const MAtom &b) {
    need_num(a, b);
    if (isflt(a.tt) || isflt(b.tt)) return dbl(num(a) - num(b));
    bool wide = rank(a.tt) > rank('i') || rank(b.tt) > rank('i');
    return in(wide ? 'h' : 'i', (int64_t)((uint64_t)inum(a) - (uint64_t)inum(b)));
}
MAtom mul(const MAtom &a, const MAtom &b) {
    need_num(a, b);
    if (isflt(a.tt) || isflt(b.tt)) return dbl(num(a) * num(b));
    return in(wider(a, b), (int64_t)((uint64_t)inum(a) * (uint64_t)inum(b)));
}
MAtom div(const MAtom &a, const MAtom &b) {
    need_num(a, b);
    if (isflt(a.tt) || isflt(b.tt)) {
        if (num(b) == 0) return mk_s("Inf");
        return dbl(num(a) / num(b));
    }
    char t = wider(a, b);
    int64_t x = trunc_to(t, inum(a)), y = trunc_to(t, inum(b));
    if (y == 0) return mk_s("Inf");
    if (t == 'H') return in(t, (int64_t)((uint64_t)x / (uint64_t)y));
    if (y == -1) return in(t, (int64_t)(0 - (uint64_t)x));
    return in(t, x / y);
}
// the remainder with the sign of the positive modulus: 0 <= r < |b|
MAtom mod(const MAtom &a, const MAtom &b) {
    need_num(a, b);
    if (num(b) == 0) return a;
    if (isflt(a.tt) || isflt(b.tt)) {
        double x = num(a), m = fabs(num(b));
        double r = fmod(x, m);
        if (r < 0) r += m;
        return dbl(r);
    }
    bool wide = rank(a.tt) > rank('i') || rank(b.tt) > rank('i');
    __int128 x = a.tt == 'H' ? (__int128)(uint64_t)a.i : inum(a), y = b.tt == 'H' ? (__int128)(uint64_t)b.i : inum(b);
    if (y < 0) y = -y;
    __int128 r = x % y;
    if (r < 0) r += y;
    return in(wide ? 'h' : 'i', (int64_t)r);
}
static int order(const MAtom &a, const MAtom &b, bool &un) {
    un = false;
    if (a.tt == 's' && b.tt == 's') {
        int r = strcmp(a.s.c_str(), b.s.c_str());
        return r < 0 ? -1 : r > 0;
    }
    if (a.tt == 's') return 1;
    if (b.tt == 's') return -1;
    if (a.tt == 't' && b.tt == 't') {
        uint64_t x = (uint64_t)a.sec << 32 | a.frac, y = (uint64_t)b.sec << 32 | b.frac;
        return x < y ? -1 : x > y;
    }
    if ((a.tt == 't' && isnum(b.tt)) || (b.tt == 't' && isnum(a.tt))) { // a number of seconds
        auto sec = [](const MAtom &x) { return x.tt == 't' ? x.sec + x.frac / 4294967296.0 : num(x); };
        double x = sec(a), y = sec(b);
        return x < y ? -1 : x > y;
    }
    need_num(a, b);
    if (isint(a.tt) && isint(b.tt)) {
        __int128 p = a.tt == 'H' ? (__int128)(uint64_t)a.i : a.i, q = b.tt == 'H' ? (__int128)(uint64_t)b.i : b.i;
        return p < q ? -1 : p > q;
    }
    double x = num(a), y = num(b);
    if (std::isnan(x) || std::isnan(y)) un = true;
    return x < y ? -1 : x > y;
}
MAtom cmp(const std::string &op, const MAtom &a, const MAtom &b) {
    if ((op == "==" || op == "!=") && (a.tt == 'N' || b.tt == 'N')) return mk((a.tt == b.tt) == (op == "==") ? 'T' : 'F');
    if ((op == "==" || op == "!=") && a.tt == '.' && b.tt == '.') return mk((enc_bundle(a.b) == enc_bundle(b.b)) == (op == "==") ? 'T' : 'F');
    if (a.tt == '.' || b.tt == '.') throw Err{};
    if ((op == "==" || op == "!=") && (a.tt == 's') != (b.tt == 's')) throw Err{};
    if ((a.tt == 's') != (b.tt == 's') && !isnum(a.tt) && !isnum(b.tt)) throw Err{};
    bool un;
    int o = order(a, b, un);
    bool r;
    if (op == "<") r = !un && o < 0;
    else if (op == "<=") r = !un && o <= 0;
    else if (op == ">") r = !un && o > 0;
    else if (op == ">=") r = !un && o >= 0;
    else if (op == "==") r = !un && o == 0;
    else r = un || o != 0;
    return mk(r ? 'T' : 'F');
}
VList zip(MAtom (*f)(const MAtom &, const MAtom &), const VList &a, const VList &b) {
    VList r;
    size_t n = a.size() == 1 ? b.size() : b.size() == 1 ? a.size() : std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++) r.push_back(f(a[a.size() == 1 ? 0 : i], b[b.size() == 1 ? 0 : i]));
    return r;
}

int64_t small_int(pt::Ctx &c, char t) {
    int64_t v;
    switch (c.s.weighted({6, 3, 1})) {
    case 0: v = c.s.range(-9, 20); break;
    case 1: v = c.s.range(-1000, 1000); break;
    default: v = gen_int(c, t); break;
    }
    return trunc_to(t, v);
}
MAtom gen_num(pt::Ctx &c, const char *types, bool special) {
    char t = c.s.pickc(types);
    if (t == 'd' || t == 'f') {
        double d;
        switch (c.s.weighted({4, 4, special ? 2 : 0})) {
        case 0: d = c.s.range(-20, 40) / 4.0; break;
        case 1: d = c.s.range(-100000, 100000) / 1000.0; break;
        default: d = gen_double(c, true); break;
        }
        if (t == 'f') return mk_f((float)d);
        return mk_d(d);
    }
    if (isint(t)) return mk(t, small_int(c, t));
    return mk(t);
}
VList gen_list(pt::Ctx &c, const char *types, int lo, int hi, bool special) {
    VList l;
    int n = lo == hi ? lo : c.s.count(lo, hi);
    // mostly one type, sometimes mixed
    char one[2] = {c.s.pickc(types), 0};
    bool mixed = c.s.chance(40);
    for (int i = 0; i < n; i++) l.push_back(gen_num(c, mixed ? types : one, special));
    return l;
}
std::string operand(pt::Ctx &c, const char *addr, const VList &l) {
    if (!c.s.chance(l.size() < 40 ? 30 : 5)) return addr;
    std::string s;
    for (auto &a : l) {
        std::string t = lit(a);
        if (t.empty()) return addr;
        s += (s.empty() ? "" : ", ") + t;
    }
    if (l.empty()) return addr;
    if (l.size() == 1 && c.s.chance(50)) return s;
    return "[" + s + "]";
}
} // namespace ex
