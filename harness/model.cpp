#include "model.hpp"
#include <set>
using pt::strf;

static bool is_int(char t) { return t && strchr("icCuUhHI", t); }
bool operator==(const MAtom &a, const MAtom &b) {
    if (a.tt != b.tt) return false;
    if (is_int(a.tt)) return a.i == b.i;
    switch (a.tt) {
    case 'f': return memcmp(&a.f, &b.f, 4) == 0;
    case 'd': return memcmp(&a.d, &b.d, 8) == 0;
    case 's':
    case 'b': return a.s == b.s;
    case 't': return a.sec == b.sec && a.frac == b.frac;
    case '.': return a.b == b.b;
    }
    return true;
}
bool operator==(const MMsg &a, const MMsg &b) { return a.addr == b.addr && a.args == b.args; }

MAtom mk(char tt, int64_t v) {
    MAtom a;
    a.tt = tt;
    a.i = v;
    return a;
}
MAtom mk_i(int32_t v) { return mk('i', v); }
MAtom mk_d(double v) {
    MAtom a;
    a.tt = 'd';
    a.d = v;
    return a;
}
MAtom mk_f(float v) {
    MAtom a;
    a.tt = 'f';
    a.f = v;
    return a;
}
MAtom mk_s(const std::string &v) {
    MAtom a;
    a.tt = 's';
    a.s = v;
    return a;
}
MAtom mk_t(uint32_t sec, uint32_t frac) {
    MAtom a;
    a.tt = 't';
    a.sec = sec;
    a.frac = frac;
    return a;
}
MAtom mk_bndl(const MBundle &b) {
    MAtom a;
    a.tt = '.';
    a.b = b;
    return a;
}

std::string dump(const MAtom &a) {
    if (is_int(a.tt)) return strf("%c:%lld", a.tt, (long long)a.i);
    switch (a.tt) {
    case 'f': return strf("f:%.9g", a.f);
    case 'd': return strf("d:%.17g", a.d);
    case 's': return "s:" + pt::show(a.s);
    case 'b': return "b:<" + pt::hex(a.s.data(), a.s.size()) + ">";
    case 't': return strf("t:%u.%u", a.sec, a.frac);
    case '.': return dump(a.b);
    }
    return std::string(1, a.tt);
}
std::string dump(const MMsg &m) {
    std::string s = m.addr + " [";
    for (size_t i = 0; i < m.args.size(); i++) s += (i ? ", " : "") + dump(m.args[i]);
    return s + "]";
}
std::string dump(const MBundle &b) {
    std::string s = "{";
    for (size_t i = 0; i < b.size(); i++) s += (i ? "; " : "") + dump(b[i]);
    return s + "}";
}

std::string be32(uint32_t v) {
    char c[4] = {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v};
    return std::string(c, 4);
}
std::string be64(uint64_t v) { return be32((uint32_t)(v >> 32)) + be32((uint32_t)v); }
std::string padstr(const std::string &s) {
    std::string r = s;
    r += '\0';
    while (r.size() % 4) r += '\0';
    return r;
}
std::string enc(const MAtom &a) {
    switch (a.tt) {
    case 'i':
    case 'I':
    case 'c':
    case 'C':
    case 'u':
    case 'U': return be32((uint32_t)a.i);
    case 'h':
    case 'H': return be64((uint64_t)a.i);
    case 'f': {
        uint32_t x;
        memcpy(&x, &a.f, 4);
        return be32(x);
    }
    case 'd': {
        uint64_t x;
        memcpy(&x, &a.d, 8);
        return be64(x);
    }
    case 's': return padstr(a.s);
    case 'b': {
        std::string r = be32((uint32_t)a.s.size()) + a.s;
        while (r.size() % 4) r += '\0';
        return r;
    }
    case 't': return be32(a.sec) + be32(a.frac);
    case '.': {
        std::string r = enc_bundle(a.b);
        return be32((uint32_t)r.size()) + r;
    }
    }
    return "";
}
std::string enc_msg(const MMsg &m) {
    std::string tt = ",", data;
    for (auto &a : m.args) {
        tt += a.tt;
        data += enc(a);
    }
    return padstr(m.addr) + padstr(tt) + data;
}
std::string enc_bundle(const MBundle &b, uint64_t tt) {
    std::string r("#bundle\0", 8);
    r += be64(tt);
    for (auto &m : b) {
        std::string e = enc_msg(m);
        r += be32((uint32_t)e.size()) + e;
    }
    return r;
}

static uint32_t rd32(const char *p) {
    const uint8_t *u = (const uint8_t *)p;
    return (uint32_t)u[0] << 24 | (uint32_t)u[1] << 16 | (uint32_t)u[2] << 8 | u[3];
}
static uint64_t rd64(const char *p) { return (uint64_t)rd32(p) << 32 | rd32(p + 4); }
static bool rdstr(const std::string &d, size_t &p, std::string &out) {
    size_t e = d.find('\0', p);
    if (e == std::string::npos) return false;
    out = d.substr(p, e - p);
    size_t n = e + 1;
    while (n % 4) {
        if (n >= d.size() || d[n]) return false;
        n++;
    }
    p = n;
    return true;
}
bool dec_bundle(const std::string &d, MBundle &out, uint64_t *tt, int depth) {
    out.clear();
    if (depth > 5000 || d.size() < 16 || memcmp(d.data(), "#bundle\0", 8)) return false;
    if (tt) *tt = rd64(d.data() + 8);
    size_t p = 16;
    while (p < d.size()) {
        if (p + 4 > d.size()) return false;
        uint32_t n = rd32(d.data() + p);
        p += 4;
        if (n > d.size() - p || n % 4) return false;
        std::string m = d.substr(p, n);
        p += n;
        MMsg mm;
        size_t q = 0;
        if (!rdstr(m, q, mm.addr) || mm.addr.empty() || mm.addr[0] != '/') return false;
        std::string tts;
        if (q >= m.size() || m[q] != ',' || !rdstr(m, q, tts)) return false;
        for (size_t i = 1; i < tts.size(); i++) {
            MAtom a;
            a.tt = tts[i];
            size_t left = m.size() - q;
            switch (a.tt) {
            case 'i':
            case 'c':
            case 'u':
                if (left < 4) return false;
                a.i = (int32_t)rd32(&m[q]);
                q += 4;
                break;
            case 'I':
            case 'C':
            case 'U':
                if (left < 4) return false;
                a.i = rd32(&m[q]);
                q += 4;
                break;
            case 'h':
            case 'H':
                if (left < 8) return false;
                a.i = (int64_t)rd64(&m[q]);
                q += 8;
                break;
            case 'f': {
                if (left < 4) return false;
                uint32_t x = rd32(&m[q]);
                memcpy(&a.f, &x, 4);
                q += 4;
                break;
            }
            case 'd': {
                if (left < 8) return false;
                uint64_t x = rd64(&m[q]);
                memcpy(&a.d, &x, 8);
                q += 8;
                break;
            }
            case 't':
                if (left < 8) return false;
                a.sec = rd32(&m[q]);
                a.frac = rd32(&m[q + 4]);
                q += 8;
                break;
            case 'T':
            case 'F':
            case 'N': break;
            case 's':
                if (!rdstr(m, q, a.s)) return false;
                break;
            case 'b': {
                if (left < 4) return false;
                uint32_t l = rd32(&m[q]);
                if (l > left - 4) return false;
                a.s = m.substr(q + 4, l);
                size_t e = 4 + (size_t)l;
                while (e % 4) e++;
                if (e > left) return false;
                q += e;
                break;
            }
            case '.': {
                if (left < 4) return false;
                uint32_t l = rd32(&m[q]);
                if (l > left - 4) return false;
                if (!dec_bundle(m.substr(q + 4, l), a.b, nullptr, depth + 1)) return false;
                q += 4 + l;
                break;
            }
            default: return false;
            }
            mm.args.push_back(a);
        }
        if (q != m.size()) return false;
        out.push_back(mm);
    }
    return true;
}

// ---------------------------------------------------------------- generators
static const char *SEG = "abcdefgh0123xyzABC_";
size_t gen_edge(pt::Ctx &c, size_t max) {
    static const int w[] = {4, 5, 6, 6, 7, 7, 8, 8, 9, 10, 10, 11, 12, 13, 16};
    size_t n = (size_t)1 << w[c.s.below(sizeof w / sizeof *w)];
    switch (c.s.below(4)) {
    case 0: break;
    case 1: n += c.s.below(10); break;
    case 2: n -= c.s.below(10); break;
    case 3: n += c.s.below(n); break;
    }
    return std::min(n, max);
}
static void lengthen(pt::Ctx &c, std::string &s, const GenOpt &o) {
    if (s.empty()) return;
    size_t n = gen_edge(c, o.big_max), l = s.size();
    while (s.size() < n) s += s[s.size() - l];
    s.resize(n);
}
std::string gen_seg(pt::Ctx &c, const GenOpt &o) {
    const char *cs = o.seg_chars ? o.seg_chars : SEG;
    int n = 1 + c.s.size(c.s.chance(10) ? 11 : 3);
    std::string r;
    for (int i = 0; i < n; i++) {
        if (!o.seg_chars && c.s.below(3)) r += c.s.pickc("ab"); // few letters, so that addresses collide
        else r += c.s.pickc(cs);
    }
    return r;
}
std::string gen_addr(pt::Ctx &c, const GenOpt &o) {
    std::string r = "/" + gen_seg(c, o);
    int n = o.deep_addr ? c.s.size(3) : 0;
    for (int i = 0; i < n; i++) r += "/" + gen_seg(c, o);
    if (c.s.chance(o.big)) {
        if (o.deep_addr && c.s.below(2)) // many segments
            for (size_t m = std::min<size_t>(o.big_count, gen_edge(c, o.big_max)); m; m--) r += "/" + std::string(1, r[1]);
        else { // a long one
            std::string l = gen_seg(c, o);
            lengthen(c, l, o);
            r = o.deep_addr ? r + "/" + l : "/" + l;
        }
    }
    return r;
}
std::string gen_string(pt::Ctx &c, const GenOpt &o) {
    int n = c.s.size(c.s.chance(8) ? o.max_str * 4 : o.max_str);
    std::string r;
    for (int i = 0; i < n; i++) {
        int k = (int)c.s.below(10);
        if (k < 5) r += (char)('a' + c.s.below(26));
        else if (k < 7) r += c.s.pickc("0123456789.-+ \"\\'[]{},:#/%s");
        else if (k < 9 || !o.any_bytes) r += (char)(32 + c.s.below(95));
        else r += (char)(1 + c.s.below(255));
    }
    if (c.s.chance(o.big)) lengthen(c, r, o);
    return r;
}
int64_t gen_int(pt::Ctx &c, char tt) {
    uint64_t v;
    switch (c.s.below(5)) {
    case 0: v = c.s.below(10); break;
    case 1: v = (uint64_t)-(int64_t)c.s.below(10); break;
    case 2: {
        static const uint64_t edge[] = {0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull,
                                        0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull,
                                        0xffffffffffffffffull, 0x12345678, 0x123456789abcdef0ull, 0xfedcba9876543210ull};
        v = edge[c.s.below(sizeof edge / sizeof *edge)];
        if (c.s.below(2)) v = ~v;
        break;
    }
    case 3: v = c.s.below(100000); break;
    default: v = c.s.u64();
    }
    switch (tt) {
    case 'i': return (int32_t)v;
    case 'I': return (uint32_t)v;
    case 'c': return (int8_t)v;
    case 'C': return (uint8_t)v;
    case 'u': return (int16_t)v;
    case 'U': return (uint16_t)v;
    }
    return (int64_t)v;
}
double gen_double(pt::Ctx &c, bool special) {
    switch (c.s.below(special ? 6 : 4)) {
    case 0: return (double)(int)c.s.below(20) - 5;
    case 1: return ((double)(int)c.s.below(4000) - 1000) / 8;
    case 2: return ((double)(int64_t)c.s.below(2000001) - 1000000) / (c.s.chance(20) ? 1. : 997.);
    case 3: return ldexp((double)(int)(c.s.below(2001)) - 1000, (int)c.s.below(60) - 30);
    case 4: {
        static const double e[] = {0., -0., 1e300, -1e300, 1e-300, INFINITY, -INFINITY, NAN, 5e-324, 1e9, -1e9, 4294967296., 16777217.,
                                   1e6, -1e6, 999999, -999999, 999999.5, -999999.5, 1000001, 1e5, 123456.5, 0.0001, 0.00001, 1e-5, 1e15, 1e16, 1e17};
        return e[c.s.below(sizeof e / sizeof *e)];
    }
    default: {
        uint64_t u = c.s.u64();
        double d;
        memcpy(&d, &u, 8);
        return d;
    }
    }
}
MAtom gen_atom(pt::Ctx &c, const GenOpt &o, int depth, char tt) {
    if (!tt) {
        do tt = c.s.pickc(o.types.c_str());
        while (false);
        if (tt == '.' && depth <= 0) tt = o.types[0];
    }
    MAtom a = mk(tt);
    switch (tt) {
    case 'f': a.f = (float)gen_double(c, o.special_floats); break;
    case 'd': a.d = gen_double(c, o.special_floats); break;
    case 's': a.s = gen_string(c, o); break;
    case 'b': {
        int n = c.s.size(c.s.chance(10) ? o.max_blob * 8 : o.max_blob);
        for (int i = 0; i < n; i++) a.s += (char)c.s.below(256);
        if (o.max_blob && c.s.chance(o.big)) lengthen(c, a.s, o);
        break;
    }
    case 't':
        a.sec = (uint32_t)gen_int(c, 'I');
        a.frac = (uint32_t)gen_int(c, 'I');
        break;
    case '.': a.b = gen_bundle(c, o, depth - 1); break;
    case 'T':
    case 'F':
    case 'N': break;
    default: a.i = gen_int(c, tt);
    }
    return a;
}
MMsg gen_msg(pt::Ctx &c, const GenOpt &o, int depth) {
    MMsg m;
    m.addr = gen_addr(c, o);
    int n = o.empty_args ? c.s.size(o.max_args) : 1 + c.s.size(o.max_args - 1);
    for (int i = 0; i < n; i++) m.args.push_back(gen_atom(c, o, depth));
    if (depth == o.depth && n && c.s.chance(o.big)) { // many, the short ones over and over
        std::vector<MAtom> v;
        for (auto &a : m.args)
            if (enc(a).size() < 100) v.push_back(a);
        for (size_t k = std::min<size_t>(o.big_count, gen_edge(c, o.big_max)); v.size() && m.args.size() < k;) m.args.push_back(v[m.args.size() % v.size()]);
    }
    return m;
}
MBundle gen_bundle(pt::Ctx &c, const GenOpt &o, int depth) {
    MBundle b;
    int n = c.s.size(o.max_msgs);
    std::set<std::string> seen;
    for (int i = 0; i < n; i++) {
        MMsg m = gen_msg(c, o, depth);
        if (o.unique_addr && !seen.insert(m.addr).second) continue;
        b.push_back(m);
    }
    if (depth == o.depth && b.size() && c.s.chance(o.big)) { // many, under other addresses
        size_t l = b.size();
        for (size_t k = std::min<size_t>(o.big_count, gen_edge(c, o.big_max)), i = 0; b.size() < k && i < k; i++) {
            MMsg m = b[i % l];
            if (enc_msg(m).size() > 200) continue;
            std::string x;
            for (size_t j = i / l + 1; j; j /= 26) x += (char)('a' + j % 26);
            if (o.seg_chars && x.find_first_not_of(o.seg_chars) != std::string::npos) continue;
            if (o.unique_addr || c.s.below(4)) m.addr += x;
            if (o.unique_addr && !seen.insert(m.addr).second) continue;
            b.push_back(m);
        }
    }
    if (depth == o.depth && depth > 0 && o.types.find('.') != std::string::npos && c.s.chance(o.big) && c.s.below(3) && enc_bundle(b).size() < 300) { // deep
        std::string ad = std::string("/") + (o.seg_chars ? o.seg_chars[0] : 'n');
        for (int k = c.s.range(3, o.big_depth); k; k--) {
            MMsg m;
            m.addr = ad;
            MAtom in;
            in.tt = '.';
            in.b = b;
            if (c.s.chance(20)) m.args.push_back(gen_atom(c, o, 0));
            m.args.push_back(in);
            if (c.s.chance(20)) m.args.push_back(gen_atom(c, o, 0));
            b = {m};
        }
    }
    return b;
}

// ---------------------------------------------------------------- library objects
static char *blob_bytes(const MAtom &a) {
    std::string e = be32((uint32_t)a.s.size()) + a.s;
    char *p = (char *)malloc(e.size());
    memcpy(p, e.data(), e.size());
    return p;
}
static void set_atom(t_osc_atom_u *u, const MAtom &a) {
    switch (a.tt) {
    case 'i': osc_atom_u_setInt32(u, (int32_t)a.i); break;
    case 'I': osc_atom_u_setUInt32(u, (uint32_t)a.i); break;
    case 'c': osc_atom_u_setInt8(u, (int8_t)a.i); break;
    case 'C': osc_atom_u_setUInt8(u, (uint8_t)a.i); break;
    case 'u': osc_atom_u_setInt16(u, (int16_t)a.i); break;
    case 'U': osc_atom_u_setUInt16(u, (uint16_t)a.i); break;
    case 'h': osc_atom_u_setInt64(u, a.i); break;
    case 'H': osc_atom_u_setUInt64(u, (uint64_t)a.i); break;
    case 'f': osc_atom_u_setFloat(u, a.f); break;
    case 'd': osc_atom_u_setDouble(u, a.d); break;
    case 's': osc_atom_u_setString(u, a.s.c_str()); break;
    case 'T': osc_atom_u_setTrue(u); break;
    case 'F': osc_atom_u_setFalse(u); break;
    case 'N': osc_atom_u_setNil(u); break;
    case 't': osc_atom_u_setTimetag(u, t_osc_timetag{a.sec, a.frac}); break;
    case 'b': {
        char *p = blob_bytes(a);
        osc_atom_u_setBlob(u, p);
        free(p);
        break;
    }
    case '.': osc_atom_u_setBndl_u(u, build_bundle(a.b)); break;
    }
}
t_osc_atom_u *build_atom(const MAtom &a) {
    t_osc_atom_u *u = osc_atom_u_alloc();
    set_atom(u, a);
    return u;
}
t_osc_atom_u *make_atom(const MAtom &a) {
    switch (a.tt) {
    case 'i': return osc_atom_u_allocWithInt32((int32_t)a.i);
    case 'f': return osc_atom_u_allocWithFloat(a.f);
    case 'd': return osc_atom_u_allocWithDouble(a.d);
    case 't': {
        t_osc_timetag t;
        memset(&t, 0, sizeof t);
        t.sec = a.sec;
        t.frac_sec = a.frac;
        return osc_atom_u_allocWithTimetag(t);
    }
    case 's': return osc_atom_u_allocWithString((char *)a.s.c_str());
    case '.': return osc_atom_u_allocWithBndl(build_bundle(a.b));
    default: return build_atom(a);
    }
}
t_osc_msg_u *build_msg(const MMsg &m) {
    t_osc_msg_u *u = osc_message_u_alloc();
    osc_message_u_setAddress(u, m.addr.c_str());
    for (auto &a : m.args) osc_message_u_appendAtom(u, build_atom(a));
    return u;
}
t_osc_bndl_u *build_bundle(const MBundle &b) {
    t_osc_bndl_u *u = osc_bundle_u_alloc();
    for (auto &m : b) osc_bundle_u_addMsg(u, build_msg(m));
    return u;
}
MAtom read_atom(t_osc_atom_u *u) {
    MAtom a = mk(osc_atom_u_getTypetag(u));
    switch (a.tt) {
    case 'i': a.i = osc_atom_u_getInt32(u); break;
    case 'I': a.i = osc_atom_u_getUInt32(u); break;
    case 'c': a.i = osc_atom_u_getInt8(u); break;
    case 'C': a.i = osc_atom_u_getUInt8(u); break;
    case 'u': a.i = osc_atom_u_getInt16(u); break;
    case 'U': a.i = osc_atom_u_getUInt16(u); break;
    case 'h': a.i = osc_atom_u_getInt64(u); break;
    case 'H': a.i = (int64_t)osc_atom_u_getUInt64(u); break;
    case 'f': a.f = osc_atom_u_getFloat(u); break;
    case 'd': a.d = osc_atom_u_getDouble(u); break;
    case 's': {
        char *p = osc_atom_u_getStringPtr(u);
        a.s = p ? p : "<null>";
        break;
    }
    case 't': {
        t_osc_timetag t = osc_atom_u_getTimetag(u);
        a.sec = t.sec;
        a.frac = t.frac_sec;
        break;
    }
    case 'b': {
        char *p = osc_atom_u_getBlob(u);
        if (p) a.s.assign(p + 4, rd32(p));
        break;
    }
    case '.': a.b = read_bundle(osc_atom_u_getBndl(u)); break;
    }
    return a;
}
MMsg read_msg(t_osc_msg_u *u) {
    MMsg m;
    char *ad = osc_message_u_getAddress(u);
    m.addr = ad ? ad : "";
    t_osc_msg_it_u *it = osc_msg_it_u_get(u);
    int i = 0;
    while (osc_msg_it_u_hasNext(it)) {
        t_osc_atom_u *a = osc_msg_it_u_next(it);
        m.args.push_back(read_atom(a));
        // the same by its index
        if (i < 50 && osc_message_u_getArg(u, i) != a) m.args.back() = mk('?');
        i++;
    }
    osc_msg_it_u_destroy(it);
    return m;
}
MBundle read_bundle(t_osc_bndl_u *b) {
    MBundle r;
    if (!b) return r;
    t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
    while (osc_bndl_it_u_hasNext(it)) r.push_back(read_msg(osc_bndl_it_u_next(it)));
    osc_bndl_it_u_destroy(it);
    return r;
}
void spellable(MBundle &b) {
    for (auto &m : b)
        for (auto &a : m.args) {
            if ((a.tt == 'c' || a.tt == 'C') && ((a.i & 255) == 0 || (a.i & 255) == '\n')) a.i = 'x';
            if (a.tt == 'f' && !std::isfinite(a.f)) a.f = 1.5f;
            if (a.tt == 'd' && !std::isfinite(a.d)) a.d = 1.5;
            if (a.tt == '.') spellable(a.b);
        }
}
extern "C" t_osc_bndl_u *osc_parser_parseString_r(long len, char *ptr);
t_osc_bndl_u *come_by_bundle(pt::Ctx &c, MBundle &b) {
    switch (c.s.below(4)) {
    case 1: {
        std::string w = enc_bundle(b);
        Buf in(w);
        return osc_bundle_s_deserialize(in.n, in.p);
    }
    case 2: {
        if (b.empty()) break;
        spellable(b);
        t_osc_bndl_u *u = build_bundle(b);
        char *text = osc_bundle_u_format(u);
        t_osc_bndl_u *p = osc_parser_parseString_r(strlen(text), text);
        osc_mem_free(text);
        if (!p) return u;
        osc_bundle_u_free(u);
        b = read_bundle(p);
        c.label("from text");
        return p;
    }
    case 3: {
        t_osc_bndl_u *u = build_bundle(b), *d = nullptr;
        osc_bundle_u_flatten(&d, u, 1, (char *)"", 0);
        osc_bundle_u_free(u);
        b = read_bundle(d);
        return d;
    }
    }
    return build_bundle(b);
}
MBundle must_decode(pt::Ctx &c, const char *what, const char *ptr, long len) {
    MBundle b;
    CHECK(c, ptr, "%s: no bytes", what);
    if (!dec_bundle(std::string(ptr, len), b))
        c.fail("%s: not a well-formed bundle: %s", what, pt::hex(ptr, len).c_str());
    return b;
}
std::string typestring(const MMsg &m) {
    std::string r = ",";
    for (auto &a : m.args) r += a.tt;
    return r;
}
Buf::Buf(const std::string &s) {
    n = (long)s.size();
    p = (char *)malloc(n ? n : 1);
    memcpy(p, s.data(), n);
}
Buf::~Buf() { free(p); }

int gen_truth(pt::Ctx &c) {
    static const int v[] = {1, 2, 3, -1, 256, 65536, -256, INT32_MIN, INT32_MAX, 1 << 24};
    return v[c.s.below(sizeof v / sizeof *v)];
}
