// P40: sizes, padding, byte order and the order of types of single values
#include <algorithm>
#include <map>
#include "model.hpp"
extern "C" {
#include "osc_byteorder.h"
}
using namespace pt;

static const std::string known = "cCuUiIfhHdtsSbTFN.";
static long fixed_size(char t) {
    switch (t) {
    case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f': case 'm': case 'r': return 4;
    case 'h': case 'H': case 'd': case 't': return 8;
    case 'T': case 'F': case 'N': return 0;
    }
    return -1;
}
static std::string wire(Ctx &c, char t) {
    GenOpt o;
    if (t == 'S') t = 's';
    o.max_str = c.s.chance(10) ? 3000 : 12;
    o.max_blob = c.s.chance(10) ? 3000 : 12;
    MAtom a = gen_atom(c, o, 1, t);
    return enc(a);
}

static void sizes(Ctx &c) {
    unsigned char t = c.s.chance(70) ? (unsigned char)c.s.pick(std::vector<char>(known.begin(), known.end())) : (unsigned char)c.s.below(256);
    if (strchr("ASJjmr", t) && t != 'S') t = 'i'; // types of other sizes, which nothing makes
    std::string w = known.find((char)t) != std::string::npos ? wire(c, t) : "abcdefgh";
    c.note("type " + show(std::string(1, (char)t)) + " data " + show(w.substr(0, 200)));
    if (w.empty()) {
        Buf z(std::string(1, '\0'));
        CHECK(c, osc_sizeof(t, z.p) == 0, "size of type %c is %ld", t, (long)osc_sizeof(t, z.p));
        return;
    }
    Buf b(w);
    long n = (long)osc_sizeof(t, b.p);
    if (known.find((char)t) == std::string::npos || t > 127) CHECK(c, n == -1, "size of data of type %d is %ld", t, n);
    else CHECK(c, n == (long)w.size(), "size of data of type %c is %ld instead of %zu", t, n, w.size());
    CHECK(c, (long)osc_sizeof(t, nullptr) == -1, "size of no data of type %d", t);
    if (t == '.' && c.s.chance(50)) { // only the length of a bundle is read
        uint32_t len = c.s.below(1u << c.s.range(1, 28)) * 4;
        std::string h = be32(len);
        Buf hb(h);
        n = (long)osc_sizeof(t, hb.p);
        CHECK(c, n == (long)len + 4, "size of a bundle of %u bytes is %ld", len, n);
    }
    c.nontrivial = fixed_size(t) < 0 && w.size() > 4;
}

static void padding(Ctx &c) {
    size_t n = c.s.chance(70) ? c.s.below(40) : c.s.chance(90) ? c.s.below(5000) : c.s.below(1u << 30);
    c.note("n = " + std::to_string(n));
    c.nontrivial = n > 0;
    size_t blob = osc_util_getBlobLength(n), pad = osc_util_getPaddingForNBytes(n);
    CHECK(c, blob % 4 == 0 && blob >= n + 4 && blob < n + 8, "a blob of %zu bytes takes %zu", n, blob);
    CHECK(c, pad % 4 == 0 && pad > n && pad <= n + 4, "a string of %zu bytes takes %zu", n, pad);
    if (n > 6000) return;
    std::string s(n, 'a');
    for (size_t k = 0; k < n && k < 8; k++) s[c.s.below(n)] = (char)c.s.range(1, 255);
    Buf b(s + std::string(1, '\0'));
    CHECK(c, osc_util_getPaddedStringLen(b.p) == pad, "a string of %zu bytes takes %zu or %zu", n, osc_util_getPaddedStringLen(b.p), pad);
    CHECK(c, osc_util_getPaddedStringLen(nullptr) == 0, "padded length of no string");
    char *d = nullptr;
    int len = osc_util_strdup(&d, b.p);
    CHECK(c, d && len == (int)n && s == d, "a copy of %s is %s, length %d", show(s).c_str(), d ? show(d).c_str() : "none", len);
    std::string t = s.substr(0, c.s.below(n + 1));
    Buf b2(t + std::string(1, '\0'));
    char *before = d;
    len = osc_util_strdup(&d, b2.p);
    CHECK(c, d == before && len == (int)t.size() && t == d, "copied over: %s is %s", show(t).c_str(), show(d).c_str());
    osc_mem_free(d);
}

// a number's bytes in memory, and on the wire
static void byteorder(Ctx &c) {
    char t = c.s.pickc("iIhHfdcCuUtsbTFN.");
    std::string w = wire(c, t), host = w;
    bool num = strchr("iIhHfdcCuU", t) != nullptr;
    if (num) std::reverse(host.begin(), host.end()); // the checks run on a little-endian machine
    c.note("type " + std::string(1, t) + " wire " + show(w.substr(0, 200)));
    c.nontrivial = num && host != w;
    CHECK(c, !!osc_mem_shouldByteswap(t) == num, "values of type %c: %d", t, osc_mem_shouldByteswap(t));
    if (w.empty()) return;
    Buf h(host), e(w);
    std::vector<char> out(w.size(), 'x');
    char *p = out.data();
    CHECK(c, !osc_mem_encodeByteorder(t, h.p, &p) && std::string(out.begin(), out.end()) == w, "encoding %s of type %c gives %s", hex(host.data(), host.size()).c_str(), t, hex(out.data(), out.size()).c_str());
    out.assign(w.size(), 'x');
    p = out.data();
    CHECK(c, !osc_mem_decodeByteorder(t, e.p, &p) && std::string(out.begin(), out.end()) == host, "decoding %s of type %c gives %s", hex(w.data(), w.size()).c_str(), t, hex(out.data(), out.size()).c_str());
    uint64_t v = c.s.u64();
    uint16_t v16 = (uint16_t)v;
    uint32_t v32 = (uint32_t)v;
    uint16_t r16 = hton16(v16);
    uint32_t r32 = hton32(v32);
    uint64_t r64 = hton64(v);
    std::string b64 = be64(v);
    CHECK(c, std::string((char *)&r16, 2) == b64.substr(6) && std::string((char *)&r32, 4) == b64.substr(4) && std::string((char *)&r64, 8) == b64, "hton of %llx", (unsigned long long)v);
    CHECK(c, ntoh16(r16) == v16 && ntoh32(r32) == v32 && ntoh64(r64) == v, "ntoh(hton(%llx))", (unsigned long long)v);
}

// the order of types, from null to string, and their names
static const std::string ranked = "NTFcCuUiIhHfds";
static void types(Ctx &c) {
    char a = ranked[c.s.below(ranked.size())], b = ranked[c.s.below(ranked.size())];
    c.note(std::string("types ") + a + " and " + b);
    int x = osc_typetag_compare(a, b);
    int want = ranked.find(a) < ranked.find(b) ? -1 : a == b ? 0 : 1;
    CHECK(c, x == want, "comparing types %c and %c gives %d", a, b, x);
    // the largest of the types in some lists
    int n = c.s.below(5);
    std::vector<t_osc_atom_ar_u *> ar;
    size_t hi = 0;
    int total = 0;
    for (int i = 0; i < n; i++) {
        int len = c.s.below(4);
        t_osc_atom_ar_u *v = osc_atom_array_u_alloc(len);
        for (int k = 0; k < len; k++) {
            char t = ranked[c.s.below(ranked.size())];
            t_osc_atom_u *at = (t_osc_atom_u *)osc_atom_array_u_get(v, k);
            GenOpt o;
            t_osc_atom_u *src = build_atom(gen_atom(c, o, 0, t));
            osc_atom_u_copyInto(&at, src);
            osc_atom_u_free(src);
            t = t == 'F' ? 'T' : t; // the two are of the same size
            hi = std::max(hi, ranked.find(t));
            total++;
        }
        ar.push_back(v);
    }
    char l = osc_typetag_getLargestType(n, ar.data());
    if (l == 'F') l = 'T';
    for (auto v : ar) osc_atom_array_u_free(v);
    CHECK(c, l == ranked[hi], "the largest type of %d values is %c instead of %c", total, l, ranked[hi]);
    c.nontrivial = total > 1;
    int8_t tt = (int8_t)c.s.below(256);
    char *s = osc_typetag_str(tt);
    CHECK(c, s && *s, "type %d has no name", tt);
    static const std::map<char, std::string> names = {{'.', "bundle"}, {'C', "unsigned int8"}, {'F', "false"}, {'H', "unsigned int64"}, {'I', "unsigned int32"}, {'N', "null"}, {'T', "true"},
        {'U', "unsigned int16"}, {'c', "int8"}, {'d', "float64"}, {'f', "float32"}, {'h', "int64"}, {'i', "int32"}, {'s', "string"}, {'u', "int16"}};
    auto it = names.find((char)tt);
    if (it != names.end()) CHECK(c, it->second == s, "type %c is called %s", tt, s);
    int r = osc_typetag_compare((char)tt, a), q = osc_typetag_compare(a, (char)tt);
    CHECK(c, (r == 0) == ((char)tt == a) && (q == 0) == (r == 0), "comparing types %d and %c gives %d, %d", tt, a, r, q);
}

namespace pt {
Property property = {"P40", "a value whose size is in its data, a non-empty string, a number whose bytes are not a palindrome, or lists of two or more values",
    {{"sizes", 1, sizes}, {"padding", 1, padding}, {"byteorder", 1, byteorder}, {"types", 1, types}},
    {"little-endian machine", "types the library never makes (a, A, e, q, j, J, m, r, S as a type of its own) are left out"},
    800000, 4000000, {}};
}
