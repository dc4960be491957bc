// P05: reading a value as another type follows one conversion table, the same in both forms
// uses: fmt.cpp
#include "conv.hpp"
using namespace pt;

using namespace conv;
static bool same(double x, double y) { return x == y || (x != x && y != y); }

#define INT(name, T, w, sgn, fmtT)                                                                                     \
    {                                                                                                                  \
        int64_t want;                                                                                                  \
        if (ref_int(a, w, sgn, want)) {                                                                                \
            T gu = osc_atom_u_get##name(u), gs = osc_atom_s_get##name(s);                                              \
            CHECK(c, gu == (T)want, "in-memory %s as " #name ": %" fmtT ", want %" fmtT, dump(a).c_str(), gu, (T)want); \
            CHECK(c, gs == (T)want, "serialised %s as " #name ": %" fmtT ", want %" fmtT, dump(a).c_str(), gs, (T)want); \
        }                                                                                                              \
    }

static void getters(Ctx &c) {
    MAtom a = gen_value(c);
    c.note(dump(a));
    c.nontrivial = !strchr("TFN", a.tt);
    t_osc_atom_u *u = c.s.chance(30) ? make_atom(a) : build_atom(a);
    std::string w = enc(a);
    Buf b(w);
    t_osc_atom_s *s = osc_atom_s_alloc(a.tt, b.p);
    INT(Int8, int8_t, 8, true, PRId8)
    INT(UInt8, uint8_t, 8, false, PRIu8)
    INT(Int16, int16_t, 16, true, PRId16)
    INT(UInt16, uint16_t, 16, false, PRIu16)
    INT(Int32, int32_t, 32, true, PRId32)
    INT(Int, int, 32, true, "d")
    INT(UInt32, uint32_t, 32, false, PRIu32)
    INT(Int64, int64_t, 64, true, PRId64)
    INT(UInt64, uint64_t, 64, false, PRIu64)
    double wd = ref_double(a, false);
    CHECK(c, same(osc_atom_u_getDouble(u), wd), "in-memory %s as a double: %.17g, want %.17g", dump(a).c_str(), osc_atom_u_getDouble(u), wd);
    CHECK(c, same(osc_atom_s_getDouble(s), wd), "serialised %s as a double: %.17g, want %.17g", dump(a).c_str(), osc_atom_s_getDouble(s), wd);
    float wf = (float)ref_double(a, true);
    CHECK(c, same(osc_atom_u_getFloat(u), wf), "in-memory %s as a float: %.9g, want %.9g", dump(a).c_str(), osc_atom_u_getFloat(u), wf);
    CHECK(c, same(osc_atom_s_getFloat(s), wf), "serialised %s as a float: %.9g, want %.9g", dump(a).c_str(), osc_atom_s_getFloat(s), wf);
    CHECK(c, !!osc_atom_u_getBool(u) == ref_bool(a), "in-memory %s as a boolean", dump(a).c_str());
    CHECK(c, !!osc_atom_s_getBool(s) == ref_bool(a), "serialised %s as a boolean", dump(a).c_str());
    // as a string: allocated, and into a buffer of exactly the size
    std::string ws = fmt_value(a);
    char *p = nullptr;
    int lu = osc_atom_u_getStringLen(u), ls = osc_atom_s_getStringLen(s);
    CHECK(c, lu == (int)ws.size(), "in-memory string length of %s: %d, want %zu", dump(a).c_str(), lu, ws.size());
    CHECK(c, ls == (int)ws.size(), "serialised string length of %s: %d, want %zu", dump(a).c_str(), ls, ws.size());
    int n = osc_atom_u_getString(u, 0, &p);
    CHECK(c, n == lu && p && !memcmp(p, ws.c_str(), lu + 1), "in-memory %s as a string: %s, want %s", dump(a).c_str(), p ? show(p).c_str() : "-", show(ws).c_str());
    free(p);
    p = nullptr;
    n = osc_atom_s_getString(s, 0, &p);
    CHECK(c, n == ls && p && !memcmp(p, ws.c_str(), ls + 1), "serialised %s as a string: %s, want %s", dump(a).c_str(), p ? show(p).c_str() : "-", show(ws).c_str());
    free(p);
    for (int form = 0; form < 2; form++) {
        size_t more = c.s.chance(30) ? c.s.below(100) : 0; // room to spare
        Buf out(std::string(ws.size() + 1 + more, '\xAA'));
        p = out.p;
        n = form ? osc_atom_s_getString(s, out.n, &p) : osc_atom_u_getString(u, out.n, &p);
        CHECK(c, p == out.p && n == (int)ws.size() && !memcmp(p, ws.c_str(), ws.size() + 1), "%s into a buffer of its size: %s", dump(a).c_str(),
              show(std::string(out.p, out.n)).c_str());
    }
    { // into a buffer that is too small: nothing beyond it is written
        size_t k = c.s.below(ws.size() + 1);
        for (int form = 0; form < 2 && k; form++) {
            Buf out(std::string(k, '\xAA'));
            p = out.p;
            form ? osc_atom_s_getString(s, out.n, &p) : osc_atom_u_getString(u, out.n, &p);
            CHECK(c, p == out.p, "%s into a buffer of %zu: another buffer", dump(a).c_str(), k);
        }
    }
    t_osc_timetag tu = osc_atom_u_getTimetag(u), ts = osc_atom_s_getTimetag(s);
    CHECK(c, tu.sec == a.sec && tu.frac_sec == a.frac, "in-memory %s as a timetag: %u.%u", dump(a).c_str(), tu.sec, tu.frac_sec);
    CHECK(c, ts.sec == a.sec && ts.frac_sec == a.frac, "serialised %s as a timetag: %u.%u", dump(a).c_str(), ts.sec, ts.frac_sec);
    CHECK(c, !osc_atom_u_getBlob(u) == (a.tt != 'b') && !osc_atom_s_getBlob(s) == (a.tt != 'b'), "blob access of %s", dump(a).c_str());
    // reading changes nothing
    CHECK(c, read_atom(u) == a && !memcmp(b.p, w.data(), w.size()), "reading changed the value");
    osc_atom_s_free(s);
    osc_atom_u_free(u);
}

// reading a value that is not there gives zero, empty or nothing, from any function and either form
static void nothing(Ctx &c) {
    c.nontrivial = true;
    int k = (int)c.s.below(36);
    c.note("getter " + std::to_string(k));
    double r = 0;
    void *p = nullptr;
    char *q = nullptr;
    int32_t len = 0;
    t_osc_timetag t = {0, 0};
    t_osc_atom_u *u = nullptr;
    t_osc_atom_s *s = nullptr;
    switch (k) {
    case 0: r = osc_atom_u_getInt8(u); break;
    case 1: r = osc_atom_s_getInt8(s); break;
    case 2: r = osc_atom_u_getUInt8(u); break;
    case 3: r = osc_atom_s_getUInt8(s); break;
    case 4: r = osc_atom_u_getInt16(u); break;
    case 5: r = osc_atom_s_getInt16(s); break;
    case 6: r = osc_atom_u_getUInt16(u); break;
    case 7: r = osc_atom_s_getUInt16(s); break;
    case 8: r = osc_atom_u_getInt32(u); break;
    case 9: r = osc_atom_s_getInt32(s); break;
    case 10: r = osc_atom_u_getUInt32(u); break;
    case 11: r = osc_atom_s_getUInt32(s); break;
    case 12: r = (double)osc_atom_u_getInt64(u); break;
    case 13: r = (double)osc_atom_s_getInt64(s); break;
    case 14: r = (double)osc_atom_u_getUInt64(u); break;
    case 15: r = (double)osc_atom_s_getUInt64(s); break;
    case 16: r = osc_atom_u_getInt(u); break;
    case 17: r = osc_atom_s_getInt(s); break;
    case 18: r = osc_atom_u_getFloat(u); break;
    case 19: r = osc_atom_s_getFloat(s); break;
    case 20: r = osc_atom_u_getDouble(u); break;
    case 21: r = osc_atom_s_getDouble(s); break;
    case 22: r = osc_atom_u_getBool(u); break;
    case 23: r = osc_atom_s_getBool(s); break;
    case 24: r = osc_atom_u_getStringLen(u); break;
    case 25: r = osc_atom_s_getStringLen(s); break;
    case 26: r = osc_atom_u_getString(u, 0, &q), p = q; break;
    case 27: r = osc_atom_s_getString(s, 0, &q), p = q; break;
    case 28: t = osc_atom_u_getTimetag(u); break;
    case 29: t = osc_atom_s_getTimetag(s); break;
    case 30: p = osc_atom_u_getBlob(u), r = osc_atom_u_getBlobLen(u) > 0; break;
    case 31: p = osc_atom_s_getBlob(s), r = osc_atom_s_getBlobLen(s) > 0; break;
    case 32: osc_atom_u_getBlobCopy(u, &len, &q), p = q, r = len > 0; break;
    case 33: osc_atom_s_getBlobCopy(&q, &len, s), p = q, r = len > 0; break;
    case 34: r = (double)osc_atom_u_sizeof(u) + osc_atom_u_getTypetag(u) + (double)osc_atom_u_getSerializedSize(u), p = osc_atom_u_getBndl(u); break;
    case 35: r = (double)osc_atom_s_sizeof(s) + osc_atom_s_getTypetag(s), p = osc_atom_s_getBndl(s); break;
    }
    CHECK(c, r == 0 && !p && !t.sec && !t.frac_sec, "reading no value with getter %d gave %g, %p, %u.%u", k, r, p, t.sec, t.frac_sec);
}

static void negate(Ctx &c) {
    GenOpt o;
    char t = c.s.pickc("ifdhHIcCuUTFNts");
    MAtom a = gen_atom(c, o, 0, t), want = a;
    c.note(dump(a));
    c.nontrivial = isint(t) || t == 'f' || t == 'd';
    switch (t) {
    case 'c':
    case 'C': want = mk('c', (int8_t)-a.i); break;
    case 'u':
    case 'U': want = mk('u', (int16_t)-a.i); break;
    case 'i':
    case 'I': want = mk('i', (int32_t)-a.i); break;
    case 'h':
    case 'H': want = mk('h', (int64_t)(0 - (uint64_t)a.i)); break;
    case 'f': want.f = -a.f; break;
    case 'd': want.d = -a.d; break;
    }
    t_osc_atom_u *u = c.s.chance(30) ? make_atom(a) : build_atom(a);
    osc_atom_u_negate(u);
    MAtom got = read_atom(u);
    CHECK(c, got == want, "in-memory negation of %s: %s, want %s", dump(a).c_str(), dump(got).c_str(), dump(want).c_str());
    osc_atom_u_free(u);
    Buf b(enc(a));
    t_osc_atom_s *s = osc_atom_s_alloc(t, b.p);
    osc_atom_s_negate(s);
    std::string w = enc(want);
    CHECK(c, osc_atom_s_getTypetag(s) == want.tt && !memcmp(osc_atom_s_getData(s), w.data(), w.size()), "serialised negation of %s: %c %s, want %c %s",
          dump(a).c_str(), osc_atom_s_getTypetag(s), hex(osc_atom_s_getData(s), w.size()).c_str(), want.tt, hex(w.data(), w.size()).c_str());
    osc_atom_s_free(s);
}

// a blob copy carries the length and the big-endian bytes of the value
static void blob_copy(Ctx &c) {
    GenOpt o;
    char t = c.s.pickc("ifdhHIcCuUsb.");
    MAtom a = gen_atom(c, o, 1, t);
    c.note(dump(a));
    c.nontrivial = true;
    std::string want;
    switch (t) {
    case 'c':
    case 'C': want = std::string(1, (char)a.i); break;
    case 'u':
    case 'U': want = be32((uint32_t)a.i).substr(2); break;
    case 's':
    case 'b': want = a.s; break;
    case '.': want = enc_bundle(a.b); break;
    default: want = enc(a);
    }
    t_osc_atom_u *u = c.s.chance(30) ? make_atom(a) : build_atom(a);
    char *p = nullptr;
    int32_t n = 0;
    osc_atom_u_getBlobCopy(u, &n, &p);
    CHECK(c, p && n >= (int)want.size() + 4, "in-memory blob copy buffer of %d bytes for %zu", n, want.size());
    CHECK(c, std::string(p, 4 + want.size()) == be32((uint32_t)want.size()) + want, "in-memory blob copy of %s: %s, want %s", dump(a).c_str(),
          hex(p, 4 + want.size()).c_str(), hex(want.data(), want.size()).c_str());
    free(p);
    p = nullptr;
    // the serialised form: its bytes as they are
    std::string body = a.tt == 'b' ? a.s : enc(a);
    t_osc_atom_s *s = osc_atom_u_serialize(u);
    osc_atom_s_getBlobCopy(&p, &n, s);
    CHECK(c, p && n >= (int)body.size() + 4, "blob copy buffer of %d bytes for %zu", n, body.size());
    CHECK(c, std::string(p, 4 + body.size()) == be32((uint32_t)body.size()) + body, "blob copy of %s: %s, want %s", dump(a).c_str(),
          hex(p, 4 + body.size()).c_str(), hex(body.data(), body.size()).c_str());
    free(p);
    osc_mem_free(osc_atom_s_getData(s));
    osc_atom_s_free(s);
    osc_atom_u_free(u);
}

namespace pt {
Property property = {
    "P05",
    "values of every type (boundary integers, floats at the edges of the integer types, numeric and other strings, blobs of 2-8 "
    "bytes) are read through every getter of both forms and compared with a reference conversion table, C's own for numbers; "
    "float-to-integer reads only where the truncated value fits the type; strings also go into buffers too small, and every getter is given no value at all. Non-trivial: a value with data",
    {{"getters", 6, getters}, {"negate", 2, negate}, {"blob copy", 1, blob_copy}, {"no value", 1, nothing}},
    {"out-of-range float-to-integer conversions are undefined in C and not read", "8-bit reads of a string give its first character",
     "negation is in the signed type of the same width and wraps"},
    600000, 20000000,
};
}
