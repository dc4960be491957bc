#include "ops.hpp"
#include <algorithm>
#include "expr.hpp"
#include "exgen.hpp"
using namespace pt;
extern "C" {
t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);
t_osc_bndl_u *osc_parser_parseString_r(long len, char *ptr);
t_osc_err osc_legacy_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl);
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *context);
}

namespace ops {

static GenOpt opts(Ctx &c) {
    GenOpt o;
    o.types = c.s.chance(60) ? "ifdshHIcCuUTFNtb." : "ssbb..i";
    o.max_args = 3;
    o.max_msgs = 3;
    o.depth = 2;
    o.max_str = c.s.chance(20) ? 60 : 9;
    o.seg_chars = "abc";
    return o;
}
static char *lib_bytes(const std::string &s) { // a block that the library will own
    char *p = (char *)osc_mem_alloc(s.size() ? s.size() : 1);
    memcpy(p, s.data(), s.size());
    return p;
}
static char *lib_string(const std::string &s) { return lib_bytes(s + std::string(1, '\0')); }
static std::string blob_bytes(const std::string &s) {
    std::string r = be32((uint32_t)s.size()) + s;
    while (r.size() % 4) r += '\0';
    return r;
}
static const std::vector<std::string> &strs() {
    static const std::vector<std::string> v = {"", "a", "foo", "a \"quoted\\ string", "a much longer string than the others, which needs a block of its own"};
    return v;
}
static std::string str(Ctx &c) { return c.s.pick(strs()); }
// a string or blob that stays the caller's
static char *own_string(Ctx &c) { return (char *)c.s.pick(strs()).c_str(); }
static char *own_blob(Ctx &c) {
    static std::vector<std::string> b;
    if (b.empty())
        for (auto &s : strs()) b.push_back(blob_bytes(s));
    return (char *)c.s.pick(b).data();
}
// a string that is given to the atom, or one that is not
static void string_ptr(Ctx &c, t_osc_atom_u *a) {
    if (c.s.chance(50)) {
        osc_atom_u_setStringPtr(a, lib_string(str(c)));
        osc_atom_u_setShouldFreePtr(a, 1);
    } else osc_atom_u_setStringPtr(a, own_string(c));
}
static std::string pattern(Ctx &c) {
    static const std::vector<std::string> v = {"/*", "/a", "/a/*", "/[ab]*", "/{a,bc}", "/b/c", "/?"};
    return c.s.pick(v);
}

// ---------------------------------------------------------------- one value
static void set(Ctx &c, t_osc_atom_u *a) {
    GenOpt o = opts(c);
    switch (c.s.below(20)) {
    case 0: osc_atom_u_setString(a, str(c).c_str()); break;
    case 1: osc_atom_u_clear(a); string_ptr(c, a); break;
    case 2: string_ptr(c, a); break;
    case 3: osc_atom_u_setBlob(a, (char *)blob_bytes(str(c)).data()); break;
    case 4:
        if (c.s.chance(50)) {
            osc_atom_u_setBlobPtr(a, lib_bytes(blob_bytes(str(c))));
            osc_atom_u_setShouldFreePtr(a, 1);
        } else osc_atom_u_setBlobPtr(a, own_blob(c));
        break;
    case 5: osc_atom_u_setBndl_u(a, build_bundle(gen_bundle(c, o, 1))); break;
    case 6: {
        Buf w(enc_bundle(gen_bundle(c, o, 1)));
        osc_atom_u_setBndl_s(a, w.n, w.p);
        break;
    }
    case 7: osc_atom_u_setInt32(a, 1); break;
    case 8: osc_atom_u_setDouble(a, 1.5); break;
    case 9: osc_atom_u_setFloat(a, 1.5f); break;
    case 10: osc_atom_u_setInt64(a, 5); break;
    case 11: osc_atom_u_setUInt64(a, 5); break;
    case 12: osc_atom_u_setInt8(a, 5); break;
    case 13: osc_atom_u_setUInt16(a, 5); break;
    case 14: osc_atom_u_setBool(a, 1); break;
    case 15: osc_atom_u_setNil(a); break;
    case 16: osc_atom_u_setTimetag(a, osc_timetag_floatToTimetag(1.25)); break;
    case 17: osc_atom_u_setTrue(a); break;
    case 18: osc_atom_u_setFalse(a); break;
    default: osc_atom_u_clear(a);
    }
}
static void set_in_place(Ctx &c, t_osc_atom_s *s, char tt) { // a value of the size that is there
    int n = osc_sizeof(tt, nullptr);
    if (tt == 's' || tt == 'S' || tt == 'b' || tt == 'B' || tt == '.') return;
    if (n == 4) switch (c.s.below(7)) {
        case 0: osc_atom_s_setFloat(s, 1.5f); break;
        case 1: osc_atom_s_setInt8(s, 3); break;
        case 2: osc_atom_s_setInt16(s, 3); break;
        case 3: osc_atom_s_setInt32(s, 3); break;
        case 4: osc_atom_s_setUInt8(s, 3); break;
        case 5: osc_atom_s_setUInt16(s, 3); break;
        default: osc_atom_s_setUInt32(s, 3);
        }
    else if (n == 8) switch (c.s.below(4)) {
        case 0: osc_atom_s_setDouble(s, 1.5); break;
        case 1: osc_atom_s_setInt64(s, 3); break;
        case 2: osc_atom_s_setUInt64(s, 3); break;
        default: osc_atom_s_setTimetag(s, osc_timetag_floatToTimetag(1.25));
        }
    else switch (c.s.below(3)) {
        case 0: osc_atom_s_setTrue(s); break;
        case 1: osc_atom_s_setFalse(s); break;
        default: osc_atom_s_setNil(s);
        }
    osc_atom_s_negate(s);
}
static void read_value(Ctx &c, t_osc_atom_u *a) {
    switch (c.s.below(7)) {
    case 0: {
        char *s = nullptr;
        osc_atom_u_getString(a, 0, &s);
        osc_mem_free(s);
        break;
    }
    case 1: {
        char *p = nullptr;
        int32_t n = 0;
        osc_atom_u_getBlobCopy(a, &n, &p);
        osc_mem_free(p);
        break;
    }
    case 2: osc_mem_free(osc_atom_u_format(a)); break;
    case 3: {
        osc_atom_u_getStringLen(a);
        osc_atom_u_getBlobLen(a);
        osc_atom_u_getFormattedSize(a);
        osc_atom_u_getSerializedSize(a);
        osc_atom_u_sizeof(a);
        break;
    }
    case 4: osc_atom_u_getDouble(a), osc_atom_u_getInt64(a), osc_atom_u_getBool(a), osc_atom_u_getTimetag(a); break;
    case 5: {
        if (!osc_atom_u_getTypetag(a)) break;
        long n = osc_atom_u_getSerializedSize(a);
        char *b = (char *)malloc(n + 8);
        osc_atom_u_nserialize(b, n + 8, a);
        char tt = osc_atom_u_getTypetag(a);
        t_osc_atom_s *s = osc_atom_s_alloc(tt, b);
        switch (c.s.below(8)) {
        case 0: osc_mem_free(osc_atom_s_format(s)); break;
        case 1: osc_atom_u_free(osc_atom_s_deserialize(s)); break;
        case 2: {
            char *x = nullptr;
            osc_atom_s_getString(s, 0, &x);
            osc_mem_free(x);
            break;
        }
        case 3: {
            char *x = nullptr;
            int32_t l = 0;
            osc_atom_s_getBlobCopy(&x, &l, s);
            osc_mem_free(x);
            break;
        }
        case 4: set_in_place(c, s, tt); break;
        case 5: {
            char buf[64];
            osc_atom_s_getInt(s), osc_atom_s_getBool(s), osc_atom_s_getDouble(s), osc_atom_s_getTimetag(s), osc_atom_s_getBlobLen(s), osc_atom_s_getStringLen(s);
            osc_atom_s_nformat(buf, sizeof buf, s, 0);
            if (tt == 'b') osc_atom_s_getBlob(s);
            break;
        }
        default:
            if (tt == '.') {
                if (c.s.chance(50)) osc_bundle_s_deepFree(osc_atom_s_getBndlCopy(s));
                else osc_bundle_s_free(osc_atom_s_getBndl(s));
            }
        }
        osc_atom_s_free(s);
        free(b);
        break;
    }
    default: break;
    }
}
void values(Ctx &c) {
    std::vector<t_osc_atom_u *> v;
    int n = 1 + c.s.size(12);
    for (int i = 0; i < n; i++) {
        if (v.empty() || c.s.chance(20)) {
            GenOpt o = opts(c);
            t_osc_atom_u *a = nullptr;
            switch (c.s.below(7)) {
            case 0: a = osc_atom_u_alloc(); break;
            case 1: a = osc_atom_u_allocWithString((char *)str(c).c_str()); break;
            case 2: a = osc_atom_u_allocWithDouble(1); break;
            case 3: a = osc_atom_u_allocWithInt32(1); break;
            case 4: a = osc_atom_u_allocWithBndl(build_bundle(gen_bundle(c, o, 1))); break;
            default: a = build_atom(gen_atom(c, o, 2));
            }
            v.push_back(a);
            continue;
        }
        t_osc_atom_u *a = c.s.pick(v);
        switch (c.s.weighted({6, 3, 3, 2, 1, 1})) {
        case 0: set(c, a); break;
        case 1: read_value(c, a); break;
        case 2: v.push_back(osc_atom_u_copy(a)); break;
        case 3: {
            t_osc_atom_u *d = c.s.chance(30) ? nullptr : c.s.pick(v);
            if (d == a) break;
            bool fresh = !d;
            osc_atom_u_copyInto(&d, a);
            if (fresh) v.push_back(d);
            break;
        }
        case 4: osc_atom_u_negate(a); break;
        default:
            osc_atom_u_free(a);
            v.erase(std::find(v.begin(), v.end(), a));
        }
    }
    for (auto a : v) osc_atom_u_free(a);
}

// ---------------------------------------------------------------- one message
static t_osc_msg_u *new_msg(Ctx &c) {
    GenOpt o = opts(c);
    switch (c.s.below(10)) {
    case 0: return osc_message_u_allocWithAddress((char *)"/a");
    case 1: return osc_message_u_allocWithString((char *)"/a/b", (char *)str(c).c_str());
    case 2: return osc_message_u_allocWithInt((char *)"/b", 3);
    case 3: return osc_message_u_allocWithDouble((char *)"/b", 3);
    case 4: return osc_message_u_allocWithFloat((char *)"/b", 3);
    case 5: return osc_message_u_allocWithBlob((char *)"/c", (char *)blob_bytes(str(c)).data());
    case 6: return osc_message_u_allocWithTimetag((char *)"/c", osc_timetag_floatToTimetag(2));
    case 7: {
        t_osc_msg_u *m = osc_message_u_alloc();
        if (c.s.chance(80)) osc_message_u_setAddress(m, "/x");
        return m;
    }
    default: return build_msg(gen_msg(c, o, 2));
    }
}
// a value of every type, at either end or anywhere
static void add_value(Ctx &c, t_osc_msg_u *m, int pos) {
    GenOpt o = opts(c);
    Buf w(enc_bundle(gen_bundle(c, o, 1)));
    int where = c.s.below(3);
    if (where == 0) {
    switch (c.s.below(19)) {
    case 0: osc_message_u_appendInt8(m, 3); break;
    case 1: osc_message_u_appendInt16(m, 3); break;
    case 2: osc_message_u_appendInt32(m, 3); break;
    case 3: osc_message_u_appendInt64(m, 3); break;
    case 4: osc_message_u_appendUInt8(m, 3); break;
    case 5: osc_message_u_appendUInt16(m, 3); break;
    case 6: osc_message_u_appendUInt32(m, 3); break;
    case 7: osc_message_u_appendUInt64(m, 3); break;
    case 8: osc_message_u_appendFloat(m, 1.5f); break;
    case 9: osc_message_u_appendDouble(m, 2.5); break;
    case 10: osc_message_u_appendBool(m, 1); break;
    case 11: osc_message_u_appendTrue(m); break;
    case 12: osc_message_u_appendFalse(m); break;
    case 13: osc_message_u_appendNil(m); break;
    case 14: osc_message_u_appendTimetag(m, osc_timetag_floatToTimetag(3)); break;
    case 15: osc_message_u_appendBlob(m, (char *)blob_bytes(str(c)).data()); break;
    case 16: osc_message_u_appendBndl_u(m, build_bundle(gen_bundle(c, o, 1))); break;
    case 17: osc_message_u_appendBndl_s(m, w.n, w.p); break;
    default: osc_message_u_appendBndl(m, w.n, w.p); break;
    }
    } else if (where == 1) {
    switch (c.s.below(19)) {
    case 0: osc_message_u_prependInt8(m, 3); break;
    case 1: osc_message_u_prependInt16(m, 3); break;
    case 2: osc_message_u_prependInt32(m, 3); break;
    case 3: osc_message_u_prependInt64(m, 3); break;
    case 4: osc_message_u_prependUInt8(m, 3); break;
    case 5: osc_message_u_prependUInt16(m, 3); break;
    case 6: osc_message_u_prependUInt32(m, 3); break;
    case 7: osc_message_u_prependUInt64(m, 3); break;
    case 8: osc_message_u_prependFloat(m, 1.5f); break;
    case 9: osc_message_u_prependDouble(m, 2.5); break;
    case 10: osc_message_u_prependBool(m, 1); break;
    case 11: osc_message_u_prependTrue(m); break;
    case 12: osc_message_u_prependFalse(m); break;
    case 13: osc_message_u_prependNil(m); break;
    case 14: osc_message_u_prependTimetag(m, osc_timetag_floatToTimetag(3)); break;
    case 15: osc_message_u_prependBlob(m, (char *)blob_bytes(str(c)).data()); break;
    case 16: osc_message_u_prependBndl_u(m, build_bundle(gen_bundle(c, o, 1))); break;
    case 17: osc_message_u_prependBndl_s(m, w.n, w.p); break;
    default: osc_message_u_prependBndl(m, w.n, w.p); break;
    }
    } else {
    switch (c.s.below(19)) {
    case 0: osc_message_u_insertInt8(m, 3, pos); break;
    case 1: osc_message_u_insertInt16(m, 3, pos); break;
    case 2: osc_message_u_insertInt32(m, 3, pos); break;
    case 3: osc_message_u_insertInt64(m, 3, pos); break;
    case 4: osc_message_u_insertUInt8(m, 3, pos); break;
    case 5: osc_message_u_insertUInt16(m, 3, pos); break;
    case 6: osc_message_u_insertUInt32(m, 3, pos); break;
    case 7: osc_message_u_insertUInt64(m, 3, pos); break;
    case 8: osc_message_u_insertFloat(m, 1.5f, pos); break;
    case 9: osc_message_u_insertDouble(m, 2.5, pos); break;
    case 10: osc_message_u_insertBool(m, 1, pos); break;
    case 11: osc_message_u_insertTrue(m, pos); break;
    case 12: osc_message_u_insertFalse(m, pos); break;
    case 13: osc_message_u_insertNil(m, pos); break;
    case 14: osc_message_u_insertTimetag(m, osc_timetag_floatToTimetag(3), pos); break;
    case 15: osc_message_u_insertBlob(m, (char *)blob_bytes(str(c)).data(), pos); break;
    case 16: osc_message_u_insertBndl_u(m, build_bundle(gen_bundle(c, o, 1)), pos); break;
    case 17: osc_message_u_insertBndl_s(m, w.n, w.p, pos); break;
    default: osc_message_u_insertBndl(m, w.n, w.p, pos); break;
    }
    }
}
static void edit_msg(Ctx &c, t_osc_msg_u *m) {
    GenOpt o = opts(c);
    int n = osc_message_u_getArgCount(m), pos = c.s.range(0, n + 1);
    t_osc_atom_u *got;
    switch (c.s.below(28)) {
    case 0: osc_message_u_appendAtom(m, build_atom(gen_atom(c, o, 1))); break;
    case 1: osc_message_u_prependAtom(m, build_atom(gen_atom(c, o, 1))); break;
    case 2: osc_message_u_insertAtom(m, build_atom(gen_atom(c, o, 1)), pos); break;
    case 3:
        if (n) {
            t_osc_atom_u *a = osc_message_u_getArg(m, c.s.below(n));
            osc_message_u_removeAtom(m, a);
            osc_atom_u_free(a);
        }
        break;
    case 4: osc_message_u_clearArgs(m); break;
    case 5: got = osc_message_u_appendString(m, str(c).c_str()); break;
    case 6: got = osc_message_u_prependString(m, (char *)str(c).c_str()); break;
    case 7: osc_message_u_insertString(m, (char *)str(c).c_str(), pos); break;
    case 8:
        if (c.s.chance(50)) osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(m, lib_string(str(c))), 1);
        else osc_message_u_appendStringPtr(m, own_string(c));
        break;
    case 9:
        if (c.s.chance(50)) osc_atom_u_setShouldFreePtr(osc_message_u_prependStringPtr(m, lib_string(str(c))), 1);
        else osc_message_u_prependStringPtr(m, own_string(c));
        break;
    case 10:
        if (c.s.chance(50)) osc_atom_u_setShouldFreePtr(osc_message_u_insertStringPtr(m, lib_string(str(c)), pos), 1);
        else osc_message_u_insertStringPtr(m, own_string(c), pos);
        break;
    case 11: osc_message_u_appendBlob(m, (char *)blob_bytes(str(c)).data()); break;
    case 12: osc_message_u_insertBlob(m, (char *)blob_bytes(str(c)).data(), pos); break;
    case 13: osc_message_u_appendBndl_u(m, build_bundle(gen_bundle(c, o, 1))); break;
    case 14: {
        Buf w(enc_bundle(gen_bundle(c, o, 1)));
        if (c.s.chance(50)) osc_message_u_appendBndl_s(m, w.n, w.p);
        else osc_message_u_prependBndl_s(m, w.n, w.p);
        break;
    }
    case 15: osc_message_u_setAddress(m, c.s.chance(90) ? c.s.chance(50) ? "/c" : "/an/address/that/is/longer/than/those" : ""); break;
    case 16: {
        char *old = nullptr;
        osc_message_u_setAddressPtr(m, lib_string("/b/a"), &old);
        if (old) osc_mem_free(old);
        break;
    }
    case 17:
        if (n) set(c, osc_message_u_getArg(m, c.s.below(n)));
        break;
    case 18: osc_message_u_appendInt32(m, 1), osc_message_u_prependDouble(m, 2), osc_message_u_insertTrue(m, pos), osc_message_u_appendTimetag(m, osc_timetag_floatToTimetag(3)); break;
    case 19: {
        t_osc_array *ar = osc_message_u_getArgArrayCopy(m);
        if (ar) {
            if (c.s.chance(50)) {
                t_osc_msg_u *q = osc_message_u_allocWithArray((char *)"/q", ar);
                osc_message_u_free(q);
            } else osc_message_u_setArgArrayCopy(m, ar);
            osc_atom_array_u_free((t_osc_atom_ar_u *)ar);
        }
        break;
    }
    case 20:
        if (n) read_value(c, osc_message_u_getArg(m, c.s.below(n)));
        break;
    case 21:
    case 22:
    case 23:
    case 24:
    case 25: add_value(c, m, pos); break;
    default: {
        t_osc_msg_it_u *it = osc_msg_it_u_get(m);
        while (osc_msg_it_u_hasNext(it)) osc_msg_it_u_next(it);
        osc_msg_it_u_destroy(it);
    }
    }
    (void)got;
}
static bool valued(t_osc_msg_u *m) { // every argument has a type, and there is an address
    if (!osc_message_u_getAddress(m)) return false;
    for (int i = 0; i < osc_message_u_getArgCount(m); i++)
        if (!osc_atom_u_getTypetag(osc_message_u_getArg(m, i))) return false;
    return true;
}
static void use_msg(Ctx &c, t_osc_msg_u *m) {
    if (!valued(m)) return;
    switch (c.s.below(6)) {
    case 0: osc_mem_free(osc_message_u_format(m)); break;
    case 1: {
        t_osc_msg_s *s = osc_message_u_serialize(m);
        switch (c.s.below(5)) {
        case 0: osc_mem_free(osc_message_s_format(s)); break;
        case 1: osc_message_u_free(osc_message_s_deserialize(s)); break;
        case 2: {
            t_osc_msg_s *d = nullptr;
            osc_message_s_copy(&d, s);
            osc_message_s_cacheDataOffsets(d);
            osc_message_s_free(d);
            break;
        }
        case 3: {
            t_osc_msg_it_s *it = osc_msg_it_s_get(s);
            while (osc_msg_it_s_hasNext(it)) osc_msg_it_s_next(it);
            osc_msg_it_s_destroy(it);
            break;
        }
        default: {
            int n = osc_message_s_getArgCount(s);
            t_osc_atom_s *a = nullptr;
            for (int i = 0; i < n; i++) osc_message_s_getArg(s, i, &a);
            if (a) osc_atom_s_free(a);
        }
        }
        osc_message_s_deepFree(s);
        break;
    }
    case 2: {
        t_osc_bndl_u *d = osc_bundle_u_alloc();
        osc_message_u_explode(d, m, c.s.range(0, 3), (char *)"/");
        osc_bundle_u_free(d);
        break;
    }
    case 3: osc_message_u_getFormattedSize(m), osc_message_u_getSerializedSize(m); break;
    default: {
        t_osc_msg_u *d = nullptr;
        osc_message_u_deepCopy(&d, m);
        osc_message_u_free(d);
    }
    }
}
void messages(Ctx &c) {
    std::vector<t_osc_msg_u *> v;
    int n = 1 + c.s.size(12);
    for (int i = 0; i < n; i++) {
        if (v.empty() || c.s.chance(15)) {
            v.push_back(new_msg(c));
            continue;
        }
        t_osc_msg_u *m = c.s.pick(v);
        switch (c.s.weighted({8, 4, 1, 1})) {
        case 0: edit_msg(c, m); break;
        case 1: use_msg(c, m); break;
        case 2: {
            t_osc_msg_u *d = nullptr;
            osc_message_u_deepCopy(&d, m);
            v.push_back(d);
            break;
        }
        default:
            osc_message_u_free(m);
            v.erase(std::find(v.begin(), v.end(), m));
        }
    }
    for (auto m : v) osc_message_u_free(m);
}

// ---------------------------------------------------------------- bundles in memory
static t_osc_msg_u *nth(Ctx &c, t_osc_bndl_u *b) {
    int n = osc_bundle_u_getMsgCount(b);
    if (!n) return nullptr;
    int k = c.s.below(n);
    t_osc_msg_u *m = nullptr;
    t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
    for (int i = 0; i <= k; i++) m = osc_bndl_it_u_next(it);
    osc_bndl_it_u_destroy(it);
    return m;
}
static t_osc_msg_u *good_msg(Ctx &c) {
    GenOpt o = opts(c);
    return build_msg(gen_msg(c, o, 1));
}
static bool valued(t_osc_bndl_u *b) {
    bool r = true;
    t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
    while (osc_bndl_it_u_hasNext(it)) r = valued(osc_bndl_it_u_next(it)) && r;
    osc_bndl_it_u_destroy(it);
    return r;
}
static void each_u(t_osc_msg_u *, void *n) { ++*(int *)n; }
static void bundle_op(Ctx &c, std::vector<t_osc_bndl_u *> &v) {
    GenOpt o = opts(c);
    t_osc_bndl_u *b = c.s.pick(v);
    std::string pat = pattern(c);
    Buf p(pat + std::string(1, '\0'));
    t_osc_msg_u *m;
    switch (c.s.below(24)) {
    case 0: osc_bundle_u_addMsg(b, good_msg(c)); break;
    case 1: osc_bundle_u_addMsgWithoutDups(b, good_msg(c)); break;
    case 2: m = good_msg(c), osc_bundle_u_addMsgCopy(b, m), osc_message_u_free(m); break;
    case 3: m = good_msg(c), osc_bundle_u_addMsgWithoutDupsCopy(b, m), osc_message_u_free(m); break;
    case 4:
        if ((m = nth(c, b))) {
            osc_bundle_u_removeMsg(b, m);
            osc_message_u_free(m);
        }
        break;
    case 5: osc_bundle_u_removeMessage(b, p.p); break;
    case 6: osc_bundle_u_replaceMessage(b, good_msg(c)); break;
    case 7: {
        t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(b, p.p, c.s.below(2));
        if (c.s.chance(40)) osc_bundle_u_addMsgArrayCopy(c.s.pick(v), (t_osc_array *)ar);
        if (c.s.chance(40)) {
            t_osc_msg_ar_u *d = osc_message_array_u_copy(ar);
            for (int i = 0; i < osc_message_array_u_getLen(d); i++)
                if (c.s.chance(30)) edit_msg(c, osc_message_array_u_get(d, i));
            if (d && osc_message_array_u_getLen(d) && c.s.chance(40)) {
                if (c.s.chance(50)) osc_message_array_u_resize(d, c.s.range(1, 4));
                else osc_message_array_u_clear(d);
            }
            osc_message_array_u_free(d);
        }
        osc_message_array_u_free(ar);
        break;
    }
    case 8: {
        t_osc_bndl_u *d = nullptr;
        osc_bundle_u_copy(&d, b);
        v.push_back(d);
        break;
    }
    case 9: osc_bundle_u_clear(b); break;
    case 10:
    case 11: {
        t_osc_bndl_u *d = nullptr, *x = c.s.pick(v);
        if (c.s.chance(50)) osc_bundle_u_union(b, x, &d);
        else osc_bundle_u_intersection(b, x, &d);
        if (d) v.push_back(d);
        break;
    }
    case 12:
        if (valued(b)) osc_bundle_s_deepFree(osc_bundle_u_serialize(b));
        break;
    case 13:
        if (valued(b)) osc_mem_free(osc_bundle_u_format(b));
        break;
    case 14:
    case 15:
        if (valued(b)) {
            t_osc_bndl_u *d = nullptr;
            osc_bundle_u_flatten(&d, b, c.s.range(0, 3), (char *)"/", c.s.below(2));
            if (d) v.push_back(d);
        }
        break;
    case 16:
    case 17:
        if ((m = nth(c, b))) edit_msg(c, m);
        break;
    case 18:
        if ((m = nth(c, b))) use_msg(c, m);
        break;
    case 19: {
        int n = 0;
        osc_bundle_u_getMessagesWithCallback(b, each_u, &n);
        osc_bundle_u_addressExists(b, p.p, 1, &n);
        osc_bundle_u_addressIsBound(b, p.p, 0, &n);
        osc_bundle_u_getFirstFullMatch(b, p.p);
        osc_bundle_u_getFirstMsg(b);
        break;
    }
    case 20: {
        Buf w(enc_bundle(gen_bundle(c, o, 2)));
        v.push_back(osc_bundle_s_deserialize(w.n, w.p));
        break;
    }
    case 21:
        if (v.size() > 1) {
            osc_bundle_u_free(b);
            v.erase(std::find(v.begin(), v.end(), b));
        }
        break;
    default: v.push_back(build_bundle(gen_bundle(c, o, 2)));
    }
}
void bundles(Ctx &c) {
    std::vector<t_osc_bndl_u *> v = {osc_bundle_u_alloc()};
    int n = 1 + c.s.size(15);
    for (int i = 0; i < n; i++) bundle_op(c, v);
    for (auto b : v) osc_bundle_u_free(b);
}

// ---------------------------------------------------------------- serialised bundles
static void each_s(t_osc_msg_s *, void *n) { ++*(int *)n; }
void serialised(Ctx &c) {
    GenOpt o = opts(c);
    struct B { long len; char *p; };
    std::vector<B> v;
    auto add = [&](const std::string &s) { v.push_back({(long)s.size(), lib_bytes(s)}); };
    add(enc_bundle(gen_bundle(c, o, 2)));
    int n = 1 + c.s.size(12);
    for (int i = 0; i < n; i++) {
        B &b = v[c.s.below(v.size())];
        Buf p(pattern(c) + std::string(1, '\0'));
        t_osc_bndl_s *s = osc_bundle_s_alloc(b.len, b.p);
        switch (c.s.below(22)) {
        case 0: {
            t_osc_bndl_s *d = nullptr;
            osc_bundle_s_deepCopy(&d, s);
            v.push_back({osc_bundle_s_getLen(d), osc_bundle_s_getPtr(d)});
            osc_bundle_s_free(d);
            break;
        }
        case 1: osc_mem_free(osc_bundle_s_format(b.len, b.p)); break;
        case 2: osc_mem_free(osc_bundle_s_pformat(s)); break;
        case 3: {
            t_osc_bndl_u *u = osc_bundle_s_deserialize(b.len, b.p);
            osc_bundle_u_free(u);
            break;
        }
        case 4: {
            t_osc_msg_ar_s *ar = c.s.chance(50) ? osc_bundle_s_lookupAddress(b.len, b.p, p.p, c.s.below(2)) : osc_bundle_s_lookupAddress_b(s, p.p, c.s.below(2));
            for (long i = 0; ar && i < osc_message_array_s_getLen(ar); i++)
                if (c.s.chance(30)) osc_message_s_cacheDataOffsets(osc_message_array_s_get(ar, i));
            if (ar && c.s.chance(30)) {
                t_osc_msg_ar_s *d = osc_message_array_s_copy(ar);
                for (long i = 0; i < osc_message_array_s_getLen(d); i++)
                    if (c.s.chance(30)) osc_message_s_cacheDataOffsets(osc_message_array_s_get(d, i));
                if (c.s.chance(50)) osc_message_array_s_resize(d, c.s.range(1, 5));
                else if (osc_message_array_s_getLen(d)) osc_message_array_s_clear(d);
                osc_message_array_s_free(d);
            }
            osc_message_array_s_free(ar);
            break;
        }
        case 5: osc_bundle_s_removeMessage(p.p, &b.len, b.p, c.s.below(2)); break;
        case 6: {
            t_osc_msg_u *m = good_msg(c);
            t_osc_msg_s *ms = osc_message_u_serialize(m);
            osc_bundle_s_appendMessage(&b.len, &b.p, ms);
            osc_message_s_deepFree(ms);
            osc_message_u_free(m);
            break;
        }
        case 7: {
            t_osc_msg_s *old = osc_bundle_s_getFirstMsg(s);
            if (old) {
                t_osc_msg_u *m = good_msg(c);
                t_osc_msg_s *ms = osc_message_u_serialize(m);
                osc_bundle_s_replaceMessage(&b.len, &b.len, &b.p, old, ms);
                osc_message_s_deepFree(ms);
                osc_message_u_free(m);
                osc_message_s_free(old);
            }
            break;
        }
        case 8: {
            t_osc_msg_s *m = osc_bundle_s_getFirstMsg(s);
            if (m) {
                long len = 0;
                char *q = nullptr, alloc = 0;
                osc_bundle_s_wrapMessage(osc_message_s_getSize(m), osc_message_s_getPtr(m) + 4, &len, &q, &alloc);
                if (alloc) v.push_back({len, q});
                osc_message_s_free(m);
            }
            break;
        }
        case 9:
        case 10: {
            Buf w(enc_bundle(gen_bundle(c, o, 1)));
            t_osc_bndl_s *x = osc_bundle_s_alloc(w.n, w.p), *d = osc_bundle_s_union(s, x);
            osc_bundle_s_free(x);
            if (d) osc_bundle_s_deepFree(d);
            break;
        }
        case 11:
        case 12: {
            Buf w(enc_bundle(gen_bundle(c, o, 1)));
            long len = 0;
            char *q = nullptr;
            if (c.s.chance(50)) osc_bundle_s_intersection(b.len, b.p, w.n, w.p, &len, &q);
            else osc_bundle_s_difference(b.len, b.p, w.n, w.p, &len, &q);
            if (q) v.push_back({len, q});
            break;
        }
        case 13:
        case 14: {
            t_osc_bndl_s *d = nullptr;
            osc_bundle_s_explode(&d, s, c.s.range(0, 3), (char *)"/");
            if (d) osc_bundle_s_deepFree(d);
            break;
        }
        case 15:
        case 16: {
            t_osc_bndl_s *d = nullptr;
            osc_bundle_s_flatten(&d, s, c.s.range(0, 3), (char *)"/", c.s.below(2));
            if (d) osc_bundle_s_deepFree(d);
            break;
        }
        case 17: {
            int k = 0;
            osc_bundle_s_getMessagesWithCallback((int)b.len, b.p, each_s, &k);
            osc_bundle_s_getMsgCount((int)b.len, b.p, &k);
            osc_bundle_s_addressExists(b.len, b.p, p.p, 1, &k);
            osc_bundle_s_addressIsBound(b.len, b.p, p.p, 1, &k);
            osc_bundle_s_getFirstFullMatch(b.len, b.p, p.p);
            t_osc_bndl_it_s *it = osc_bndl_it_s_get(b.len, b.p);
            while (osc_bndl_it_s_hasNext(it)) osc_bndl_it_s_next(it);
            osc_bndl_it_s_destroy(it);
            break;
        }
        case 18: osc_bundle_s_deepFree(osc_bundle_s_allocEmptyBundle()); break;
        default: add(enc_bundle(gen_bundle(c, o, 2)));
        }
        osc_bundle_s_free(s);
    }
    for (auto &b : v) osc_mem_free(b.p);
}

// ---------------------------------------------------------------- text
static std::string bundle_text(Ctx &c) {
    std::string t;
    if (c.s.chance(60)) {
        GenOpt o = opts(c);
        o.types = "ifdsTF.";
        t_osc_bndl_u *u = build_bundle(gen_bundle(c, o, 2));
        char *f = osc_bundle_u_format(u);
        t = f ? f : "";
        osc_mem_free(f);
        osc_bundle_u_free(u);
    } else {
        static const std::vector<std::string> tok = {"/a", "/b/c", " : ", ":", "1", "2.5", "\"s\"", "'c'", "{", "}", "[", "]", ",", "\n", " ", "foo", "true", "nil", "/", "\"", "0x1f",
            "/{a,b}", "-1", "\\", "@", "2014-07-01T12:30:00Z"};
        int n = 1 + c.s.size(15);
        for (int i = 0; i < n; i++) t += c.s.pick(tok);
    }
    int n = c.s.chance(50) ? 0 : 1 + c.s.below(3);
    for (int i = 0; i < n; i++) {
        size_t at = c.s.below(t.size() + 1);
        switch (c.s.below(3)) {
        case 0: t = t.substr(0, at); break;
        case 1:
            if (at < t.size()) t.erase(at, 1);
            break;
        default: t.insert(at, 1, c.s.pickc("/{}[]:,\"'\\ 1a\n"));
        }
    }
    return t;
}
void text(Ctx &c) {
    std::string t = bundle_text(c);
    c.note("text " + show(t));
    Buf b(t + std::string(2, '\0'));
    t_osc_bndl_u *r = nullptr;
    switch (c.s.below(6)) {
    case 0: r = osc_parser_parseString_r((long)t.size(), b.p); break;
    case 1: osc_legacy_parser_parseString((long)t.size(), b.p, &r); break;
    default: osc_parser_parseString((long)t.size(), b.p, &r);
    }
    if (r) {
        if (c.s.chance(50)) osc_mem_free(osc_bundle_u_format(r));
        osc_bundle_u_free(r);
    }
    if (c.s.chance(20)) osc_mem_free(osc_timetag_format(osc_timetag_floatToTimetag(1e9)));
}

// ---------------------------------------------------------------- queries and dispatch
static void method(t_osc_vtable_entry *, long, char *, t_osc_bndl_s *, t_osc_bndl_s *, void *) {}
static void delegate(long, char *, t_osc_bndl_s *, void *) {}
void selection(Ctx &c) {
    GenOpt o = opts(c);
    Buf w(enc_bundle(gen_bundle(c, o, 1)));
    std::vector<std::string> sel;
    int n = c.s.range(0, 5);
    for (int i = 0; i < n; i++) sel.push_back(c.s.chance(50) ? pattern(c) : gen_addr(c, o));
    std::vector<std::unique_ptr<Buf>> bufs;
    std::vector<char *> p;
    for (auto &s : sel) {
        bufs.emplace_back(new Buf(s + std::string(1, '\0')));
        p.push_back(bufs.back()->p);
    }
    bool strip = c.s.below(2);
    if (c.s.chance(50)) {
        t_osc_rset *r = c.s.below(2) ? osc_rset_alloc() : nullptr;
        osc_query_select((int)p.size(), p.data(), (int32_t)w.n, w.p, strip, &r);
        if (r) {
            if (c.s.chance(20)) osc_query_select((int)p.size(), p.data(), (int32_t)w.n, w.p, strip, &r); // once more, into the same
            osc_rset_initIterator(r);
            while (osc_rset_hasNext(r)) {
                t_osc_rset_result *x = osc_rset_next(r);
                osc_rset_result_getCompleteMatches(x), osc_rset_result_getPartialMatches(x);
            }
            osc_rset_getUnmatched(r);
            osc_rset_free(r);
        }
        return;
    }
    t_osc_vtable *v = osc_vtable_alloc(c.s.below(4));
    for (auto q : p) osc_vtable_addEntry(v, q, method, nullptr);
    if (p.size() && c.s.chance(40)) osc_vtable_renameEntry(v, p[c.s.below(p.size())], (char *)"/renamed");
    if (p.size() && c.s.chance(20)) osc_vtable_rebindSelector(v, p[0], method);
    if (p.size() && c.s.chance(20)) osc_vtable_rebindSelectorWithContext(v, p[0], method, &n);
    if (p.size() && c.s.chance(20)) osc_vtable_getIndexForSelector(v, p[0]), osc_vtable_getEntryBySelector(v, p[0]);
    if (c.s.chance(50)) osc_vtable_setDelegationMethod(v, delegate, nullptr);
    if (c.s.chance(50)) osc_dispatch(v, (int32_t)w.n, w.p, strip);
    else osc_dispatch_selectors(v, (int)p.size(), p.data(), (int32_t)w.n, w.p, strip);
    osc_vtable_free(v);
}

// ---------------------------------------------------------------- expressions
static void documentation(Ctx &c) {
    switch (c.s.below(3)) {
    case 0: osc_expr_getCategories(); break; // kept by the library
    case 1: {
        long n = 0;
        char *b = nullptr;
        std::string k = c.s.pick(std::vector<const char *>{"/core", "/math", "/list", "/nothing"});
        osc_expr_getFunctionsForCategory((char *)k.c_str(), &n, &b);
        osc_mem_free(b);
        break;
    }
    default: {
        std::string k = c.s.chance(90) ? c.s.pick(exgen::functions()).name : "nothing";
        t_osc_bndl_u *b = nullptr;
        osc_expr_getDocForFunction((char *)k.c_str(), &b);
        if (b) osc_bundle_u_free(b);
    }
    }
}
void expressions(Ctx &c) {
    MBundle b = exgen::bundle(c);
    std::string t;
    switch (c.s.weighted({5, 5, 2, 1})) {
    case 0: t = exgen::call(c); break;
    case 1: t = exgen::program(c); break;
    case 2: t = exgen::mutant(c); break;
    default: t = exgen::soup(c);
    }
    t = t.substr(0, 600);
    c.note("text   " + show(t));
    c.note("bundle " + dump(b));
    if (c.s.chance(3)) {
        documentation(c);
        return;
    }
    if (c.s.chance(85)) {
        ex::run(t, enc_bundle(b));
        return;
    }
    Buf z(std::string(t.c_str(), strlen(t.c_str()) + 1));
    t_osc_expr *e = nullptr;
    osc_expr_parser_parseExpr(z.p, &e, nullptr);
    if (!e) return;
    t_osc_expr *d = nullptr;
    if (c.s.chance(30)) {
        char *f = nullptr;
        long n = 0;
        osc_expr_format(e, &n, &f);
        osc_mem_free(f);
    }
    if (c.s.chance(50)) osc_expr_copy(&d, e);
    else osc_expr_copyAllLinked(&d, e);
    if (c.s.chance(50)) {
        osc_expr_free(e);
        e = d, d = nullptr;
    }
    std::string w = enc_bundle(b);
    long len = (long)w.size();
    char *q = lib_bytes(w);
    t_osc_atom_ar_u *out = nullptr;
    osc_expr_eval(e, &len, &q, &out, nullptr);
    if (out) osc_atom_array_u_free(out);
    osc_mem_free(q);
    osc_expr_free(e);
    if (d) osc_expr_free(d);
}

// ---------------------------------------------------------------- arrays, lists and tables
static void dtor_free(void *p) { osc_mem_free(p); }
static void ht_free(char *key, void *p) { osc_mem_free(key), osc_mem_free(p); }
static void ht_keep(char *key, void *) { osc_mem_free(key); }
static void ll_copy(void **d, void *s) {
    *d = osc_mem_alloc(1);
    *(char *)*d = *(char *)s;
}
static void lists(Ctx &c) {
    t_osc_linkedlist *l = osc_linkedlist_new(dtor_free);
    int n = c.s.size(15);
    for (int i = 0; i < n; i++) {
        switch (c.s.below(9)) {
        case 0:
        case 1: osc_linkedlist_append(l, lib_string("x")); break;
        case 2: osc_linkedlist_prepend(l, lib_string("x")); break;
        case 3: osc_mem_free(osc_linkedlist_popHead(l)); break;
        case 4: osc_mem_free(osc_linkedlist_popTail(l)); break;
        case 5: osc_mem_free(osc_linkedlist_popNth(l, c.s.below(4))); break;
        case 6: osc_linkedlist_destroy(osc_linkedlist_clone(l, ll_copy)); break;
        case 7: osc_linkedlist_peekHead(l), osc_linkedlist_peekTail(l), osc_linkedlist_peekNth(l, c.s.below(4)); break;
        default:
            if (c.s.chance(20)) osc_linkedlist_clear(l);
        }
    }
    osc_linkedlist_destroy(l);
}
static void ht_each(char *, void *, void *) {}
static void tables(Ctx &c) {
    (void)ht_keep;
    t_osc_hashtab *h = osc_hashtab_new(c.s.range(1, 5), ht_free);
    int n = c.s.size(15);
    for (int i = 0; i < n; i++) {
        std::string k(1 + c.s.below(2), 'a' + (char)c.s.below(4));
        switch (c.s.below(6)) {
        case 0:
        case 1:
            // store() keeps the given key and does not look for another entry with it
            if (!osc_hashtab_lookup(h, (int)k.size(), (char *)k.data())) {
                if (c.s.chance(50)) osc_hashtab_store(h, (int)k.size(), lib_string(k), lib_string("v"));
                else osc_hashtab_storeSafe(h, (int)k.size(), lib_string(k), lib_string("v"));
            }
            break;
        case 2: osc_hashtab_remove(h, (int)k.size(), (char *)k.data(), ht_free); break;
        case 3: osc_hashtab_lookup(h, (int)k.size(), (char *)k.data()); break;
        case 4: osc_hashtab_foreach(h, ht_each, &n); break;
        default:
            if (c.s.chance(20)) osc_hashtab_clear(h);
        }
    }
    osc_hashtab_destroy(h);
}
static void arrays(Ctx &c) {
    GenOpt o = opts(c);
    auto fill = [&](t_osc_atom_ar_u *a) {
        for (int i = 0; i < osc_atom_array_u_getLen(a); i++) {
            t_osc_atom_u *x = (t_osc_atom_u *)osc_atom_array_u_get(a, i), *y = build_atom(gen_atom(c, o, 1));
            osc_atom_u_copyInto(&x, y);
            osc_atom_u_free(y);
        }
    };
    t_osc_atom_ar_u *a = osc_atom_array_u_alloc(c.s.range(0, 5));
    fill(a);
    int n = c.s.size(6);
    for (int i = 0; i < n; i++) {
        switch (c.s.below(11)) {
        case 0: {
            t_osc_atom_ar_u *b = osc_atom_array_u_copy(a);
            osc_atom_array_u_free(a);
            a = b;
            break;
        }
        case 1: {
            t_osc_atom_ar_u *b = nullptr;
            osc_atom_array_u_copyInto(&b, a, 0);
            if (b) osc_atom_array_u_free(b);
            break;
        }
        case 2: {
            t_osc_atom_ar_u *b = osc_atom_array_u_alloc(c.s.range(0, 3));
            fill(b);
            osc_atom_array_u_copyInto(&b, a, c.s.range(0, 3));
            osc_atom_array_u_free(b);
            break;
        }
        case 3: {
            double *d = nullptr;
            osc_atom_array_u_getDoubleArray(a, &d);
            osc_mem_free(d);
            break;
        }
        case 4: {
            int32_t *d = nullptr;
            osc_atom_array_u_getInt32Array(a, &d);
            osc_mem_free(d);
            break;
        }
        case 5: {
            char *s = nullptr;
            long len = 0;
            osc_atom_array_u_getStringArray(a, &len, &s, ", ");
            osc_mem_free(s);
            break;
        }
        case 6: {
            char *d = nullptr;
            osc_atom_array_u_getBoolArray(a, &d);
            osc_mem_free(d);
            break;
        }
        case 7: {
            float *d = nullptr;
            osc_atom_array_u_getFloatArray(a, &d);
            osc_mem_free(d);
            break;
        }
        case 8: {
            uint32_t *d = nullptr;
            osc_atom_array_u_getUInt32Array(a, &d);
            osc_mem_free(d);
            break;
        }
        case 9: {
            uint64_t *d = nullptr;
            osc_atom_array_u_getUInt64Array(a, &d);
            osc_mem_free(d);
            break;
        }
        default: {
            int64_t *d = nullptr;
            osc_atom_array_u_getInt64Array(a, &d);
            osc_mem_free(d);
        }
        }
    }
    osc_atom_array_u_free(a);
}
static void plain_arrays(Ctx &c) {
    t_osc_array *a = osc_array_allocWithSize(c.s.range(1, 5), c.s.range(1, 9));
    osc_array_clear(a);
    for (int n = c.s.size(6); n > 0; n--) {
        switch (c.s.below(3)) {
        case 0: {
            t_osc_array *b = osc_array_copy(a);
            osc_array_free(c.s.chance(50) ? b : (std::swap(a, b), b));
            break;
        }
        case 1: {
            t_osc_array *b = c.s.chance(50) ? nullptr : osc_array_copy(a);
            osc_array_copyInto(&b, a, c.s.below(3));
            osc_array_free(b);
            break;
        }
        default: osc_array_resize(a, c.s.range(1, 6));
        }
    }
    osc_array_free(a);
}
void containers(Ctx &c) {
    switch (c.s.below(4)) {
    case 2: plain_arrays(c); break;
    case 0: lists(c); break;
    case 1: tables(c); break;
    default: arrays(c);
    }
}

void warm_up() {
    std::string b = enc_bundle({});
    ex::run("/x = map(lambda([v], v * 2), [1, 2, 3]), /s = join(\"-\", split(\".\", \"a.b\")), /n = {/q : 1}", b);
    ex::run("/x = strtotime(\"2014-07-01T12:30:00.5Z\")", b);
    osc_mem_free(osc_timetag_format(osc_timetag_floatToTimetag(1e9)));
    // the lists of functions and categories are made once
    osc_expr_getCategories();
    long n = 0;
    char *p = nullptr;
    osc_expr_getFunctionsForCategory((char *)"/core", &n, &p);
    osc_mem_free(p);
}
} // namespace ops
