// P26: arrays are vectors
#include "model.hpp"
using namespace pt;

// ---- arrays of plain members against a vector of byte strings
struct Kind {
    const char *name;
    t_osc_array *(*alloc)(long);
    size_t size; // 0: chosen by the case
    void (*clear)(t_osc_array *);
    void *(*get)(t_osc_array *, long);
    long (*len)(t_osc_array *);
    t_osc_array *(*copy)(t_osc_array *);
    void (*resize)(t_osc_array *, long);
    void (*free)(t_osc_array *);
};
#define WRAP(NAME, SIZE)                                                                                                                        \
    {#NAME, [](long n) { return (t_osc_array *)NAME##_alloc(n); }, SIZE, [](t_osc_array *a) { NAME##_clear(a); },                                \
     [](t_osc_array *a, long i) { return (void *)NAME##_get(a, i); }, [](t_osc_array *a) { return (long)NAME##_getLen(a); },                     \
     [](t_osc_array *a) { return (t_osc_array *)NAME##_copy(a); }, [](t_osc_array *a, long n) { NAME##_resize(a, n); }, [](t_osc_array *a) { NAME##_free(a); }}
static const std::vector<Kind> &kinds() {
    static const std::vector<Kind> k = {
        {"osc_array", nullptr, 0, [](t_osc_array *a) { osc_array_clear(a); }, [](t_osc_array *a, long i) { return osc_array_get(a, i); },
         [](t_osc_array *a) { return osc_array_getLen(a); }, [](t_osc_array *a) { return osc_array_copy(a); },
         [](t_osc_array *a, long n) { osc_array_resize(a, (int)n); }, [](t_osc_array *a) { osc_array_free(a); }},
        WRAP(osc_bundle_array_s, osc_bundle_s_getStructSize()),
        WRAP(osc_bundle_array_u, osc_bundle_u_getStructSize()),
        WRAP(osc_atom_array_s, osc_atom_s_getStructSize()),
    };
    return k;
}
typedef std::vector<std::string> Model;
static t_osc_array *make(const Kind &k, size_t size, long n) { return k.alloc ? k.alloc(n) : osc_array_allocWithSize(n, size); }
static void same(Ctx &c, const char *what, const Kind &k, t_osc_array *a, const Model &m, size_t size) {
    CHECK(c, k.len(a) == (long)m.size(), "%s: length %ld, want %zu", what, k.len(a), m.size());
    for (size_t i = 0; i < m.size(); i++) {
        void *p = k.get(a, (long)i);
        CHECK(c, p != nullptr, "%s: no element %zu of %zu", what, i, m.size());
        if (i) CHECK(c, (char *)p - (char *)k.get(a, (long)i - 1) == (long)size, "%s: elements are %ld bytes apart", what, (long)((char *)p - (char *)k.get(a, (long)i - 1)));
        CHECK(c, !memcmp(p, m[i].data(), size), "%s: element %zu is %s, want %s", what, i, hex(p, size).c_str(), hex(m[i].data(), size).c_str());
    }
    CHECK(c, !k.get(a, (long)m.size()) && !k.get(a, (long)m.size() + 1 + (long)c.s.below(1000000)), "%s: an element beyond the end", what);
    CHECK(c, !k.get(a, -1) && !k.get(a, -1 - (long)m.size()) && !k.get(a, -(long)c.s.below(1000000) - 1), "%s: an element before the start", what);
}
static std::string elem(Ctx &c, size_t size) {
    std::string r;
    while (r.size() < size) r += (char)c.s.u64();
    return r;
}
static void fill(Ctx &c, const Kind &k, t_osc_array *a, Model &m, size_t size) {
    for (size_t i = 0; i < m.size(); i++) {
        m[i] = elem(c, size);
        memcpy(k.get(a, (long)i), m[i].data(), size);
    }
}
static void raw(Ctx &c) {
    const Kind &k = kinds()[c.s.chance(50) ? 0 : c.s.below(kinds().size())];
    size_t size = k.size ? k.size : (size_t)c.s.range(1, 24);
    Model m((size_t)c.s.size(9), std::string(size, '\0'));
    c.note(strf("%s of %zu members of %zu bytes", k.name, m.size(), size));
    t_osc_array *a = make(k, size, (long)m.size());
    same(c, "a new array", k, a, m, size); // zeroed
    fill(c, k, a, m, size);
    int ops = 1 + c.s.size(12), writes = 0;
    for (int i = 0; i < ops; i++) {
        switch (c.s.weighted({4, 2, 4, 4, 1, 1})) {
        case 0:
            if (!m.empty()) {
                size_t j = c.s.below(m.size());
                m[j] = elem(c, size);
                memcpy(k.get(a, (long)j), m[j].data(), size);
                c.note(strf("set %zu", j));
                writes++;
            }
            break;
        case 1: {
            c.note("copy, then change the original");
            t_osc_array *b = k.copy(a);
            CHECK(c, b && b != a, "no copy");
            same(c, "the copy", k, b, m, size);
            Model was = m;
            fill(c, k, a, m, size);
            same(c, "the copy after changing the original", k, b, was, size);
            if (c.s.chance(50)) std::swap(a, b), std::swap(m, was);
            k.free(b);
            break;
        }
        case 2: {
            long n = c.s.range(0, 12);
            c.note(strf("resize to %ld", n));
            k.resize(a, n);
            m.resize((size_t)n, std::string(size, '\0'));
            break;
        }
        case 3: { // copy into, at an offset
            if (!m.empty() && m.size() < 100 && c.s.chance(20)) { // itself
                size_t off = c.s.below(m.size() + 3);
                c.note(strf("copy it into itself at %zu", off));
                Model w = m;
                w.resize(off + m.size(), std::string(size, '\0'));
                std::copy(m.begin(), m.end(), w.begin() + off);
                t_osc_array *d = a;
                CHECK(c, !osc_array_copyInto(&d, a, (long)off) && d == a, "copying into itself fails");
                m = w;
                break;
            }
            Model s((size_t)c.s.size(6), "");
            t_osc_array *src = make(k, size, (long)s.size());
            fill(c, k, src, s, size);
            long off = c.s.range(0, c.s.chance(80) ? (int)m.size() : 14);
            c.note(strf("copy %zu members in at %ld", s.size(), off));
            bool fresh = c.s.chance(20);
            t_osc_array *d = fresh ? nullptr : a;
            Model w = fresh ? Model() : m;
            if (w.size() < off + s.size()) w.resize(off + s.size(), std::string(size, '\0'));
            std::copy(s.begin(), s.end(), w.begin() + off);
            t_osc_err e = osc_array_copyInto(&d, src, off);
            // (an array of no members has no storage, and cannot always be resized to none)
            CHECK(c, !e || w.empty(), "copying in: error %d", (int)e);
            if (fresh) {
                same(c, "an array made by copying in", k, d, w, size);
                k.free(d);
            } else {
                CHECK(c, d == a, "another array");
                m = w;
            }
            same(c, "the source", k, src, s, size);
            k.free(src);
            break;
        }
        case 4:
            c.note("clear");
            k.clear(a);
            for (auto &x : m) x.assign(size, '\0');
            break;
        case 5: { // storage of the caller's
            if (k.size) break;
            c.note("set storage");
            osc_array_free(a);
            a = osc_array_allocWithSize(0, 1);
            size = (size_t)c.s.range(1, 24);
            m.assign((size_t)c.s.range(1, 6), "");
            char *p = (char *)osc_mem_alloc((long)(size * m.size()));
            for (size_t j = 0; j < m.size(); j++) {
                m[j] = elem(c, size);
                memcpy(p + j * size, m[j].data(), size);
            }
            osc_array_set(a, p, (long)m.size(), size);
            break;
        }
        }
        same(c, "the array", k, a, m, size);
    }
    c.nontrivial = ops >= 3;
    k.free(a);
}

// ---- arrays of values
static GenOpt vals() {
    GenOpt o;
    o.types = "ifdshHIcCuUTFNtb.";
    o.max_str = 8;
    return o;
}
static void put(t_osc_atom_ar_u *ar, long i, const MAtom &a) {
    t_osc_atom_u *x = build_atom(a), *d = (t_osc_atom_u *)osc_atom_array_u_get(ar, i);
    osc_atom_u_clear(d); // content of its own
    osc_atom_u_copyInto(&d, x);
    osc_atom_u_free(x);
}
static void same_u(Ctx &c, const char *what, t_osc_atom_ar_u *ar, const std::vector<MAtom> &m) {
    CHECK(c, osc_atom_array_u_getLen(ar) == (long)m.size(), "%s: length %ld, want %zu", what, (long)osc_atom_array_u_getLen(ar), m.size());
    for (size_t i = 0; i < m.size(); i++) {
        t_osc_atom_u *a = (t_osc_atom_u *)osc_atom_array_u_get(ar, (long)i);
        CHECK(c, a, "%s: no element %zu", what, i);
        if (m[i].tt == 0) CHECK(c, osc_atom_u_getTypetag(a) == 0, "%s: element %zu is not empty", what, i);
        else CHECK(c, read_atom(a) == m[i], "%s: element %zu is %s, want %s", what, i, dump(read_atom(a)).c_str(), dump(m[i]).c_str());
    }
    CHECK(c, !osc_atom_array_u_get(ar, -1) && !osc_atom_array_u_get(ar, (long)m.size()), "%s: an element outside", what);
}
static t_osc_atom_ar_u *arr(const std::vector<MAtom> &m) {
    t_osc_atom_ar_u *ar = osc_atom_array_u_alloc((long)m.size());
    for (size_t i = 0; i < m.size(); i++) put(ar, (long)i, m[i]);
    return ar;
}
static std::vector<MAtom> list(Ctx &c, int max) {
    GenOpt o = vals();
    std::vector<MAtom> r((size_t)c.s.size(max));
    for (auto &a : r) a = gen_atom(c, o, 1);
    for (auto &a : r)
        if (c.s.chance(6)) { // beyond every signed type
            uint64_t v = c.s.u64() | 1ull << 63;
            a = c.s.chance(30) ? mk('H', (int64_t)v) : c.s.chance(40) ? mk_d((double)(v & ~0xfffull)) : c.s.chance(50) ? mk_f((float)(v & ~0xffffffffffull)) : mk_s(std::to_string(v));
        }
    return r;
}
template <class T, class F, class G> static void conv(Ctx &c, const char *what, long n, F whole, G one) {
    T *out = nullptr;
    std::unique_ptr<char[]> own;
    bool mine = c.s.chance(50);
    if (mine) {
        own.reset(new char[n * sizeof(T)]); // exactly as many as needed
        out = (T *)own.get();
    }
    t_osc_err e = whole(&out);
    CHECK(c, !e && (!mine || out == (T *)own.get()), "%s array: error %d", what, (int)e);
    for (long i = 0; i < n; i++) {
        T want = one(i);
        CHECK(c, !memcmp(&out[i], &want, sizeof(T)) || (want != want && out[i] != out[i]), "%s array: element %ld is %.17g, alone %.17g", what, i, (double)out[i], (double)want);
    }
    if (!mine) osc_mem_free(out);
}
#define CONV(SU, T, NAME) conv<T>(c, #NAME, n, [&](T **o) { return osc_atom_array_##SU##_get##NAME##Array(ar, o); }, [&](long i) { return (T)osc_atom_##SU##_get##NAME((t_osc_atom_##SU *)osc_atom_array_##SU##_get(ar, i)); })
static void values(Ctx &c) {
    std::vector<MAtom> m = list(c, 8);
    for (auto &a : m) c.note(dump(a));
    t_osc_atom_ar_u *ar = osc_atom_array_u_alloc((long)m.size());
    same_u(c, "a new array", ar, std::vector<MAtom>(m.size(), mk(0)));
    for (size_t i = 0; i < m.size(); i++) put(ar, (long)i, m[i]);
    int ops = 1 + c.s.size(8);
    for (int k = 0; k < ops; k++) {
        switch (c.s.weighted({3, 3, 4, 2, 2})) {
        case 0:
            if (!m.empty()) {
                size_t i = c.s.below(m.size());
                m[i] = gen_atom(c, vals(), 1);
                put(ar, (long)i, m[i]);
                c.note(strf("%zu := ", i) + dump(m[i]));
            }
            break;
        case 1: {
            c.note("copy");
            t_osc_atom_ar_u *b = osc_atom_array_u_copy(ar);
            same_u(c, "the copy", b, m);
            if (c.s.chance(50)) std::swap(ar, b);
            if (c.s.chance(50) && !m.empty()) put(b, (long)c.s.below(m.size()), gen_atom(c, vals(), 1));
            osc_atom_array_u_free(b);
            break;
        }
        case 2: {
            if (!m.empty() && m.size() < 100 && c.s.chance(20)) { // itself
                size_t off = c.s.below(m.size() + 3);
                c.note(strf("copy it into itself at %zu", off));
                std::vector<MAtom> w = m;
                w.resize(off + m.size(), mk(0));
                std::copy(m.begin(), m.end(), w.begin() + off);
                t_osc_atom_ar_u *d = ar;
                CHECK(c, !osc_atom_array_u_copyInto(&d, ar, (long)off) && d == ar, "copying into itself fails");
                m = w;
                same_u(c, "the array copied into itself", ar, m);
                break;
            }
            std::vector<MAtom> s = list(c, 5);
            t_osc_atom_ar_u *src = arr(s);
            long off = c.s.range(0, c.s.chance(70) ? (int)m.size() : 12);
            bool fresh = c.s.chance(20);
            c.note(strf("copy %zu values in at %ld%s", s.size(), off, fresh ? ", of a new array" : ""));
            t_osc_atom_ar_u *d = fresh ? nullptr : ar;
            std::vector<MAtom> w = fresh ? std::vector<MAtom>() : m;
            if (w.size() < off + s.size()) w.resize(off + s.size(), mk(0));
            for (size_t i = 0; i < s.size(); i++) {
                if (!fresh && off + i < m.size() && c.s.chance(30)) osc_atom_u_clear((t_osc_atom_u *)osc_atom_array_u_get(ar, (long)(off + i)));
                w[off + i] = s[i];
            }
            t_osc_err e = osc_atom_array_u_copyInto(&d, src, off);
            CHECK(c, !e, "copying in: error %d", (int)e);
            same_u(c, "the source", src, s);
            osc_atom_array_u_free(src);
            same_u(c, "the destination", d, w);
            if (fresh) osc_atom_array_u_free(d);
            else {
                CHECK(c, d == ar, "another array");
                m = w;
            }
            break;
        }
        case 3: {
            size_t n = m.size() + c.s.below(5), was = m.size();
            if (c.s.chance(40) && was > 1) {
                n = 1 + c.s.below(was);
                for (size_t i = n; i < was; i++) osc_atom_u_clear((t_osc_atom_u *)osc_atom_array_u_get(ar, (long)i));
            }
            if (n == 0) break;
            c.note(strf("resize to %zu", n));
            CHECK(c, !osc_atom_array_u_resize(ar, (int)n), "resize to %zu", n);
            m.resize(n, mk(0));
            break;
        }
        case 4: { // conversions
            c.note("convert");
            long n = (long)m.size();
            CONV(u, double, Double);
            CONV(u, float, Float);
            CONV(u, int32_t, Int32);
            CONV(u, int64_t, Int64);
            CONV(u, uint32_t, UInt32);
            CONV(u, uint64_t, UInt64);
            CONV(u, char, Bool);
            bool ok = true;
            for (auto &a : m) ok = ok && a.tt != '.' && a.tt != 0;
            if (!ok) break;
            // a joined string: every element as its string, each followed by the separator
            static const char *const seps[] = {nullptr, "", " ", ", ", "-----separator-----"};
            const char *sep = seps[c.s.below(5)];
            std::string want;
            for (long i = 0; i < n; i++) {
                t_osc_atom_u *a = (t_osc_atom_u *)osc_atom_array_u_get(ar, i);
                char *s = nullptr;
                int l = osc_atom_u_getString(a, 0, &s);
                want += std::string(s, l);
                osc_mem_free(s);
                if (sep) want += sep;
            }
            char *out = nullptr;
            long len = 0;
            if (c.s.chance(50)) {
                len = c.s.range(1, 40);
                out = (char *)osc_mem_alloc(len);
            }
            t_osc_err e = osc_atom_array_u_getStringArray(ar, &len, &out, sep);
            CHECK(c, !e && out, "joined string: error %d", (int)e);
            CHECK(c, len == (long)want.size() + 1, "joined string is %ld bytes, want %zu", len, want.size() + 1);
            CHECK(c, std::string(out, len) == want + std::string(1, '\0'), "joined string is %s, want %s", show(std::string(out, len)).c_str(), show(want).c_str());
            osc_mem_free(out);
            break;
        }
        }
        same_u(c, "the array", ar, m);
    }
    c.nontrivial = ops >= 3;
    osc_atom_array_u_free(ar);
}
// ---- arrays of serialised values
static void values_s(Ctx &c) {
    MMsg m;
    m.addr = "/a";
    m.args = list(c, 8);
    std::string body = enc_msg(m), w = be32((uint32_t)body.size()) + body;
    c.note(dump(m));
    Buf in(w);
    t_osc_msg_s *ms = osc_message_s_alloc();
    osc_message_s_wrap(ms, in.p);
    long n = (long)m.args.size();
    t_osc_atom_ar_s *ar = osc_atom_array_s_alloc(n);
    for (long i = 0; i < n; i++) {
        t_osc_atom_s *a = (t_osc_atom_s *)osc_atom_array_s_get(ar, i);
        osc_message_s_getArg(ms, (int)i, &a);
    }
    if (c.s.chance(30)) {
        t_osc_atom_ar_s *b = nullptr;
        if (c.s.chance(50)) b = osc_atom_array_s_copy(ar);
        else osc_atom_array_s_copyInto(&b, ar, 0);
        osc_atom_array_s_free(ar);
        ar = b;
    }
    CHECK(c, osc_atom_array_s_getLen(ar) == n, "length");
    CONV(s, double, Double);
    CONV(s, float, Float);
    CONV(s, int32_t, Int32);
    CONV(s, int64_t, Int64);
    CONV(s, uint32_t, UInt32);
    CONV(s, uint64_t, UInt64);
    CONV(s, char, Bool);
    c.nontrivial = n >= 2;
    osc_atom_array_s_free(ar);
    osc_message_s_free(ms);
}
// ---- the arguments of a message as an array, and arrays of messages
static void messages(Ctx &c) {
    GenOpt o = vals();
    o.max_msgs = 4;
    MBundle b = gen_bundle(c, o, 1);
    c.note(dump(b));
    c.nontrivial = b.size() >= 2;
    t_osc_msg_ar_u *ar = osc_message_array_u_alloc((long)b.size());
    for (size_t i = 0; i < b.size(); i++) {
        t_osc_msg_u *m = build_msg(b[i]);
        t_osc_atom_ar_u *args = osc_message_u_getArgArrayCopy(m);
        same_u(c, "the arguments", args, b[i].args);
        t_osc_msg_u *n = nullptr;
        if (c.s.chance(50)) n = osc_message_u_allocWithArray((char *)b[i].addr.c_str(), args);
        else {
            n = osc_message_u_allocWithAddress((char *)b[i].addr.c_str());
            CHECK(c, !osc_message_u_setArgArrayCopy(n, args), "setting arguments from an array");
        }
        if (c.s.chance(50)) osc_message_u_clearArgs(m); // the copies are their own
        osc_message_u_free(m);
        osc_atom_array_u_free(args);
        CHECK(c, read_msg(n) == b[i], "the message from an array is %s, want %s", dump(read_msg(n)).c_str(), dump(b[i]).c_str());
        t_osc_msg_u *e = osc_message_array_u_get(ar, (long)i);
        CHECK(c, e, "no element %zu", i);
        osc_message_u_deepCopy(&e, n);
        osc_message_u_free(n);
    }
    CHECK(c, osc_message_array_u_getLen(ar) == (long)b.size() && !osc_message_array_u_get(ar, (long)b.size()) && !osc_message_array_u_get(ar, -1), "length");
    t_osc_msg_ar_u *cp = osc_message_array_u_copy(ar);
    if (c.s.chance(50)) std::swap(ar, cp);
    osc_message_array_u_free(cp);
    if (c.s.chance(40) && !b.empty()) {
        size_t n = b.size() + c.s.below(4);
        if (c.s.chance(30)) n = (size_t)c.s.range(1, (int)b.size());
        c.note(strf("resize to %zu", n));
        osc_message_array_u_resize(ar, (long)n);
        CHECK(c, osc_message_array_u_getLen(ar) == (long)n, "resized to %ld", osc_message_array_u_getLen(ar));
        for (size_t i = b.size(); i < n; i++) CHECK(c, osc_message_u_getArgCount(osc_message_array_u_get(ar, (long)i)) == 0, "a new element has arguments");
        for (size_t i = 0; i < std::min(n, b.size()); i++) {
            MMsg g = read_msg(osc_message_array_u_get(ar, (long)i));
            CHECK(c, g == b[i], "element %zu is %s after resizing", i, dump(g).c_str());
        }
        if (c.s.chance(30)) {
            osc_message_array_u_clear(ar);
            c.note("clear");
            CHECK(c, osc_message_array_u_getLen(ar) == (long)n, "cleared, its length is %ld", osc_message_array_u_getLen(ar));
            for (size_t i = 0; i < n; i++) {
                t_osc_msg_u *e = osc_message_array_u_get(ar, (long)i);
                CHECK(c, !osc_message_u_getAddress(e) && osc_message_u_getArgCount(e) == 0, "message %zu is still there after clearing", i);
            }
        }
    } else {
        t_osc_bndl_u *u = osc_bundle_u_alloc();
        MBundle want;
        if (c.s.chance(30)) {
            want.push_back(gen_msg(c, o, 0));
            osc_bundle_u_addMsg(u, build_msg(want[0]));
        }
        osc_bundle_u_addMsgArrayCopy(u, ar);
        want.insert(want.end(), b.begin(), b.end());
        osc_message_array_u_free(ar);
        ar = nullptr;
        MBundle got = read_bundle(u);
        CHECK(c, mk_bndl(got) == mk_bndl(want), "a bundle with the array's messages is\n%s\nwant\n%s", dump(got).c_str(), dump(want).c_str());
        osc_bundle_u_free(u);
    }
    osc_message_array_u_free(ar);
}
namespace pt {
Property property = {
    "P26", "at least three operations on an array; two or more values or messages",
    {{"plain arrays", 3, raw}, {"values", 4, values}, {"serialised values", 2, values_s}, {"messages", 2, messages}},
    {"an array whose elements own memory is made smaller only after the caller cleared what is cut off, and elements are cleared before another is copied over them"},
    900000, 50000000,
};
}
