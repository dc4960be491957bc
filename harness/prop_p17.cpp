// P17: copies are deep and independent
#include "model.hpp"
using namespace pt;

static GenOpt opts(Ctx &c) {
    GenOpt o;
    o.types = c.s.chance(50) ? "ifdshHIcCuUTFNtb." : "ssbi.";
    o.max_str = c.s.chance(15) ? 40 : 8;
    o.max_blob = 20;
    o.max_args = 4;
    o.max_msgs = 4;
    o.depth = 2;
    return o;
}
// ---- changes made to a value in place, through the API
static MAtom other(Ctx &c) {
    GenOpt o;
    o.max_msgs = o.max_args = 2;
    return gen_atom(c, o, 1);
}
static void set_atom(t_osc_atom_u *a, const MAtom &v) {
    osc_atom_u_clear(a);
    switch (v.tt) {
    case 's': osc_atom_u_setString(a, v.s.c_str()); break;
    case 'd': osc_atom_u_setDouble(a, v.d); break;
    case '.': {
        std::string w = enc_bundle(v.b);
        osc_atom_u_setBndl_s(a, (long)w.size(), (char *)w.data());
        break;
    }
    case 'b': {
        std::string w = be32((uint32_t)v.s.size()) + v.s;
        osc_atom_u_setBlob(a, (char *)w.data());
        break;
    }
    default: osc_atom_u_setInt32(a, (int32_t)v.i); break;
    }
}
static void scribble_bundle(Ctx &c, t_osc_bndl_u *b, int depth);
static void scribble_atom(Ctx &c, t_osc_atom_u *a, int depth) {
    char tt = osc_atom_u_getTypetag(a);
    if (tt == 's' && c.s.chance(50)) { // the bytes themselves
        char *s = osc_atom_u_getStringPtr(a);
        for (char *p = s; *p; p++) *p = '#';
    } else if (tt == 'b' && c.s.chance(50)) {
        char *p = osc_atom_u_getBlob(a);
        long n = osc_atom_u_getBlobLen(a);
        for (long i = 0; i < n; i++) p[4 + i] ^= 0x55;
    } else if (tt == '.' && depth > 0 && c.s.chance(60)) scribble_bundle(c, osc_atom_u_getBndl(a), depth - 1);
    else set_atom(a, other(c));
}
static void scribble_msg(Ctx &c, t_osc_msg_u *m, int depth) {
    int n = 1 + (int)c.s.below(3);
    while (n--) {
        int argc = osc_message_u_getArgCount(m);
        switch (c.s.below(5)) {
        case 0:
            if (argc) scribble_atom(c, osc_message_u_getArg(m, (int)c.s.below(argc)), depth);
            break;
        case 1: osc_message_u_appendAtom(m, build_atom(other(c))); break;
        case 2:
            if (argc) {
                t_osc_atom_u *a = osc_message_u_getArg(m, (int)c.s.below(argc));
                osc_message_u_removeAtom(m, a);
                osc_atom_u_free(a);
            }
            break;
        case 3: {
            char *p = osc_message_u_getAddress(m);
            if (c.s.chance(50)) {
                for (; *p; p++) *p = '#';
                osc_message_u_getAddress(m)[0] = '/';
            } else osc_message_u_setAddress(m, "/changed/to/something/longer");
            break;
        }
        case 4:
            if (c.s.chance(30)) osc_message_u_clearArgs(m);
            break;
        }
    }
}
static void scribble_bundle(Ctx &c, t_osc_bndl_u *b, int depth) {
    int n = 1 + (int)c.s.below(3);
    while (n--) {
        int count = osc_bundle_u_getMsgCount(b);
        t_osc_msg_u *m = nullptr;
        if (count) {
            t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
            int k = 1 + (int)c.s.below(count);
            while (k--) m = osc_bndl_it_u_next(it);
            osc_bndl_it_u_destroy(it);
        }
        switch (c.s.below(4)) {
        case 0:
        case 1:
            if (m) scribble_msg(c, m, depth);
            break;
        case 2: {
            GenOpt o;
            osc_bundle_u_addMsg(b, build_msg(gen_msg(c, o, 0)));
            break;
        }
        case 3:
            if (m) {
                osc_bundle_u_removeMsg(b, m);
                osc_message_u_free(m);
            }
            break;
        }
    }
}
// one object, its copy, and what both must read as; either is changed and either freed, in any order
template <class T, class Read, class Scribble, class Free>
static void independent(Ctx &c, const char *what, T *a, T *b, const MAtom &want, Read read, Scribble scribble, Free freeit) {
    auto check = [&](const char *when, T *x) {
        MAtom got = read(x);
        CHECK(c, got == want, "%s %s is %s, want %s", what, when, dump(got).c_str(), dump(want).c_str());
    };
    CHECK(c, a != b, "%s: the copy is the original", what);
    check("copied", b);
    check("after being copied", a);
    if (c.s.chance(50)) std::swap(a, b);
    if (c.s.chance(70)) {
        scribble(a);
        check("after a change of the other", b);
    }
    freeit(a);
    check("after freeing the other", b);
    scribble(b);
    freeit(b);
}
static void atoms(Ctx &c) {
    GenOpt o = opts(c);
    MAtom m = gen_atom(c, o, 2);
    c.note(dump(m));
    c.nontrivial = m.tt == 's' || m.tt == 'b' || m.tt == '.';
    t_osc_atom_u *a = c.s.chance(30) ? make_atom(m) : build_atom(m), *b = nullptr;
    std::string mine = m.s;
    bool borrowed = false;
    switch (c.s.below(3)) {
    case 0: b = osc_atom_u_copy(a); break;
    case 1: osc_atom_u_copyInto(&b, a); break;
    case 2:
        // into a value that was used and cleared
        b = build_atom(other(c));
        osc_atom_u_clear(b);
        osc_atom_u_copyInto(&b, a);
        break;
    }
    (void)borrowed;
    independent(c, "a value", a, b, m, [](t_osc_atom_u *x) { return read_atom(x); }, [&](t_osc_atom_u *x) { scribble_atom(c, x, 2); },
                [](t_osc_atom_u *x) { osc_atom_u_free(x); });
}
static MAtom as_atom(const MMsg &m) { return mk_bndl({m}); }
static void messages(Ctx &c) {
    GenOpt o = opts(c);
    MMsg m = gen_msg(c, o, 2);
    c.note(dump(m));
    c.nontrivial = m.args.size() >= 2;
    t_osc_msg_u *a = build_msg(m), *b = nullptr;
    if (c.s.chance(40)) b = build_msg(gen_msg(c, o, 1)); // over another message
    t_osc_err e = osc_message_u_deepCopy(&b, a);
    CHECK(c, !e, "deepCopy: error %d", (int)e);
    CHECK(c, osc_message_u_getArgCount(b) == (int)m.args.size(), "argument count %d", osc_message_u_getArgCount(b));
    independent(c, "a message", a, b, as_atom(m), [](t_osc_msg_u *x) { return as_atom(read_msg(x)); }, [&](t_osc_msg_u *x) { scribble_msg(c, x, 2); },
                [](t_osc_msg_u *x) { osc_message_u_free(x); });
}
static void bundles(Ctx &c) {
    GenOpt o = opts(c);
    MBundle m = gen_bundle(c, o);
    t_osc_bndl_u *a = c.s.chance(40) ? come_by_bundle(c, m) : build_bundle(m), *b = nullptr;
    c.note(dump(m));
    c.nontrivial = m.size() >= 2;
    switch (c.s.below(3)) {
    case 0: osc_bundle_u_copy(&b, a); break;
    case 1: { // by adding copies of its messages
        b = osc_bundle_u_alloc();
        t_osc_bndl_it_u *it = osc_bndl_it_u_get(a);
        while (osc_bndl_it_u_hasNext(it)) osc_bundle_u_addMsgCopy(b, osc_bndl_it_u_next(it));
        osc_bndl_it_u_destroy(it);
        break;
    }
    case 2: { // through bytes, which may change or go afterwards
        t_osc_bndl_s *s = osc_bundle_u_serialize(a);
        b = osc_bundle_s_deserialize(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s));
        memset(osc_bundle_s_getPtr(s), 0x5a, osc_bundle_s_getLen(s));
        osc_bundle_s_deepFree(s);
        break;
    }
    }
    CHECK(c, b && osc_bundle_u_getMsgCount(b) == (int)m.size(), "message count %d", b ? osc_bundle_u_getMsgCount(b) : -1);
    independent(c, "a bundle", a, b, mk_bndl(m), [](t_osc_bndl_u *x) { return mk_bndl(read_bundle(x)); }, [&](t_osc_bndl_u *x) { scribble_bundle(c, x, 2); },
                [](t_osc_bndl_u *x) { osc_bundle_u_free(x); });
}
static void serialised(Ctx &c) {
    GenOpt o = opts(c);
    MBundle m = gen_bundle(c, o);
    uint64_t tt = c.s.u64();
    std::string w = enc_bundle(m, tt);
    c.note(dump(m));
    c.nontrivial = m.size() >= 2;
    char *own = (char *)osc_mem_alloc((long)w.size());
    memcpy(own, w.data(), w.size());
    t_osc_bndl_s *a = osc_bundle_s_alloc((long)w.size(), own), *b = nullptr;
    if (c.s.chance(30)) b = osc_bundle_s_alloc(0, nullptr);
    t_osc_err e = osc_bundle_s_deepCopy(&b, a);
    CHECK(c, !e && b, "deepCopy: error %d", (int)e);
    auto check = [&](const char *when, t_osc_bndl_s *x) {
        CHECK(c, std::string(osc_bundle_s_getPtr(x), osc_bundle_s_getLen(x)) == w, "the bundle's bytes %s are %s, want %s", when,
              hex(osc_bundle_s_getPtr(x), osc_bundle_s_getLen(x)).c_str(), hex(w.data(), w.size()).c_str());
    };
    check("copied", b);
    check("after being copied", a);
    if (c.s.chance(50)) std::swap(a, b);
    memset(osc_bundle_s_getPtr(a), 0x5a, osc_bundle_s_getLen(a));
    check("after a change of the other", b);
    osc_bundle_s_deepFree(a);
    check("after freeing the other", b);
    osc_bundle_s_deepFree(b);
}
// arrays of serialised messages: every message reads as it should, whatever becomes of other arrays
static void message_array(Ctx &c) {
    GenOpt o = opts(c);
    std::vector<MMsg> m;
    std::vector<std::unique_ptr<Buf>> in;
    struct A { t_osc_message_array_s *a; std::vector<int> at; };
    std::vector<A> t;
    for (int n = c.s.range(1, 5); n > 0; n--) {
        m.push_back(gen_msg(c, o, 1));
        c.note(dump(m.back()));
        std::string b = enc_msg(m.back());
        in.emplace_back(new Buf(be32((uint32_t)b.size()) + b));
    }
    auto set = [&](A &x, size_t i, int k) {
        osc_message_s_wrap(osc_message_array_s_get(x.a, (long)i), in[k]->p);
        x.at[i] = k;
    };
    A f = {osc_message_array_s_alloc((long)m.size()), std::vector<int>(m.size(), -1)};
    for (size_t i = 0; i < m.size(); i++) set(f, i, (int)i);
    t.push_back(f);
    int caches = 0;
    for (int n = c.s.range(1, 12); n > 0 && !t.empty(); n--) {
        size_t w = c.s.below(t.size());
        A &x = t[w];
        size_t i = c.s.below(x.at.size());
        switch (c.s.below(7)) {
        case 0: case 1: if (x.at[i] >= 0) osc_message_s_cacheDataOffsets(osc_message_array_s_get(x.a, (long)i)), caches++; break;
        case 2: if (t.size() < 4) { A y = {osc_message_array_s_copy(x.a), x.at}; t.push_back(y); c.nontrivial |= caches > 0; } break;
        case 3: {
            size_t to = c.s.range(1, 6);
            osc_message_array_s_resize(x.a, (long)to);
            x.at.resize(to, -1);
            break;
        }
        case 4: set(x, i, (int)c.s.below(m.size())); break;
        case 5: if (c.s.below(2)) { osc_message_array_s_free(x.a); t.erase(t.begin() + w); } break;
        case 6: if (!c.s.below(3)) { osc_message_array_s_clear(x.a); x.at.assign(x.at.size(), -1); } break;
        }
        for (auto &y : t) {
            CHECK(c, osc_message_array_s_getLen(y.a) == (long)y.at.size(), "the array has %ld messages, want %zu", osc_message_array_s_getLen(y.a), y.at.size());
            CHECK(c, !osc_message_array_s_get(y.a, (long)y.at.size()) && !osc_message_array_s_get(y.a, -1), "the array has a message beyond its end");
            for (size_t k = 0; k < y.at.size(); k++) {
                t_osc_msg_s *ms = osc_message_array_s_get(y.a, (long)k);
                if (y.at[k] < 0) { CHECK(c, !osc_message_s_getPtr(ms), "message %zu is there, and was never set", k); continue; }
                const MMsg &want = m[y.at[k]];
                CHECK(c, osc_message_s_getPtr(ms) == in[y.at[k]]->p, "message %zu of an array is another", k);
                CHECK(c, osc_message_s_getArgCount(ms) == (int)want.args.size(), "message %zu has %d arguments", k, osc_message_s_getArgCount(ms));
                for (size_t j = 0; j < want.args.size(); j++) {
                    t_osc_atom_s *a = nullptr;
                    osc_message_s_getArg(ms, (int)j, &a);
                    t_osc_atom_u *u = osc_atom_s_deserialize(a);
                    MMsg one; one.args.push_back(want.args[j]);
                    MMsg got; got.args.push_back(read_atom(u));
                    CHECK(c, got == one, "argument %zu of message %zu is %s, want %s", j, k, dump(got).c_str(), dump(one).c_str());
                    osc_atom_u_free(u);
                    osc_atom_s_free(a);
                }
            }
        }
    }
    for (auto &y : t) osc_message_array_s_free(y.a);
}
// values taken out of serialised data
static void taken(Ctx &c) {
    GenOpt o = opts(c);
    MMsg m = gen_msg(c, o, 2);
    c.note(dump(m));
    c.nontrivial = m.args.size() >= 2;
    std::string body = enc_msg(m), w = be32((uint32_t)body.size()) + body;
    std::unique_ptr<Buf> in(new Buf(w));
    t_osc_msg_s *ms = osc_message_s_alloc();
    osc_message_s_wrap(ms, in->p);
    t_osc_msg_u *mu = osc_message_s_deserialize(ms);
    struct T { MAtom want; t_osc_bndl_s *b; char *blob, *str; int32_t len; t_osc_atom_u *u; bool inner; };
    std::vector<T> t;
    for (size_t i = 0; i < m.args.size(); i++) {
        t_osc_atom_s *a = nullptr;
        osc_message_s_getArg(ms, (int)i, &a);
        T x = {m.args[i], nullptr, nullptr, nullptr, 0, nullptr, m.args[i].tt == '.'};
        x.u = osc_atom_s_deserialize(a);
        switch (m.args[i].tt) {
        case '.': x.b = osc_atom_s_getBndlCopy(a); break;
        case 'b': osc_atom_s_getBlobCopy(&x.blob, &x.len, a); break;
        case 's': osc_atom_s_getString(a, 0, &x.str); break;
        }
        osc_atom_s_free(a);
        t.push_back(x);
    }
    memset(in->p, 0x5a, in->n);
    in.reset();
    osc_message_s_free(ms);
    CHECK(c, read_msg(mu) == m, "a deserialised message is %s after its bytes went", dump(read_msg(mu)).c_str());
    // and from the in-memory form
    std::vector<T> t2;
    for (size_t i = 0; i < m.args.size(); i++) {
        t_osc_atom_u *a = osc_message_u_getArg(mu, (int)i);
        T x = {m.args[i], nullptr, nullptr, nullptr, 0, nullptr, false};
        x.u = osc_atom_u_copy(a);
        if (x.want.tt == 'b') osc_atom_u_getBlobCopy(a, &x.len, &x.blob);
        if (x.want.tt == 's') osc_atom_u_getString(a, 0, &x.str);
        t2.push_back(x);
    }
    osc_message_u_free(mu);
    t.insert(t.end(), t2.begin(), t2.end());
    for (auto &x : t) {
        MAtom g = read_atom(x.u);
        CHECK(c, g == x.want, "a value taken out is %s, want %s", dump(g).c_str(), dump(x.want).c_str());
        osc_atom_u_free(x.u);
        CHECK(c, x.b || !x.inner, "no bundle is taken out of a value that holds one");
        if (x.b) {
            CHECK(c, std::string(osc_bundle_s_getPtr(x.b), osc_bundle_s_getLen(x.b)) == enc_bundle(x.want.b), "a bundle taken out");
            osc_bundle_s_deepFree(x.b);
        }
        if (x.blob) {
// with its length in front
            std::string want = be32((uint32_t)x.want.s.size()) + x.want.s;
            CHECK(c, x.len >= (int32_t)want.size() && std::string(x.blob, want.size()) == want, "a blob taken out is %d bytes: %s, want %s", x.len, hex(x.blob, x.len).c_str(), hex(want.data(), want.size()).c_str());
            osc_mem_free(x.blob);
        }
        if (x.str) {
            CHECK(c, x.want.s == x.str, "a string taken out is %s", x.str);
            osc_mem_free(x.str);
        }
    }
}
// values whose characters or bytes belong to the caller: a copy has its own, and outlives them
struct Lent {
    std::vector<std::unique_ptr<Buf>> bufs;
    t_osc_atom_u *lend(Ctx &c, const MAtom &m) {
        t_osc_atom_u *a = osc_atom_u_alloc();
        if (c.s.chance(30)) set_atom(a, other(c)); // used for something else before
        bufs.emplace_back(new Buf(m.tt == 's' ? m.s + std::string(1, '\0') : be32((uint32_t)m.s.size()) + m.s));
        if (m.tt == 's') osc_atom_u_setStringPtr(a, bufs.back()->p);
        else osc_atom_u_setBlobPtr(a, bufs.back()->p);
        return a;
    }
    void gone(Ctx &c) {
        for (auto &b : bufs)
            if (b->n > 1) memset(b->p, '#', b->n - 1);
        if (c.s.chance(50)) bufs.clear();
    }
};
static void lent(Ctx &c) {
    GenOpt o = opts(c);
    o.types = "ssb";
    std::vector<MAtom> m;
    int n = 1 + (int)c.s.below(4);
    for (int i = 0; i < n; i++) m.push_back(gen_atom(c, o, 0));
    MMsg want = {"/lent", m};
    c.note(dump(want));
    c.nontrivial = true;
    Lent l;
    auto check = [&](const char *how, const MMsg &got) { CHECK(c, got == want, "%s is %s, want %s", how, dump(got).c_str(), dump(want).c_str()); };
    switch (c.s.below(4)) {
    case 0: { // one value after the other
        std::vector<t_osc_atom_u *> cp;
        std::vector<t_osc_atom_u *> from;
        for (auto &x : m) {
            t_osc_atom_u *a = l.lend(c, x), *b = nullptr;
            if (c.s.chance(50)) b = osc_atom_u_copy(a);
            else {
                if (c.s.chance(50)) b = build_atom(other(c));
                osc_atom_u_copyInto(&b, a);
            }
            if (c.s.chance(30)) { // a copy of the copy
                t_osc_atom_u *b2 = osc_atom_u_copy(b);
                osc_atom_u_free(b);
                b = b2;
            }
            from.push_back(a);
            cp.push_back(b);
        }
        bool before = c.s.chance(50);
        if (before)
            for (auto a : from) osc_atom_u_free(a);
        l.gone(c);
        MMsg got = {"/lent", {}};
        for (auto b : cp) got.args.push_back(read_atom(b)), osc_atom_u_free(b);
        if (!before)
            for (auto a : from) osc_atom_u_free(a);
        check("a copy of a value that was lent", got);
        break;
    }
    case 1: { // an array of them
        t_osc_atom_ar_u *ar = osc_atom_array_u_alloc(n);
        for (int i = 0; i < n; i++) {
            t_osc_atom_u *a = (t_osc_atom_u *)osc_atom_array_u_get(ar, i);
            l.bufs.emplace_back(new Buf(m[i].tt == 's' ? m[i].s + std::string(1, '\0') : be32((uint32_t)m[i].s.size()) + m[i].s));
            if (m[i].tt == 's') osc_atom_u_setStringPtr(a, l.bufs.back()->p);
            else osc_atom_u_setBlobPtr(a, l.bufs.back()->p);
        }
        t_osc_atom_ar_u *cp = osc_atom_array_u_copy(ar);
        osc_atom_array_u_free(ar);
        l.gone(c);
        MMsg got = {"/lent", {}};
        for (int i = 0; i < osc_atom_array_u_getLen(cp); i++) got.args.push_back(read_atom((t_osc_atom_u *)osc_atom_array_u_get(cp, i)));
        osc_atom_array_u_free(cp);
        check("a copy of an array of values that were lent", got);
        break;
    }
    case 2:
    case 3: { // a message, or a bundle with one
        t_osc_msg_u *a = osc_message_u_allocWithAddress((char *)"/lent"), *b = nullptr;
        for (auto &x : m) osc_message_u_appendAtom(a, l.lend(c, x));
        if (c.s.chance(50)) {
            osc_message_u_deepCopy(&b, a);
            osc_message_u_free(a);
            l.gone(c);
            MMsg got = read_msg(b);
            osc_message_u_free(b);
            check("a copy of a message that was lent values", got);
        } else {
            t_osc_bndl_u *x = osc_bundle_u_alloc(), *y = nullptr;
            osc_bundle_u_addMsg(x, a);
            if (c.s.chance(50)) osc_bundle_u_copy(&y, x);
            else {
                y = osc_bundle_u_alloc();
                osc_bundle_u_addMsgCopy(y, a);
            }
            osc_bundle_u_free(x);
            l.gone(c);
            MBundle got = read_bundle(y);
            osc_bundle_u_free(y);
            CHECK(c, got.size() == 1, "%zu messages", got.size());
            check("a copy of a bundle that was lent values", got[0]);
        }
        break;
    }
    }
}
namespace pt {
Property property = {
    "P17", "values with storage of their own; messages and bundles of two or more",
    {{"values", 2, atoms}, {"messages", 2, messages}, {"bundles", 3, bundles}, {"serialised bundles", 1, serialised}, {"taken out", 2, taken}, {"lent", 2, lent}, {"arrays of messages", 1, message_array}},
    {},
    300000, 30000000,
};
}
