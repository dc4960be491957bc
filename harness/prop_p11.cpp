// P11: edits of serialised bundles
#include "model.hpp"
using namespace pt;

struct M { std::string addr, body; }; // a message's bytes without the size
typedef std::vector<M> L;
static std::string enc_list(const L &l, uint64_t tt) {
    std::string r = std::string("#bundle\0", 8) + be64(tt);
    for (auto &m : l) r += be32((uint32_t)m.body.size()) + m.body;
    return r;
}
static std::string names(const L &l) {
    std::string r = "{";
    for (auto &m : l) r += m.addr + "(" + std::to_string(m.body.size()) + ") ";
    return r + "}";
}
static bool big;
static M gen(Ctx &c, const std::vector<std::string> &pool) {
    GenOpt o;
    o.max_args = c.s.chance(10) ? 30 : 3;
    o.depth = 1;
    o.max_msgs = 2;
    o.max_str = 8;
    o.types = "iidhsTtbF.cNCuUIHf";
    MMsg m = gen_msg(c, o, 1);
    m.addr = c.s.pick(pool);
    if (big && c.s.chance(60)) { // more than fits on a stack
        int32_t n = c.s.range(1, 2000000) + (c.s.chance(25) ? 8000000 : 0);
        m.args = {mk_s(std::string(n, (char)c.s.range(1, 255)))};
    }
    M r{m.addr, enc_msg(m)};
    if (c.s.chance(7)) r.body = padstr(m.addr); // OSC allows a message without a type string
    return r;
}
struct Msg { // a wrapped message in its own buffer
    Buf b;
    t_osc_msg_s *m;
    explicit Msg(const M &x) : b(be32((uint32_t)x.body.size()) + x.body), m(osc_message_s_alloc()) { osc_message_s_wrap(m, b.p); }
    ~Msg() { osc_message_s_free(m); }
};
struct S {
    L l;
    uint64_t tt = 0;
    char *p = nullptr;
    long len = 0, cap = 0;
};
static void verify(Ctx &c, S &s, const char *op) {
    std::string w = enc_list(s.l, s.tt);
    CHECK(c, s.len == (long)w.size(), "after %s: %ld bytes, want %zu", op, s.len, w.size());
    if (w.size() > 100000) CHECK(c, !memcmp(s.p, w.data(), w.size()), "after %s: other bytes", op);
    CHECK(c, !memcmp(s.p, w.data(), w.size()), "after %s: bytes\n %s\nwant\n %s", op, hex(s.p, s.len).c_str(), hex(w.data(), w.size()).c_str());
    CHECK(c, osc_error_bundleSanityCheck(s.len, s.p) == OSC_ERR_NONE, "after %s: the bundle fails the sanity check", op);
    int n = -1;
    osc_bundle_s_getMsgCount(s.len, s.p, &n);
    CHECK(c, n == (int)s.l.size(), "after %s: %d messages, want %zu", op, n, s.l.size());
}
// exact-size block, so that writing beyond it is seen
static void fit(S &s) {
    char *p = (char *)malloc(s.len);
    memcpy(p, s.p, s.len);
    free(s.p);
    s.p = p;
    s.cap = s.len;
}
static void set(S &s, const L &l, uint64_t tt) {
    std::string w = enc_list(l, tt);
    free(s.p);
    s.p = (char *)malloc(w.size());
    memcpy(s.p, w.data(), w.size());
    s.len = s.cap = w.size();
    s.l = l;
    s.tt = tt;
}
static long offset(const L &l, size_t i) {
    long o = 16;
    for (size_t j = 0; j < i; j++) o += 4 + l[j].body.size();
    return o;
}
static void ops(Ctx &c) {
    std::vector<std::string> pool = {"/a", "/a/b", "/ab", "/abc", "/abcdefg", "/*", "/[ab]", "/foo/bar/baz/q"};
    if (c.s.chance(30)) pool.resize(2);
    S s;
    int start = c.s.below(4);
    if (start == 1) {
        t_osc_bndl_s *e = osc_bundle_s_allocEmptyBundle();
        CHECK(c, e && osc_bundle_s_getLen(e) == 16 && osc_bundle_s_getPtr(e), "allocEmptyBundle");
        s.p = osc_bundle_s_getPtr(e);
        s.len = s.cap = osc_bundle_s_getLen(e);
        osc_bundle_s_free(e);
    } else if (start == 2) {
        t_osc_bndl_s *e = osc_bundle_s_alloc(0, nullptr);
        CHECK(c, osc_bundle_s_setBundleID_b(e) == OSC_ERR_NONE, "setBundleID_b");
        s.p = osc_bundle_s_getPtr(e);
        s.len = s.cap = osc_bundle_s_getLen(e);
        osc_bundle_s_free(e);
    } else if (start == 3) {
        // the first append makes the bundle
        M m = gen(c, pool);
        Msg x(m);
        CHECK(c, osc_bundle_s_appendMessage(&s.len, &s.p, x.m) == OSC_ERR_NONE && s.p, "appendMessage to nothing");
        s.cap = s.len;
        s.l.push_back(m);
    } else {
        L l;
        int n = c.s.size(5);
        for (int i = 0; i < n; i++) l.push_back(gen(c, pool));
        set(s, l, c.s.u64());
    }
    verify(c, s, "making the bundle");
    int n = 1 + c.s.size(big ? 5 : c.s.chance(10) ? 40 : 12), removed = 0, replaced = 0;
    for (int i = 0; i < n; i++) {
        const char *name = "?";
        if (c.s.chance(40)) fit(s);
        switch (c.s.weighted({5, 3, 4, 4, 3, 3, 2, 1, 2, 1})) {
        case 0: {
            name = "appendMessage";
            M m = gen(c, pool);
            Msg x(m);
            if (!s.l.empty() && c.s.chance(20)) { // one that it has already
                size_t at = c.s.below(s.l.size());
                m = s.l[at];
                osc_message_s_wrap(x.m, s.p + offset(s.l, at));
            }
            if (c.s.chance(50)) CHECK(c, osc_bundle_s_appendMessage(&s.len, &s.p, x.m) == OSC_ERR_NONE, "appendMessage fails");
            else {
                t_osc_bndl_s *b = osc_bundle_s_alloc(s.len, s.p);
                CHECK(c, osc_bundle_s_appendMessage_b(&b, x.m) == OSC_ERR_NONE, "appendMessage_b fails");
                s.len = osc_bundle_s_getLen(b);
                s.p = osc_bundle_s_getPtr(b);
                osc_bundle_s_free(b);
            }
            s.cap = s.len;
            s.l.push_back(m);
            break;
        }
        case 1: {
            name = "appending nothing";
            osc_bundle_s_appendMessage(&s.len, &s.p, nullptr);
            break;
        }
        case 2: {
            name = "removeMessage";
            Buf key(c.s.pick(pool) + std::string(1, '\0'));
            std::string k = key.p;
            char *kp = key.p;
            if (!s.l.empty() && c.s.chance(20)) { // by the address in the bundle itself
                size_t at = c.s.below(s.l.size());
                k = s.l[at].addr;
                kp = s.p + offset(s.l, at) + 4;
            }
            CHECK(c, osc_bundle_s_removeMessage(kp, &s.len, s.p, c.s.below(2)) == OSC_ERR_NONE, "removeMessage fails");
            L l;
            for (auto &m : s.l)
                if (m.addr != k) l.push_back(m);
                else removed++;
            s.l = l;
            break;
        }
        case 3: {
            name = "replaceMessage";
            if (s.l.empty()) continue;
            size_t at = c.s.below(s.l.size());
            M m = gen(c, pool);
            Msg x(m);
            t_osc_msg_s *old = osc_message_s_alloc();
            osc_message_s_wrap(old, s.p + offset(s.l, at));
            if (c.s.chance(20)) { // with one of its own
                size_t from = c.s.below(s.l.size());
                m = s.l[from];
                osc_message_s_wrap(x.m, s.p + offset(s.l, from));
            }
            CHECK(c, osc_bundle_s_replaceMessage(&s.cap, &s.len, &s.p, old, x.m) == OSC_ERR_NONE, "replaceMessage fails");
            CHECK(c, s.cap >= s.len, "replaceMessage: a buffer of %ld for %ld bytes", s.cap, s.len);
            osc_message_s_free(old);
            if (m.body.size() != s.l[at].body.size()) replaced++;
            s.l[at] = m;
            break;
        }
        case 4: {
            name = "renaming a message";
            if (s.l.empty()) continue;
            size_t at = c.s.below(s.l.size());
            std::string a = c.s.pick(pool);
            if (c.s.chance(20)) a += std::string(c.s.range(1, 9), 'x');
            t_osc_msg_s *old = osc_message_s_alloc();
            osc_message_s_wrap(old, s.p + offset(s.l, at));
            M m{a, padstr(a) + s.l[at].body.substr(padstr(s.l[at].addr).size())};
            Buf room(std::string(m.body.size() + 4, '\x5a')), na(a + std::string(1, '\0'));
            int32_t r = osc_message_s_renameCopy(room.p, old, (int32_t)a.size(), na.p);
            CHECK(c, r == (int32_t)m.body.size(), "renameCopy gives size %d, want %zu", r, m.body.size());
            std::string w = be32(r) + m.body;
            CHECK(c, !memcmp(room.p, w.data(), w.size()), "renameCopy wrote\n %s\nwant\n %s", hex(room.p, room.n).c_str(), hex(w.data(), w.size()).c_str());
            t_osc_msg_s *nw = osc_message_s_alloc();
            osc_message_s_wrap(nw, room.p);
            CHECK(c, osc_bundle_s_replaceMessage(&s.cap, &s.len, &s.p, old, nw) == OSC_ERR_NONE, "replaceMessage fails");
            osc_message_s_free(nw);
            osc_message_s_free(old);
            s.l[at] = m;
            break;
        }
        case 5: {
            name = "concat";
            L l;
            int q = c.s.size(3);
            for (int j = 0; j < q; j++) l.push_back(gen(c, pool));
            uint64_t tt = c.s.u64();
            Buf other(enc_list(l, tt));
            int how = c.s.weighted({6, 2, 1, 1});
            S r;
            r.p = (char *)malloc(s.len + other.n);
            if (how == 0) {
                r.len = osc_bundle_s_concat(s.len, s.p, other.n, other.p, r.p);
                r.l = s.l, r.tt = s.tt;
                r.l.insert(r.l.end(), l.begin(), l.end());
            } else if (how == 1) {
                r.len = osc_bundle_s_concat(other.n, other.p, s.len, s.p, r.p);
                r.l = l, r.tt = tt;
                r.l.insert(r.l.end(), s.l.begin(), s.l.end());
            } else if (how == 2) r.len = osc_bundle_s_concat(s.len, s.p, 0, nullptr, r.p), r.l = s.l, r.tt = s.tt;
            else r.len = osc_bundle_s_concat(0, nullptr, other.n, other.p, r.p), r.l = l, r.tt = tt;
            free(s.p);
            s = r;
            s.cap = s.len;
            break;
        }
        case 6: {
            name = "setTimetag";
            uint64_t tt = c.s.u64();
            osc_bundle_s_setTimetag(s.len, s.p, t_osc_timetag{(uint32_t)(tt >> 32), (uint32_t)tt});
            s.tt = tt;
            t_osc_timetag g = osc_bundle_s_getTimetag(s.len, s.p);
            CHECK(c, g.sec == (uint32_t)(tt >> 32) && g.frac_sec == (uint32_t)tt, "getTimetag gives %u %u", g.sec, g.frac_sec);
            break;
        }
        case 7: {
            name = "deepCopy";
            t_osc_bndl_s *b = osc_bundle_s_alloc(s.len, s.p), *d = nullptr;
            CHECK(c, osc_bundle_s_deepCopy(&d, b) == OSC_ERR_NONE && d, "deepCopy fails");
            memset(s.p, 'x', s.len);
            free(s.p);
            osc_bundle_s_free(b);
            s.p = osc_bundle_s_getPtr(d);
            s.len = s.cap = osc_bundle_s_getLen(d);
            osc_bundle_s_free(d);
            break;
        }
        case 8: {
            name = "wrapMessage";
            M m = gen(c, pool);
            Buf b(m.body);
            S r;
            char alloc = 9;
            bool own = c.s.below(2);
            if (own) {
                r.p = (char *)malloc(16 + 4 + m.body.size());
                memset(r.p, 0, 16);
                uint64_t tt = c.s.u64();
                std::string t = be64(tt);
                memcpy(r.p + 8, t.data(), 8);
                r.tt = tt;
            }
            char *mine = r.p;
            CHECK(c, osc_bundle_s_wrapMessage(b.n, b.p, &r.len, &r.p, &alloc) == OSC_ERR_NONE, "wrapMessage fails");
            CHECK(c, alloc == !own && (!own || r.p == mine), "wrapMessage says it allocated: %d", alloc);
            r.l.push_back(m);
            r.cap = r.len;
            verify(c, r, name);
            free(s.p);
            s = r;
            break;
        }
        case 9: {
            name = "setBundleID_b";
            // empties the bundle, also where the block was too short to hold a header
            if (c.s.chance(30)) {
                s.len = c.s.below(16);
                free(s.p);
                s.p = (char *)malloc(s.len ? s.len : 1);
                memset(s.p, 0x5a, s.len);
            }
            t_osc_bndl_s *b = osc_bundle_s_alloc(s.len, s.p);
            CHECK(c, osc_bundle_s_setBundleID_b(b) == OSC_ERR_NONE, "setBundleID_b fails");
            s.p = osc_bundle_s_getPtr(b);
            s.len = s.cap = osc_bundle_s_getLen(b);
            osc_bundle_s_free(b);
            s.l.clear();
            s.tt = 0;
            break;
        }
        }
        c.note(std::string(name) + " -> " + names(s.l));
        verify(c, s, name);
    }
    c.nontrivial = removed > 0 && replaced > 0;
    free(s.p);
}
static void small(Ctx &c) {
    big = false;
    ops(c);
}
static void large(Ctx &c) {
    big = true;
    ops(c);
}

namespace pt {
Property property = {
    "P11",
    "sequences of 1-40 edits (append, remove by address, replace, rename, concat in both orders and with nothing, wrap, header "
    "timetag, deep copy, making it anew) of a serialised bundle made in four ways, over up to eight addresses including patterns, with shorter and "
    "longer replacements, now and then of many megabytes, and messages without a type string. The bytes are compared with the expected ones after every step. "
    "Non-trivial: something was removed and something was replaced by a message of another size",
    {{"operations", 6000, small}, {"large", 1, large}},
    {"removal and replacement name messages by their exact address"},
    400000, 25000000,
};
}
