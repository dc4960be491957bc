// P08: union, intersection, difference
#include "model.hpp"
using namespace pt;

static bool has(const MBundle &b, const std::string &a) {
    for (auto &m : b) if (m.addr == a) return true;
    return false;
}
static MBundle gen(Ctx &c, const std::vector<std::string> &pool, int max) {
    GenOpt o;
    o.max_args = 3;
    o.depth = 1;
    o.max_str = 5;
    o.max_msgs = max;
    MBundle b = gen_bundle(c, o);
    for (auto &m : b) m.addr = c.s.pick(pool);
    return b;
}
static std::string bytes(t_osc_bndl_s *s) { return std::string(osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s)); }

static void pools(Ctx &c, std::vector<std::string> &pool) {
    GenOpt o;
    o.seg_chars = c.s.chance(70) ? "ab" : nullptr;
    int n = c.s.range(1, 7);
    for (int i = 0; i < n; i++) pool.push_back(gen_addr(c, o));
    // prefixes and extensions are different addresses
    pool.push_back(pool[0] + "/a");
    pool.push_back(pool[0] + "a");
}
static void serialised(Ctx &c) {
    std::vector<std::string> pool;
    pools(c, pool);
    MBundle a = gen(c, pool, 6), b = gen(c, pool, 6);
    uint64_t ta = c.s.u64(), tb = c.s.u64();
    c.note("first\n" + dump(a) + "\nsecond\n" + dump(b));
    std::string wa = enc_bundle(a, ta), wb = enc_bundle(b, tb);
    Buf ba(wa), bb(wb);
    // nothing at all stands for a bundle without messages
    bool na = a.empty() && c.s.chance(30), nb = b.empty() && c.s.chance(30);
    long la = na ? 0 : ba.n, lb = nb ? 0 : bb.n;
    char *pa = na ? nullptr : ba.p, *pb = nb ? nullptr : bb.p;
    int common = 0;
    for (auto &m : a) common += has(b, m.addr);
    c.nontrivial = common > 0 && common < (int)a.size() && b.size() > 1;
    // union
    MBundle u = a, in, df;
    for (auto &m : b) if (!has(u, m.addr)) u.push_back(m);
    for (auto &m : a) if (has(b, m.addr) && !has(in, m.addr)) in.push_back(m);
    for (auto &m : a) if (!has(b, m.addr) && !has(df, m.addr)) df.push_back(m);
    for (auto &m : b) if (!has(a, m.addr) && !has(df, m.addr)) df.push_back(m);
    {
        t_osc_bndl_s *x = osc_bundle_s_alloc(ba.n, ba.p), *y = osc_bundle_s_alloc(bb.n, bb.p);
        t_osc_bndl_s *r = osc_bundle_s_union(x, y);
        CHECK(c, r, "no union");
        MBundle g = must_decode(c, "the union", osc_bundle_s_getPtr(r), osc_bundle_s_getLen(r));
        CHECK(c, g == u, "union is\n%s\nwant\n%s", dump(g).c_str(), dump(u).c_str());
        if (!a.empty()) CHECK(c, bytes(r).substr(8, 8) == be64(ta), "the union's timetag is not the first bundle's");
        CHECK(c, bytes(r).substr(16) == enc_bundle(u).substr(16), "the union's bytes differ");
        osc_bundle_s_deepFree(r);
        CHECK(c, !osc_bundle_s_union(nullptr, y) && !osc_bundle_s_union(x, nullptr), "union with an absent bundle");
        osc_bundle_s_free(x);
        osc_bundle_s_free(y);
    }
    for (int pre = 0; pre < 2; pre++)
        for (int op = 0; op < 2; op++) {
            const char *nm = op ? "difference" : "intersection";
            const MBundle &w = op ? df : in;
            long len = -1;
            char *out = nullptr;
            Buf room(std::string(ba.n + bb.n, '\x5a'));
            if (pre) out = room.p; // a caller's buffer large enough
            t_osc_err e = op ? osc_bundle_s_difference(la, pa, lb, pb, &len, &out) : osc_bundle_s_intersection(la, pa, lb, pb, &len, &out);
            CHECK(c, !e && out, "%s reports error %ld", nm, (long)e);
            if (pre) CHECK(c, out == room.p, "%s does not use the given buffer", nm);
            CHECK(c, len >= 16, "%s has length %ld", nm, len);
            MBundle g = must_decode(c, nm, out, len);
            CHECK(c, g == w, "%s is\n%s\nwant\n%s", nm, dump(g).c_str(), dump(w).c_str());
            CHECK(c, std::string(out, len).substr(16) == enc_bundle(w).substr(16), "the %s's bytes differ", nm);
            if (!a.empty() && !b.empty()) CHECK(c, std::string(out + 8, 8) == be64(ta), "the %s's timetag is not the first bundle's", nm);
            if (!pre) free(out);
        }
    CHECK(c, !memcmp(ba.p, wa.data(), wa.size()) && !memcmp(bb.p, wb.data(), wb.size()), "an input was changed");
}
static void in_memory(Ctx &c) {
    std::vector<std::string> pool;
    pools(c, pool);
    MBundle a = gen(c, pool, 5), b = gen(c, pool, 5);
    t_osc_bndl_u *ua = come_by_bundle(c, a), *ub = come_by_bundle(c, b), *r = nullptr, *s = nullptr;
    c.note("first\n" + dump(a) + "\nsecond\n" + dump(b));
    int common = 0;
    for (auto &m : a) common += has(b, m.addr);
    c.nontrivial = common > 0 && common < (int)a.size() && b.size() > 1;
    MBundle un, in;
    for (auto *x : {&a, &b}) for (auto &m : *x) if (!has(un, m.addr)) un.push_back(m);
    for (auto &m : a) if (has(b, m.addr) && !has(in, m.addr)) in.push_back(m);
    if (c.s.chance(15)) { // of a bundle with itself
        MBundle once;
        for (auto &m : a) if (!has(once, m.addr)) once.push_back(m);
        t_osc_bndl_u *p = nullptr, *q = nullptr;
        osc_bundle_u_union(ua, ua, &p);
        osc_bundle_u_intersection(ua, ua, &q);
        CHECK(c, read_bundle(p) == once && read_bundle(q) == once, "the bundle with itself gives\n%s\nand\n%s", dump(read_bundle(p)).c_str(), dump(read_bundle(q)).c_str());
        osc_bundle_u_free(p);
        osc_bundle_u_free(q);
    }
    CHECK(c, !osc_bundle_u_union(ua, ub, &r) && r, "union fails");
    CHECK(c, !osc_bundle_u_intersection(ua, ub, &s) && s, "intersection fails");
    CHECK(c, read_bundle(ua) == a && read_bundle(ub) == b, "an input was changed");
    bool first = c.s.below(2);
    if (first) osc_bundle_u_free(ua), osc_bundle_u_free(ub); // the results do not depend on the inputs
    MBundle g = read_bundle(r);
    CHECK(c, g == un, "union is\n%s\nwant\n%s", dump(g).c_str(), dump(un).c_str());
    CHECK(c, osc_bundle_u_getMsgCount(r) == (int)un.size(), "union counts %d messages, want %zu", osc_bundle_u_getMsgCount(r), un.size());
    g = read_bundle(s);
    CHECK(c, g == in, "intersection is\n%s\nwant\n%s", dump(g).c_str(), dump(in).c_str());
    CHECK(c, osc_bundle_u_getMsgCount(s) == (int)in.size(), "intersection counts %d messages, want %zu", osc_bundle_u_getMsgCount(s), in.size());
    osc_bundle_u_free(r);
    osc_bundle_u_free(s);
    if (!first) {
        CHECK(c, read_bundle(ua) == a && read_bundle(ub) == b, "freeing the results changed an input");
        osc_bundle_u_free(ua), osc_bundle_u_free(ub);
    }
}

namespace pt {
Property property = {
    "P08",
    "pairs of bundles (0-6 messages each, addresses drawn from a small pool with prefixes and repeats, any types and timetags), "
    "serialised (results allocated and into a caller's buffer) and in memory; for the serialised intersection and difference also no bundle at all. Non-trivial: some addresses of the first bundle "
    "occur in the second and some do not",
    {{"serialised", 6, serialised}, {"in memory", 4, in_memory}},
    {"addresses are plain (no wildcards)", "there is no in-memory difference in the API"},
    450000, 30000000,
};
}
