// P07: address lookup in a bundle
// uses: pattern.cpp
#include "model.hpp"
#include "pattern.hpp"
using namespace pt;

static bool hit(const std::vector<PSeg> &pat, const std::string &text, const std::string &addr, bool full) {
    MatchRes r = ref_match(pat, addr, &text);
    if (full) return r.r == 3;
    // a partial match ends at a segment boundary of the pattern or completes it
    return r.r != 0 && ((r.r & 2) || (r.po < (int)text.size() && text[r.po] == '/'));
}
static void check(Ctx &c, const MBundle &b, const std::vector<PSeg> &pat, const std::string &text, uint64_t tt) {
    c.note(dump(b) + "\nlookup " + show(text));
    std::string wire = enc_bundle(b, tt);
    Buf in(wire), key(text + std::string(1, '\0'));
    t_osc_bndl_u *u = build_bundle(b);
    for (int full = 0; full < 2; full++) {
        std::vector<size_t> want;
        bool bound = false;
        for (size_t i = 0; i < b.size(); i++)
            if (hit(pat, text, b[i].addr, full)) want.push_back(i), bound |= !b[i].args.empty();
        if (!want.empty() && want.size() < b.size()) c.nontrivial = true;
        if (want.size() > 16) c.label("more than 16 matches");
        const char *fm = full ? "full" : "partial";
        int n = -1;
        osc_bundle_s_addressExists(in.n, in.p, key.p, full, &n);
        CHECK(c, (n != 0) == !want.empty(), "%s addressExists on the bytes: %d, %zu messages match", fm, n, want.size());
        n = -1;
        osc_bundle_u_addressExists(u, key.p, full, &n);
        CHECK(c, (n != 0) == !want.empty(), "%s addressExists in memory: %d, %zu messages match", fm, n, want.size());
        n = -1;
        osc_bundle_s_addressIsBound(in.n, in.p, key.p, full, &n);
        CHECK(c, (n != 0) == bound, "%s addressIsBound on the bytes: %d, want %d", fm, n, bound);
        n = -1;
        osc_bundle_u_addressIsBound(u, key.p, full, &n);
        CHECK(c, (n != 0) == bound, "%s addressIsBound in memory: %d, want %d", fm, n, bound);
        for (int via_b = 0; via_b < 2; via_b++) {
            t_osc_msg_ar_s *as;
            if (via_b) {
                t_osc_bndl_s *sb = osc_bundle_s_alloc(in.n, in.p);
                as = osc_bundle_s_lookupAddress_b(sb, key.p, full);
                osc_bundle_s_free(sb);
            } else as = osc_bundle_s_lookupAddress(in.n, in.p, key.p, full);
            size_t got = as ? osc_message_array_s_getLen(as) : 0;
            CHECK(c, got == want.size(), "%s lookup on the bytes finds %zu messages, want %zu", fm, got, want.size());
            for (size_t i = 0; i < got; i++) {
                t_osc_msg_s *m = osc_message_array_s_get(as, i);
                std::string w = enc_msg(b[want[i]]);
                CHECK(c, m && osc_message_s_getSize(m) == w.size() && !memcmp(osc_message_s_getPtr(m), (be32(w.size()) + w).data(), w.size() + 4),
                      "%s lookup on the bytes: match %zu is not message %zu", fm, i, want[i]);
            }
            if (as) osc_message_array_s_free(as);
        }
        t_osc_msg_ar_u *au = osc_bundle_u_lookupAddress(u, key.p, full);
        size_t gotu = au ? osc_message_array_u_getLen(au) : 0;
        CHECK(c, gotu == want.size(), "%s lookup in memory finds %zu messages, want %zu", fm, gotu, want.size());
        for (size_t i = 0; i < gotu; i++) {
            MMsg m = read_msg(osc_message_array_u_get(au, i));
            CHECK(c, m == b[want[i]], "%s lookup in memory: match %zu is %s, want %s", fm, i, dump(m).c_str(), dump(b[want[i]]).c_str());
        }
        if (au) osc_message_array_u_free(au);
        if (full) {
            char *f = osc_bundle_s_getFirstFullMatch(in.n, in.p, key.p);
            long off = 16;
            if (!want.empty()) for (size_t i = 0; i < want[0]; i++) off += 4 + enc_msg(b[i]).size();
            CHECK(c, want.empty() ? !f : f == in.p + off, "first full match on the bytes at %ld, want %ld", f ? (long)(f - in.p) : -1L, want.empty() ? -1 : off);
            t_osc_msg_u *fu = osc_bundle_u_getFirstFullMatch(u, key.p), *w = nullptr;
            if (!want.empty()) {
                w = osc_bundle_u_getFirstMsg(u);
                for (size_t i = 0; i < want[0]; i++) w = osc_message_u_next(w);
            }
            CHECK(c, fu == w, "first full match in memory is not the first match");
        }
    }
    char *e = osc_bundle_s_getFirstEqualAddr(in.n, in.p, key.p), *w = nullptr;
    long off = 16;
    for (auto &m : b) {
        if (m.addr == text) {
            w = in.p + off;
            break;
        }
        off += 4 + enc_msg(m).size();
    }
    CHECK(c, e == w, "first equal address at %ld, want %ld", e ? (long)(e - in.p) : -1L, w ? (long)(w - in.p) : -1L);
    CHECK(c, !memcmp(in.p, wire.data(), wire.size()), "looking up changed the bytes");
    CHECK(c, read_bundle(u) == b, "looking up changed the bundle");
    osc_bundle_u_free(u);
}
static MBundle colliding(Ctx &c, int max, const char *chars) {
    GenOpt o;
    o.max_msgs = max;
    o.max_args = 2;
    o.depth = 1;
    o.types = "iisdTtb.NF";
    o.max_str = 4;
    o.seg_chars = chars;
    o.big_max = 300;
    MBundle b = gen_bundle(c, o);
    // repeat and extend addresses already there
    for (size_t i = 1; i < b.size(); i++) {
        const std::string &p = b[c.s.below(i)].addr;
        switch (c.s.below(6)) {
        case 0: b[i].addr = p; break;
        case 1: b[i].addr = p + "/" + c.s.pickc(chars); break;
        case 2: b[i].addr = p.substr(0, p.rfind('/')).empty() ? p : p.substr(0, p.rfind('/')); break;
        case 3: b[i].addr = p + c.s.pickc(chars); break;
        case 4: if (c.s.chance(30)) b[i].addr = p + "/*"; break;
        }
    }
    return b;
}
static void plain(Ctx &c) {
    const char *ch = c.s.chance(70) ? "ab" : "abcdef012";
    MBundle b = colliding(c, c.s.chance(8) ? 40 : 6, ch);
    std::string t = b.empty() ? "/a" : c.s.pick(b).addr;
    switch (c.s.below(6)) {
    case 0: t += std::string("/") + c.s.pickc(ch); break;
    case 1: t += c.s.pickc(ch); break;
    case 2: if (t.rfind('/') > 0) t = t.substr(0, t.rfind('/')); break;
    case 3: t = std::string("/") + c.s.pickc(ch); break;
    }
    std::vector<PSeg> p;
    if (!parse_pattern(t, p)) throw Discard{};
    check(c, b, p, t, c.s.below(3));
}
static void pattern(Ctx &c) {
    MBundle b = colliding(c, 6, "ab");
    std::vector<PSeg> p;
    int n = 1 + c.s.size(2);
    std::vector<std::string> near;
    if (!b.empty()) near = split_addr(c.s.pick(b).addr);
    for (int i = 0; i < n; i++)
        if (i < (int)near.size() && near[i].find('*') == std::string::npos && c.s.chance(60)) p.push_back(lit_seg(near[i]));
        else p.push_back(gen_pseg(c, "ab"));
    check(c, b, p, render(p), c.s.below(3));
}
// a segment with a bracket that is never closed, or never opened, matches nothing
static void malformed(Ctx &c) {
    MBundle b = colliding(c, 6, "ab");
    for (auto &m : b)
        if (m.addr.find('*') != std::string::npos) throw Discard{};
    std::vector<PSeg> p;
    std::string text;
    std::vector<std::string> near;
    if (!b.empty()) near = split_addr(c.s.pick(b).addr);
    int n = c.s.size(2);
    for (int i = 0; i < n && i < (int)near.size(); i++) p.push_back(c.s.chance(80) ? lit_seg(near[i]) : gen_pseg(c, "ab"));
    if (!p.empty()) text = render(p);
    static const char *bad[] = {"{a", "{a,b", "{", "[a", "[", "[a-b", "[!a", "a}", "a]", "}", "]", "*{a", "?[a", "*}", "?]"};
    text += std::string("/") + bad[c.s.below(sizeof bad / sizeof *bad)];
    c.note(dump(b) + "\nlookup of a malformed pattern " + show(text));
    std::string wire = enc_bundle(b);
    Buf in(wire), key(text + std::string(1, '\0'));
    t_osc_bndl_u *u = build_bundle(b);
    for (int full = 0; full < 2; full++) {
        size_t want = 0, bound = 0;
        for (auto &m : b) // only what ends before the malformed segment can match
            if (!full && !p.empty() && (ref_match(p, m.addr, &text).r & 1)) want++, bound += !m.args.empty();
        c.nontrivial |= !b.empty() && want < b.size();
        const char *fm = full ? "full" : "partial";
        int e[4] = {-1, -1, -1, -1};
        osc_bundle_s_addressExists(in.n, in.p, key.p, full, &e[0]);
        osc_bundle_u_addressExists(u, key.p, full, &e[1]);
        osc_bundle_s_addressIsBound(in.n, in.p, key.p, full, &e[2]);
        osc_bundle_u_addressIsBound(u, key.p, full, &e[3]);
        CHECK(c, !!e[0] == !!want && !!e[1] == !!want, "%s addressExists: %d on the bytes, %d in memory, %zu messages match", fm, e[0], e[1], want);
        CHECK(c, !!e[2] == !!bound && !!e[3] == !!bound, "%s addressIsBound: %d on the bytes, %d in memory, want %zu", fm, e[2], e[3], bound);
        t_osc_msg_ar_s *as = osc_bundle_s_lookupAddress(in.n, in.p, key.p, full);
        t_osc_msg_ar_u *au = osc_bundle_u_lookupAddress(u, key.p, full);
        size_t ns = as ? osc_message_array_s_getLen(as) : 0, nu = au ? osc_message_array_u_getLen(au) : 0;
        CHECK(c, ns == want && nu == want, "%s lookup: %zu on the bytes, %zu in memory, %zu messages match", fm, ns, nu, want);
        if (as) osc_message_array_s_free(as);
        if (au) osc_message_array_u_free(au);
    }
    CHECK(c, !osc_bundle_s_getFirstFullMatch(in.n, in.p, key.p) && !osc_bundle_u_getFirstFullMatch(u, key.p), "a full match of a malformed pattern");
    osc_bundle_u_free(u);
}
static void many(Ctx &c) {
    // more matches than one block of the result array
    MBundle b;
    int n = c.s.range(14, 70);
    for (int i = 0; i < n; i++) {
        MMsg m;
        m.addr = c.s.chance(85) ? "/a" : c.s.chance(50) ? "/a/b" : "/b";
        if (c.s.chance(60)) m.args.push_back(mk_i(i));
        b.push_back(m);
    }
    std::string t = c.s.chance(80) ? "/a" : "/a/b";
    std::vector<PSeg> p;
    for (auto &s : split_addr(t)) p.push_back(lit_seg(s));
    check(c, b, p, t, 0);
}

namespace pt {
Property property = {
    "P07",
    "bundles whose addresses repeat, extend and truncate one another (up to 70 messages), with argument-less messages and '*' "
    "segments, looked up with a present address, a prefix, an extension, an absent address or a pattern, fully and partially, in "
    "both representations; patterns with an unmatched bracket. Non-trivial: some messages match and some do not",
    {{"plain", 6, plain}, {"pattern", 3, pattern}, {"many", 1, many}, {"malformed", 1, malformed}},
    {"addresses of up to 900 characters, below the matcher's documented backtracking limit"},
    180000, 6000000,
};
}
