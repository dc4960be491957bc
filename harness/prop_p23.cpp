// P23: dispatch
// uses: pattern.cpp
#include "select.hpp"
using namespace pt;

struct Call {
    std::string sel;
    void *ctx;
    char *bndl;
    long len;
    std::string partial, complete; // bytes; empty: no bundle
    std::string unmatched;
    bool delegate;
};
static std::vector<Call> calls;
static std::string bytes(t_osc_bndl_s *b) { return b ? std::string(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b)) : ""; }
// a method may hand on what it is given to a dispatch of its own
static t_osc_vtable *again;
static bool again_strip;
static std::vector<std::pair<std::string, std::vector<Call>>> within;
static void nested(t_osc_bndl_s *b) {
    t_osc_vtable *v = again;
    if (!v || !b || osc_bundle_s_getLen(b) <= 16) return;
    again = NULL;
    std::vector<Call> outer;
    outer.swap(calls);
    osc_dispatch(v, (int32_t)osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b), again_strip);
    outer.swap(calls);
    within.push_back({bytes(b), outer});
    again = v;
}
static bool same(const std::vector<Call> &a, const std::vector<Call> &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        const Call &x = a[i], &y = b[i];
        if (x.sel != y.sel || x.ctx != y.ctx || x.len != y.len || x.partial != y.partial || x.complete != y.complete || x.unmatched != y.unmatched || x.delegate != y.delegate) return false;
    }
    return true;
}
static void method(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *q, void *ctx) {
    calls.push_back({osc_vtable_entry_getSelector(e), ctx, b, len, bytes(p), bytes(q), "", false});
    nested(p);
    nested(q);
}
static void delegate(long len, char *b, t_osc_bndl_s *u, void *ctx) {
    calls.push_back({"", ctx, b, len, "", "", bytes(u), true});
    nested(u);
}

static void run(Ctx &c, bool large) {
    const char *ch = c.s.chance(70) ? "ab" : "abcd0";
    std::vector<std::string> sel = gen_selectors(c, ch, c.s.chance(15) ? 16 : 5);
    SList l = gen_list(c, sel, ch, c.s.chance(10) ? 20 : 6);
    if (large && !l.empty()) fatten(l[c.s.below(l.size())], (8u << 20) + c.s.below(1u << 20));
    bool strip = c.s.below(2), chosen = c.s.chance(35), has_delegate = c.s.chance(85);
    std::vector<std::string> pick;
    if (chosen) {
        for (auto &s : sel) if (c.s.below(2)) pick.push_back(s);
        if (c.s.chance(30)) // names that no entry has, anywhere in the list
            for (int k = c.s.range(1, 6); k > 0; k--) pick.insert(pick.begin() + c.s.below(pick.size() + 1), strf("/not/there/%d", k));
    }
    std::string wire = enc_list(l, c.s.u64());
    c.note("selectors");
    for (auto &s : sel) c.note("  " + s);
    c.note("messages " + names(l) + strf("strip %d chosen %d", strip, chosen));
    std::vector<std::unique_ptr<Buf>> names;
    int slots[64];
    t_osc_vtable *v = osc_vtable_alloc(c.s.below(4));
    for (size_t i = 0; i < sel.size(); i++) {
        Buf s(sel[i] + std::string(1, '\0'));
        osc_vtable_addEntry(v, s.p, method, &slots[i]);
    }
    if (has_delegate) osc_vtable_setDelegationMethod(v, delegate, &slots[60]);
    Buf in(wire);
    calls.clear();
    within.clear();
    again_strip = strip;
    again = !large && c.s.chance(40) ? v : NULL;
    t_osc_err e;
    if (chosen) {
        std::vector<char *> p;
        for (auto &s : pick) {
            names.emplace_back(new Buf(s + std::string(1, '\0')));
            p.push_back(names.back()->p);
        }
        e = osc_dispatch_selectors(v, (int)p.size(), p.data(), (int32_t)in.n, in.p, strip);
    } else e = osc_dispatch(v, (int32_t)in.n, in.p, strip);
    again = NULL;
    CHECK(c, e == OSC_ERR_NONE, "dispatch reports error %ld", (long)e);
    { // what a dispatch does depends on the table and the bundle alone
        std::vector<Call> outer;
        outer.swap(calls);
        for (auto &w : within) {
            Buf b(w.first);
            calls.clear();
            e = osc_dispatch(v, (int32_t)b.n, b.p, strip);
            CHECK(c, e == OSC_ERR_NONE && same(calls, w.second), "dispatched from a method, %s calls other methods than when dispatched alone", hex(w.first.data(), w.first.size()).c_str());
        }
        outer.swap(calls);
    }
    CHECK(c, !memcmp(in.p, wire.data(), wire.size()), "dispatch changed the bundle");
    // what must have happened
    SList un;
    std::map<std::string, std::pair<SList, SList>> want;
    for (auto &m : l) {
        bool any = false;
        for (auto &s : sel) {
            SMsg x;
            int k = classify(m, s, strip, x);
            any |= k != 0;
            if (k == 1) want[s].first.push_back(m);
            if (k == 2) want[s].second.push_back(x), c.nontrivial = true;
        }
        if (!any) un.push_back(m);
    }
    std::map<std::string, int> times;
    int delegated = 0;
    for (auto &k : calls) {
        CHECK(c, k.bndl == in.p && k.len == in.n, "a method is given another bundle");
        if (k.delegate) {
            delegated++;
            CHECK(c, k.ctx == &slots[60], "the delegation method has another context");
            std::string w = l.empty() ? wire : enc_list(un);
            CHECK(c, k.unmatched.size() >= 16 && k.unmatched.substr(16) == w.substr(16) && k.unmatched.substr(0, 8) == w.substr(0, 8),
                  "delegated %s, want %s", hex(k.unmatched.data(), k.unmatched.size()).c_str(), hex(w.data(), w.size()).c_str());
            continue;
        }
        times[k.sel]++;
        size_t at = 0;
        while (at < sel.size() && sel[at] != k.sel) at++;
        CHECK(c, at < sel.size() && k.ctx == &slots[at], "%s is called with another context", k.sel.c_str());
        auto &w = want[k.sel];
        std::string wc = w.first.empty() ? "" : enc_list(w.first), wp = w.second.empty() ? "" : enc_list(w.second);
        CHECK(c, k.complete.size() <= 16 ? wc.empty() : k.complete == wc, "%s: complete matches\n %s\nwant\n %s", k.sel.c_str(),
              hex(k.complete.data(), k.complete.size()).c_str(), hex(wc.data(), wc.size()).c_str());
        CHECK(c, k.partial.size() <= 16 ? wp.empty() : k.partial == wp, "%s: partial matches\n %s\nwant\n %s", k.sel.c_str(),
              hex(k.partial.data(), k.partial.size()).c_str(), hex(wp.data(), wp.size()).c_str());
    }
    for (size_t i = 0; i < sel.size(); i++) {
        bool asked = !chosen;
        for (auto &p : pick) asked |= p == sel[i];
        bool matched = !want[sel[i]].first.empty() || !want[sel[i]].second.empty();
        CHECK(c, times[sel[i]] <= 1, "%s is called %d times", sel[i].c_str(), times[sel[i]]);
        CHECK(c, asked || !times[sel[i]], "%s is called though not asked for", sel[i].c_str());
        CHECK(c, !(asked && matched) || times[sel[i]] == 1, "%s is not called", sel[i].c_str());
    }
    bool todo = l.empty() || !un.empty();
    CHECK(c, delegated == (has_delegate && todo), "the delegation method is called %d times, %zu messages are unmatched", delegated, un.size());
    osc_vtable_free(v);
}
static void dispatch(Ctx &c) { run(c, false); }
static void large(Ctx &c) { run(c, true); }

namespace pt {
Property property = {
    "P23",
    "tables of 0-16 selectors that are prefixes of one another, bundles of up to 20 messages at, above, below and beside the "
    "selectors, and with patterns near them; stripping on and off; all or chosen selectors. Every call is recorded with its bundles' "
    "bytes; messages of more than 8 MB; methods that dispatch what they are given, in turn. Non-trivial: a partial match occurs",
    {{"dispatch", 15000, dispatch}, {"large", 1, large}},
    {"message addresses are well-formed patterns", "a selector without matches may be called with nothing"},
    250000, 15000000,
};
}
