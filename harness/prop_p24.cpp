// P24: queries and result sets
// uses: pattern.cpp
#include "select.hpp"
#include <set>
using namespace pt;

static std::string bytes(t_osc_bndl_s *b) { return b ? std::string(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b)) : ""; }

static void run(Ctx &c, bool large) {
    const char *ch = c.s.chance(70) ? "ab" : "abcd0";
    std::vector<std::string> sel = gen_selectors(c, ch, c.s.chance(15) ? 16 : 6);
    std::vector<std::unique_ptr<Buf>> names_;
    std::vector<char *> p;
    for (auto &s : sel) {
        names_.emplace_back(new Buf(s + std::string(1, '\0')));
        p.push_back(names_.back()->p);
        if (c.s.chance(5)) p.push_back(nullptr);
    }
    t_osc_rset *r = c.s.below(2) ? osc_rset_alloc() : nullptr;
    SList un;
    std::map<std::string, std::pair<SList, SList>> want;
    int rounds = c.s.chance(25) ? 2 : 1; // results accumulate
    for (int q = 0; q < rounds; q++) {
        SList l = gen_list(c, sel, ch, c.s.chance(10) ? 20 : 6);
        if (large && !l.empty()) fatten(l[c.s.below(l.size())], (8u << 20) + c.s.below(1u << 20));
        bool strip = c.s.below(2);
        std::string wire = enc_list(l, c.s.u64());
        Buf in(wire);
        std::string t;
        for (auto &s : sel) t += s + " ";
        c.note("selectors " + t + "messages " + names(l) + strf("strip %d", strip));
        CHECK(c, osc_query_select((int)p.size(), p.data(), (int32_t)in.n, in.p, strip, &r) == OSC_ERR_NONE && r, "the query fails");
        CHECK(c, !memcmp(in.p, wire.data(), wire.size()), "the query changed the bundle");
        memset(in.p, 'x', in.n); // the results are copies
        for (auto &m : l) {
            bool any = false;
            for (auto &s : sel) {
                SMsg x;
                int k = classify(m, s, strip, x);
                any |= k != 0;
                if (k == 1) want[s].first.push_back(m);
                if (k == 2) want[s].second.push_back(x), c.nontrivial = true;
            }
            if (!any) un.push_back(m);
        }
    }
    for (auto &b : names_) memset(b->p, 'y', b->n - 1); // as are the selectors
    std::string u = bytes(osc_rset_getUnmatched(r)), wu = un.empty() ? "" : enc_list(un);
    CHECK(c, u.size() <= 16 ? wu.empty() : u == wu, "unmatched\n %s\nwant\n %s", hex(u.data(), u.size()).c_str(), hex(wu.data(), wu.size()).c_str());
    for (auto &s : sel) {
        auto &w = want[s];
        Buf k(s + std::string(1, '\0'));
        t_osc_rset_result *x = osc_rset_select(r, k.p);
        CHECK(c, x || (w.first.empty() && w.second.empty()), "no result for %s", s.c_str());
        std::string gc = bytes(osc_rset_result_getCompleteMatches(x)), gp = bytes(osc_rset_result_getPartialMatches(x));
        std::string wc = w.first.empty() ? "" : enc_list(w.first), wp = w.second.empty() ? "" : enc_list(w.second);
        CHECK(c, gc.size() <= 16 ? wc.empty() : gc == wc, "%s: complete matches\n %s\nwant\n %s", s.c_str(), hex(gc.data(), gc.size()).c_str(),
              hex(wc.data(), wc.size()).c_str());
        CHECK(c, gp.size() <= 16 ? wp.empty() : gp == wp, "%s: partial matches\n %s\nwant\n %s", s.c_str(), hex(gp.data(), gp.size()).c_str(),
              hex(wp.data(), wp.size()).c_str());
        if (x) {
            CHECK(c, osc_rset_result_getSelector(x) == s, "the result's selector is %s", osc_rset_result_getSelector(x));
            CHECK(c, osc_rset_result_getSelectorLen(x) == (int)s.size(), "the result's selector has length %d", osc_rset_result_getSelectorLen(x));
        }
    }
    CHECK(c, !osc_rset_select(r, (char *)"/not/asked"), "a result for a selector never asked for");
    // iteration visits every result once, again and again
    for (int q = 0; q < 2; q++) {
        std::multiset<std::string> seen;
        osc_rset_initIterator(r);
        if (q == 0 && osc_rset_hasNext(r) && c.s.chance(30)) osc_rset_next(r), osc_rset_initIterator(r);
        while (osc_rset_hasNext(r)) seen.insert(osc_rset_result_getSelector(osc_rset_next(r)));
        CHECK(c, !osc_rset_next(r), "an exhausted iteration gives a result");
        for (auto &s : sel) {
            bool matched = !want[s].first.empty() || !want[s].second.empty();
            CHECK(c, matched ? seen.count(s) == 1 : seen.count(s) <= 1, "the iteration visits %s %zu times", s.c_str(), seen.count(s));
            seen.erase(s);
        }
        CHECK(c, seen.empty(), "the iteration visits %s", seen.begin()->c_str());
    }
    osc_rset_free(r);
}
static void query(Ctx &c) { run(c, false); }
static void large(Ctx &c) { run(c, true); }

namespace pt {
Property property = {
    "P24",
    "sets of 0-16 selectors that are prefixes of one another (with absent ones among them), bundles of up to 20 messages at, above, "
    "below and beside the selectors and with patterns near them, one or two queries into one result set, stripping on and off; the "
    "inputs are overwritten before the results are read; messages of more than 8 MB. Non-trivial: a partial match occurs",
    {{"query", 15000, query}, {"large", 1, large}},
    {"message addresses are well-formed patterns", "selectors are distinct", "the queried bundle is not part of the result set it is queried into"},
    250000, 15000000,
};
}
