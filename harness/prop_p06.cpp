// P06: address pattern matching
// uses: pattern.cpp
#include "model.hpp"
#include "pattern.hpp"
using namespace pt;

static MatchRes lib(const std::string &p, const std::string &a) {
    Buf bp(p + std::string(1, '\0')), ba(a + std::string(1, '\0'));
    MatchRes m{0, -7, -7};
    m.r = osc_match(bp.p, ba.p, &m.po, &m.ao);
    return m;
}
static void compare(Ctx &c, const std::vector<PSeg> &pat, const std::string &addr) {
    std::string p = render(pat);
    c.note("pattern " + show(p) + " address " + show(addr));
    MatchRes w = ref_match(pat, addr), g = lib(p, addr);
    CHECK(c, g.r == w.r, "osc_match(%s, %s) = %#x, want %d", show(p).c_str(), show(addr).c_str(), g.r, w.r);
    CHECK(c, g.po == w.po && g.ao == w.ao, "osc_match(%s, %s) = %d with offsets %d, %d, want %d, %d", show(p).c_str(), show(addr).c_str(), g.r, g.po,
          g.ao, w.po, w.ao);
    c.label(w.r == 3 ? "complete" : w.r == 2 ? "pattern complete" : w.r == 1 ? "address complete" : "no match");
    bool wild = false;
    for (auto &s : pat) for (auto &t : s) wild |= t.k != PTok::LIT;
    c.nontrivial = wild && pat.size() + addr.size() > 4;
}
static const char *CH[] = {"ab", "abc", "abcdefgh0123", "abcXYZ019_.!-,:;^~"};

static void near(Ctx &c) {
    const char *ch = CH[c.s.below(4)];
    std::vector<PSeg> pat;
    int n = 1 + c.s.size(3);
    for (int i = 0; i < n; i++) pat.push_back(gen_pseg(c, ch));
    std::string addr;
    int m = c.s.chance(30) ? c.s.range(1, 4) : n;
    for (int i = 0; i < m; i++) addr += "/" + gen_instance(c, pat[i < n ? i : c.s.below(n)], ch);
    int e = c.s.chance(50) ? 1 + c.s.size(2) : 0;
    for (int i = 0; i < e; i++) {
        size_t at = 1 + c.s.below(addr.size());
        switch (c.s.below(4)) {
        case 0: if (at < addr.size()) addr[at] = c.s.pickc(ch); break;
        case 1: if (at < addr.size()) addr.erase(at, 1); break;
        case 2: addr.insert(at, 1, c.s.pickc(ch)); break;
        default: addr.insert(at, 1, '/');
        }
    }
    compare(c, pat, addr);
}
static void star_in_address(Ctx &c) {
    const char *ch = CH[c.s.below(3)];
    std::vector<PSeg> pat;
    int n = 1 + c.s.size(3);
    for (int i = 0; i < n; i++) pat.push_back(gen_pseg(c, ch));
    std::string addr;
    int m = c.s.range(1, 4);
    for (int i = 0; i < m; i++) {
        addr += "/";
        switch (c.s.below(4)) {
        case 0:
        case 1: addr += "*"; break;
        case 2: addr += gen_instance(c, pat[i < n ? i : 0], ch); break;
        default: addr += std::string("*") + c.s.pickc(ch);
        }
    }
    compare(c, pat, addr);
    c.nontrivial = true;
}
static void plain(Ctx &c) {
    GenOpt o;
    o.seg_chars = c.s.below(2) ? "ab" : nullptr;
    std::string p = gen_addr(c, o), a = c.s.chance(70) ? p : gen_addr(c, o);
    if (c.s.chance(50)) a += gen_addr(c, o);
    if (c.s.chance(30)) p += gen_addr(c, o);
    if (c.s.chance(20)) a += "/";
    if (c.s.chance(20)) p += "/";
    std::vector<PSeg> pat;
    for (auto &s : split_addr(p)) pat.push_back(lit_seg(s));
    compare(c, pat, a);
    c.nontrivial = true;
}
static void many_stars(Ctx &c) {
    // long runs with several stars: full backtracking inside one segment
    const char *ch = "ab";
    PSeg s;
    int k = 1 + c.s.size(3);
    for (int i = 0; i <= k; i++) {
        int l = c.s.size(3);
        for (int j = 0; j < l; j++) {
            PTok t;
            t.c = c.s.pickc(ch);
            s.push_back(t);
        }
        if (i < k) {
            PTok t;
            t.k = PTok::STAR;
            int rep = c.s.chance(20) ? 2 : 1;
            while (rep--) s.push_back(t);
        }
    }
    std::string a = "/";
    int n = c.s.size(30);
    for (int i = 0; i < n; i++) a += c.s.pickc(ch);
    compare(c, {s}, a);
}
// long addresses: stars that reach far, up to the limit of open alternatives
static void far(Ctx &c) {
    std::vector<PSeg> pat;
    std::string a;
    int nseg = 1 + c.s.size(4);
    for (int q = 0; q < nseg; q++) {
        int stars = (int)c.s.below(4);
        int len = stars == 0 ? (int)c.s.below(4000) : 1 + (int)c.s.below(stars == 1 ? 900 : stars == 2 ? 400 : 80);
        std::string seg;
        const char *ch = c.s.chance(50) ? "ab" : "a";
        uint64_t r = 0;
        for (int i = 0; i < len; i++) {
            if (i % 32 == 0) r = c.s.u64();
            seg += ch[(r >> (i % 32)) & (ch[1] != 0)];
        }
        if (c.s.chance(50) && len) seg[c.s.below(len)] = 'c';
        if (seg.empty()) seg = "a";
        PSeg s;
        size_t at = 0;
        for (int k = 0; k <= stars; k++) {
            // a piece of the segment, found as it is between stars that stand for what is between
            size_t left = seg.size() - at;
            size_t l = stars == 0 ? left : k == stars ? std::min<size_t>(left, c.s.below(8)) : std::min<size_t>(left, c.s.below(3) ? c.s.below(6) : c.s.below(left + 1));
            if (k == stars) at = seg.size() - l;
            for (size_t i = 0; i < l; i++) {
                PTok t;
                if (c.s.below(64) == 0) t.k = PTok::ANY;
                else t.c = seg[at + i];
                s.push_back(t);
            }
            at += l;
            if (k < stars) {
                PTok t;
                t.k = PTok::STAR;
                s.push_back(t);
                at += c.s.below(seg.size() - at + 1);
            }
        }
        if (!s.empty() && c.s.chance(10)) s.pop_back();
        if (s.empty()) {
            PTok t;
            t.k = PTok::STAR;
            s.push_back(t);
        }
        pat.push_back(s);
        a += "/" + seg;
    }
    if (c.s.chance(10)) a += "/b";
    compare(c, pat, a);
    c.nontrivial = a.size() > 200;
}
static void malformed(Ctx &c) {
    const char *ch = CH[c.s.below(4)];
    std::vector<PSeg> pat;
    int n = 1 + c.s.size(2);
    for (int i = 0; i < n; i++) pat.push_back(gen_pseg(c, ch));
    std::string p = render(pat), a;
    for (int i = 0; i < n; i++) a += "/" + gen_instance(c, pat[i], ch);
    int e = 1 + c.s.size(3);
    for (int i = 0; i < e; i++) {
        size_t at = c.s.below(p.size() + 1);
        switch (c.s.below(3)) {
        case 0: p.insert(at, 1, c.s.pickc("[]{}*?!,-/")); break;
        case 1: if (at < p.size()) p.erase(at, 1); break;
        default: if (at < p.size()) p[at] = c.s.pickc("[]{}*?!,-/");
        }
    }
    if (c.s.chance(10)) a.erase(0, 1);
    // an empty alternative has no agreed meaning
    c.note("pattern " + show(p) + " address " + show(a));
    MatchRes g = lib(p, a);
    if (p.empty() || p[0] != '/') {
        CHECK(c, g.r == OSC_MATCH_ERROR_PATTERN_NO_LEADING_SLASH && !g.po && !g.ao, "pattern without a slash: %#x", g.r);
        return;
    }
    if (a.empty() || a[0] != '/') {
        CHECK(c, g.r == OSC_MATCH_ERROR_ADDRESS_NO_LEADING_SLASH && !g.po && !g.ao, "address without a slash: %#x", g.r);
        return;
    }
    std::vector<PSeg> q;
    bool ok = parse_pattern(p, q);
    bool empty_alt = false;
    for (auto &s : q) for (auto &t : s) for (auto &x : t.alts) empty_alt |= x.empty();
    CHECK(c, (g.r >= 0 && g.r <= 3) || (g.r >= 0x100 && g.r <= 0x800 && g.r % 0x100 == 0), "osc_match = %#x", g.r);
    if (g.r >= 0x100) CHECK(c, osc_match_errstr(g.r) != nullptr, "no text for error %#x", g.r);
    if (g.r == 0 || g.r >= 0x100) CHECK(c, g.po == 0 && g.ao == 0, "failure %#x with offsets %d, %d", g.r, g.po, g.ao);
    CHECK(c, g.po >= 0 && g.po <= (int)p.size() && g.ao >= 0 && g.ao <= (int)a.size(), "offsets %d, %d", g.po, g.ao);
    if (!ok) {
        c.nontrivial = true;
        c.label("malformed");
        CHECK(c, g.r != 3 && g.r != 2, "malformed pattern %s is matched completely (%d) against %s", show(p).c_str(), g.r, show(a).c_str());
    } else if (!empty_alt) {
        c.nontrivial = true;
        c.label("re-parsed");
        MatchRes w = ref_match(q, a, &p);
        CHECK(c, g.r == w.r && g.po == w.po && g.ao == w.ao, "osc_match(%s, %s) = %#x %d %d, want %d %d %d", show(p).c_str(), show(a).c_str(), g.r, g.po, g.ao,
              w.r, w.po, w.ao);
    }
}

namespace pt {
Property property = {
    "P06",
    "patterns from the whole grammar ('?', '*', sets with ranges in either order and negation, alternatives with shared "
    "prefixes, 1-4 segments) against instances of them with 0-3 edits; whole-segment stars in addresses; plain addresses and "
    "prefixes; up to five stars over 30 characters and up to three over hundreds; segments of thousands of characters; malformed and mutated patterns. The oracle runs the set of reachable "
    "positions over the pattern's tokens, segment by segment. Non-trivial: a wildcard takes part, or the pattern is malformed",
    {{"near", 600, near}, {"star in address", 100, star_in_address}, {"plain", 200, plain}, {"many stars", 200, many_stars}, {"malformed", 300, malformed}, {"far", 2, far}},
    {"characters of sets are 7-bit", "empty alternatives in braces have no agreed meaning and are not generated",
     "fewer than 1000 open alternatives (OSC_MATCH_BACKTRACK_LIMIT)"},
    1500000, 60000000,
};
}
