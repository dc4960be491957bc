// How a message's address (as a pattern) relates to a selector, for dispatch and queries
#pragma once
#include "model.hpp"
#include "pattern.hpp"
struct SMsg { std::string addr, body; }; // a message's bytes without the size
typedef std::vector<SMsg> SList;
inline std::string enc_list(const SList &l, uint64_t tt = 0) {
    std::string r = std::string("#bundle\0", 8) + be64(tt);
    for (auto &m : l) r += be32((uint32_t)m.body.size()) + m.body;
    return r;
}
// 0 none, 1 complete, 2 partial (stripped: what is left when stripping)
inline int classify(const SMsg &m, const std::string &selector, bool strip, SMsg &out) {
    std::vector<PSeg> p;
    out = m;
    if (!parse_pattern(m.addr, p)) return 0;
    MatchRes r = ref_match(p, selector, &m.addr);
    if (r.r == 3) return 1;
    if (r.r != 1) return 0;
    std::string rest = m.addr.substr(r.po);
    if (strip && rest.size() >= 2 && rest.find_first_of("# ") == std::string::npos) {
        out.addr = rest;
        out.body = padstr(rest) + m.body.substr(padstr(m.addr).size());
    }
    return 2;
}
// give the message a value of n bytes
inline void fatten(SMsg &m, size_t n) {
    n -= n % 4;
    m.body = padstr(m.addr) + std::string(",b\0\0", 4) + be32((uint32_t)n) + std::string(n, '\x5A');
}
inline SList gen_list(pt::Ctx &c, const std::vector<std::string> &sel, const char *ch, int max) {
    GenOpt o;
    o.max_args = 2;
    o.depth = 1;
    o.max_msgs = 1;
    o.max_str = 5;
    o.types = "iidsTb.Nth";
    SList l;
    int n = c.s.size(max);
    for (int i = 0; i < n; i++) {
        MMsg m = gen_msg(c, o, 1);
        std::string a = sel.empty() ? "/a" : c.s.pick(sel);
        int k = c.s.weighted({4, 3, 2, 2, 3, 2, 1, 1});
        if (k == 1) a += std::string("/") + c.s.pickc(ch);
        else if (k == 2) a += std::string(1, c.s.pickc(ch));
        else if (k == 3 && a.rfind('/') > 0) a = a.substr(0, a.rfind('/'));
        else if (k == 4) { // a pattern near a selector
            std::string r;
            for (auto &s : split_addr(a)) r += "/" + (c.s.below(2) ? s : render(gen_pseg(c, ch)));
            a = r;
        } else if (k == 5) a += "/*";
        else if (k == 7) { // a pattern for every selector of as many segments
            size_t n = split_addr(a).size();
            for (a = ""; n; n--) a += "/*";
        } else if (k == 6) a += "/" + render(gen_pseg(c, ch));
        if (c.s.chance(3)) a += "/";
        m.addr = a;
        l.push_back({a, enc_msg(m)});
    }
    return l;
}
inline std::vector<std::string> gen_selectors(pt::Ctx &c, const char *ch, int max) {
    std::vector<std::string> r;
    int n = c.s.size(max);
    std::string pre;
    if (c.s.chance(6)) { // all of them long
        pre = "/";
        for (int k = c.s.range(20, 60); k > 0; k--) pre += c.s.pickc(ch);
    }
    for (int i = 0; i < n; i++) {
        std::string a = pre;
        if (!r.empty() && c.s.chance(50)) a = c.s.pick(r) + "/" + c.s.pickc(ch);
        else {
            int k = 1 + c.s.size(2);
            while (k--) a += std::string("/") + c.s.pickc(ch) + (c.s.chance(30) ? std::string(1, c.s.pickc(ch)) : "");
        }
        if (c.s.chance(4)) a += "/*";
        bool dup = false;
        for (auto &x : r) dup |= x == a;
        if (!dup) r.push_back(a);
    }
    return r;
}
inline std::string names(const SList &l) {
    std::string r;
    for (auto &m : l) r += pt::show(m.addr) + " ";
    return r;
}
