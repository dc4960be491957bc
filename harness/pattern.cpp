#include "pattern.hpp"
#include <set>
#include <cstring>
std::string render(const PSeg &s) {
    std::string r;
    for (auto &t : s) switch (t.k) {
    case PTok::LIT: r += t.c; break;
    case PTok::ANY: r += '?'; break;
    case PTok::STAR: r += '*'; break;
    case PTok::SET:
        r += t.neg ? "[!" : "[";
        for (auto &i : t.items) {
            r += i.first;
            if (i.second != i.first) r += std::string("-") + i.second;
        }
        r += "]";
        break;
    case PTok::ALT:
        r += "{";
        for (size_t i = 0; i < t.alts.size(); i++) r += (i ? "," : "") + t.alts[i];
        r += "}";
    }
    return r;
}
std::string render(const std::vector<PSeg> &p) {
    std::string r;
    for (auto &s : p) r += "/" + render(s);
    return r;
}
static bool in_set(const PTok &t, char c) {
    bool in = false;
    for (auto &i : t.items) in |= (i.first <= c && c <= i.second) || (i.second <= c && c <= i.first);
    return in != t.neg;
}
// set of positions reachable after each token: no backtracking at all
bool seg_match(const PSeg &p, const std::string &s) {
    if (s == "*") return true; // a star in the address stands for any segment
    std::set<size_t> at{0};
    for (auto &t : p) {
        std::set<size_t> n;
        for (size_t i : at) switch (t.k) {
        case PTok::LIT: if (i < s.size() && s[i] == t.c) n.insert(i + 1); break;
        case PTok::ANY: if (i < s.size()) n.insert(i + 1); break;
        case PTok::SET: if (i < s.size() && in_set(t, s[i])) n.insert(i + 1); break;
        case PTok::STAR: if (i == *at.begin()) for (size_t j = i; j <= s.size(); j++) n.insert(n.end(), j); break;
        case PTok::ALT: for (auto &a : t.alts) if (s.compare(i, a.size(), a) == 0) n.insert(i + a.size()); break;
        }
        at = n;
    }
    return at.count(s.size()) > 0;
}
std::vector<std::string> split_addr(const std::string &a) {
    std::vector<std::string> r;
    size_t p = 1;
    while (true) {
        size_t e = a.find('/', p);
        r.push_back(a.substr(p, e == std::string::npos ? std::string::npos : e - p));
        if (e == std::string::npos) return r;
        p = e + 1;
    }
}
PSeg lit_seg(const std::string &s) {
    PSeg r;
    for (char ch : s) {
        PTok t;
        t.c = ch;
        r.push_back(t);
    }
    return r;
}
MatchRes ref_match(const std::vector<PSeg> &pat, const std::string &addr, const std::string *text) {
    std::vector<std::string> segs;
    if (text) segs = split_addr(*text);
    std::vector<std::string> a = split_addr(addr);
    size_t po = 0, ao = 0;
    for (size_t i = 0;; i++) {
        if (i == pat.size() || i == a.size()) {
            int r = (i == pat.size() ? 2 : 0) | (i == a.size() ? 1 : 0);
            return {r, (int)po, (int)ao};
        }
        if (!seg_match(pat[i], a[i])) return {0, 0, 0};
        po += 1 + (text ? segs[i].size() : render(pat[i]).size());
        ao += 1 + a[i].size();
    }
}
MatchRes ref_match_plain(const std::string &pat, const std::string &addr) {
    std::vector<PSeg> p;
    for (auto &s : split_addr(pat)) p.push_back(lit_seg(s));
    return ref_match(p, addr);
}
// a character that means itself inside a set or an alternative
static char inner(pt::Ctx &c, const char *chars) {
    char ch = c.s.pickc(chars);
    return strchr("-!,", ch) ? 'a' : ch;
}
PSeg gen_pseg(pt::Ctx &c, const char *chars) {
    PSeg s;
    int n = c.s.size(c.s.chance(15) ? 9 : 5), stars = 0;
    for (int i = 0; i < n; i++) {
        PTok t;
        switch (c.s.weighted({10, 3, 4, 4, 3})) {
        case 0: t.c = c.s.pickc(chars); break;
        case 1: t.k = PTok::ANY; break;
        case 2:
            if (++stars > 4) t.c = c.s.pickc(chars);
            else t.k = PTok::STAR;
            break;
        case 3: {
            t.k = PTok::SET;
            t.neg = c.s.chance(35);
            int k = 1 + c.s.size(3);
            for (int j = 0; j < k; j++) {
                char a = inner(c, chars), b = c.s.chance(45) ? inner(c, chars) : a;
                t.items.push_back({a, b});
            }
            // ']' first is an ordinary character; '-' last or first is one, too
            if (c.s.chance(8)) t.items.insert(t.items.begin(), {']', ']'});
            else if (c.s.chance(8)) t.items.push_back({'-', '-'});
            else if (c.s.chance(8)) t.items.insert(t.items.begin(), {'-', '-'});
            break;
        }
        case 4: {
            t.k = PTok::ALT;
            int k = 1 + c.s.size(3);
            for (int j = 0; j < k; j++) {
                std::string a;
                int l = 1 + c.s.size(3);
                for (int q = 0; q < l; q++) a += inner(c, chars);
                t.alts.push_back(a);
            }
            // alternatives that are prefixes of one another need backtracking
            if (c.s.chance(40)) t.alts.push_back(t.alts[0] + inner(c, chars));
            if (c.s.chance(40)) t.alts.insert(t.alts.begin(), t.alts[0].substr(0, 1));
            break;
        }
        }
        s.push_back(t);
    }
    return s;
}
std::string gen_instance(pt::Ctx &c, const PSeg &p, const char *chars) {
    std::string r;
    for (auto &t : p) switch (t.k) {
    case PTok::LIT: r += t.c; break;
    case PTok::ANY: r += c.s.pickc(chars); break;
    case PTok::STAR: {
        int n = c.s.size(4);
        for (int i = 0; i < n; i++) r += c.s.pickc(chars);
        break;
    }
    case PTok::SET: {
        char ch = 0;
        for (int i = 0; i < 12; i++) {
            ch = t.neg ? c.s.pickc(chars) : c.s.below(3) ? t.items[c.s.below(t.items.size())].first : c.s.pickc(chars);
            if (in_set(t, ch)) break;
        }
        r += ch;
        break;
    }
    case PTok::ALT: r += c.s.pick(t.alts); break;
    }
    return r;
}
bool parse_pattern(const std::string &s, std::vector<PSeg> &out) {
    out.clear();
    if (s.empty() || s[0] != '/') return false;
    for (auto &seg : split_addr(s)) {
        PSeg ps;
        for (size_t i = 0; i < seg.size(); i++) {
            PTok t;
            switch (seg[i]) {
            case '?': t.k = PTok::ANY; break;
            case '*': t.k = PTok::STAR; break;
            case ']':
            case '}': return false;
            case '[': {
                t.k = PTok::SET;
                i++;
                if (i < seg.size() && seg[i] == '!') t.neg = true, i++;
                bool first = true;
                for (;; first = false) {
                    if (i >= seg.size()) return false;
                    char a = seg[i];
                    if (a == ']' && !first) break;
                    i++;
                    if (!(first && a == ']') && i + 1 < seg.size() && seg[i] == '-' && seg[i + 1] != ']') {
                        t.items.push_back({a, seg[i + 1]});
                        i += 2;
                    } else t.items.push_back({a, a});
                }
                break;
            }
            case '{': {
                t.k = PTok::ALT;
                size_t e = seg.find('}', i);
                if (e == std::string::npos) return false;
                std::string in = seg.substr(i + 1, e - i - 1), cur;
                for (char ch : in + ",")
                    if (ch == ',') t.alts.push_back(cur), cur.clear();
                    else cur += ch;
                i = e;
                break;
            }
            default: t.c = seg[i];
            }
            ps.push_back(t);
        }
        out.push_back(ps);
    }
    return true;
}
