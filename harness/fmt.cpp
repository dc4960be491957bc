#include "fmt.hpp"
using pt::strf;

std::string fmt_double(double d) {
    if (d - floor(d) == 0 && d < 1000000. && d > -1000000.) return strf("%g.", d);
    return strf("%g", d);
}
std::string fmt_quoted(const std::string &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        r += c;
    }
    return r + "\"";
}
// the civil calendar by counting whole 400-year cycles (an algorithm unlike the library's year-by-year walk)
void civil_from_days(int64_t n, int &y, int &m, int &d) {
    int64_t z = n + 693901 - 0; // days since 0000-03-01
    int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp = (5 * doy + 2) / 153;
    d = (int)(doy - (153 * mp + 2) / 5 + 1);
    m = mp < 10 ? (int)mp + 3 : (int)mp - 9;
    y = (int)(yoe + era * 400) + (m <= 2);
}
int64_t days_from_civil(int y, int m, int d) {
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 693901;
}
std::string fmt_time(uint32_t sec, uint32_t frac) {
    int y, m, d;
    civil_from_days(sec / 86400, y, m, d);
    uint32_t r = sec % 86400;
    uint32_t us = (uint32_t)((double)frac / 4294967295.0 * 1000000. + .5);
    if (us > 999999) us = 999999;
    return strf("%04d-%02d-%02dT%02u:%02u:%02u.%06uZ", y, m, d, r / 3600, r / 60 % 60, r % 60, us);
}
std::string fmt_value(const MAtom &a) {
    switch (a.tt) {
    case 'i':
    case 'u':
    case 'h': return strf("%lld", (long long)a.i);
    case 'I':
    case 'U':
    case 'H': return strf("%llu", (unsigned long long)a.i);
    case 'c':
    case 'C': return std::string("'") + (char)a.i + "'";
    case 'f': return fmt_double(a.f);
    case 'd': return fmt_double(a.d);
    case 's': return a.s;
    case 'T': return "true";
    case 'F': return "false";
    case 'N': return "nil";
    case 't': return fmt_time(a.sec, a.frac);
    case 'b': {
        std::string r = "blob(";
        for (size_t i = 0; i < a.s.size(); i++) r += strf(i ? ", %d" : "%d", (int)(signed char)a.s[i]);
        return r + ")";
    }
    }
    return "";
}
std::string fmt_atom(const MAtom &a, int indent) {
    if (a.tt == 's') return fmt_quoted(a.s);
    if (a.tt == '.') return "{\n" + fmt_bundle(a.b, indent + 1) + "\n" + std::string(2 * indent, ' ') + "}";
    return fmt_value(a);
}
std::string fmt_msg(const MMsg &m, int indent) {
    std::string r = std::string(2 * indent, ' ') + m.addr;
    if (m.args.empty()) return r;
    r += " : ";
    if (m.args.size() > 1) r += "[";
    for (size_t i = 0; i < m.args.size(); i++) r += (i ? ", " : "") + fmt_atom(m.args[i], indent);
    if (m.args.size() > 1) r += "]";
    return r;
}
std::string fmt_bundle(const MBundle &b, int indent) {
    std::string r;
    for (size_t i = 0; i < b.size(); i++) r += (i ? ",\n" : "") + fmt_msg(b[i], indent);
    return r;
}
