// reference conversion table between value types
#pragma once
#include "fmt.hpp"
namespace conv {
using namespace pt;
static inline bool isint(char t) { return strchr("icCuUhHI", t) != nullptr; }
static inline uint64_t blob_be(const std::string &s, size_t n) {
    uint64_t r = 0;
    for (size_t i = 0; i < n; i++) r = r << 8 | (uint8_t)s[i];
    return r;
}
// an integer of `w` bits read from the value; false when the conversion is not defined (a float out of range)
static inline bool ref_int(const MAtom &a, int w, bool sgn, int64_t &out) {
    double d = 0;
    int64_t v = 0;
    switch (a.tt) {
    case 'f':
    case 'd': {
        d = a.tt == 'f' ? (double)a.f : a.d;
        // what every caller can rely on: the value fits the type read
        double lo = sgn ? -ldexp(1, w - 1) : 0, hi = ldexp(1, sgn ? w - 1 : w);
        if (!(trunc(d) >= lo && trunc(d) < hi)) return false;
        v = w == 64 && !sgn ? (int64_t)(uint64_t)d : (int64_t)d;
        break;
    }
    case 's':
        if (w == 8) v = a.s.empty() ? 0 : (int64_t)a.s[0];
        else if (w <= 32) v = sgn ? (int64_t)strtol(a.s.c_str(), nullptr, 10) : (int64_t)strtoul(a.s.c_str(), nullptr, 10);
        else v = sgn ? (int64_t)strtoll(a.s.c_str(), nullptr, 10) : (int64_t)strtoull(a.s.c_str(), nullptr, 10);
        break;
    case 'T': v = 1; break;
    case 'F':
    case 'N':
    case 't': v = 0; break;
    case 'b':
        if (a.s.size() != (w == 64 ? 8u : 4u)) v = 0;
        else v = (int64_t)blob_be(a.s, w / 8);
        break;
    default: v = a.i;
    }
    switch (w) {
    case 8: out = sgn ? (int64_t)(int8_t)v : (int64_t)(uint8_t)v; break;
    case 16: out = sgn ? (int64_t)(int16_t)v : (int64_t)(uint16_t)v; break;
    case 32: out = sgn ? (int64_t)(int32_t)v : (int64_t)(uint32_t)v; break;
    default: out = v;
    }
    return true;
}
static inline double ref_double(const MAtom &a, bool flt) {
    switch (a.tt) {
    case 'f': return a.f;
    case 'd': return a.d;
    case 's': return flt ? (double)strtof(a.s.c_str(), nullptr) : strtod(a.s.c_str(), nullptr);
    case 'T': return 1;
    case 'F':
    case 'N': return 0;
    case 't': return (double)a.sec + (double)a.frac / 4294967295.0;
    case 'b':
        if (flt && a.s.size() == 4) {
            uint32_t x = (uint32_t)blob_be(a.s, 4);
            float f;
            memcpy(&f, &x, 4);
            return f;
        }
        if (!flt && a.s.size() == 8) {
            uint64_t x = blob_be(a.s, 8);
            double d;
            memcpy(&d, &x, 8);
            return d;
        }
        return 0;
    case 'H': return flt ? (double)(float)(uint64_t)a.i : (double)(uint64_t)a.i;
    default: return flt ? (double)(float)a.i : (double)a.i;
    }
}
static inline int ref_bool(const MAtom &a) {
    if (isint(a.tt)) return a.i != 0;
    if (a.tt == 'f') return a.f != 0;
    if (a.tt == 'd') return a.d != 0;
    return a.tt == 'T';
}
// a value of any type but a bundle, with weight on numeric strings, short blobs and numbers near the limits of the integer types
static inline MAtom gen_value(Ctx &c) {
    GenOpt o;
    char t = c.s.pickc("ifdshHIcCuUTFNtb");
    MAtom a = gen_atom(c, o, 0, t);
    if (t == 's' && c.s.chance(70)) {
        // numeric-looking strings
        switch (c.s.below(6)) {
        case 5: a.s = c.s.pick(std::vector<const char *>{"1.000000178813934326171874999", "16777217.0000000001", "0.1", "1e39", "-1e-46", "inf", "nan"}); break;
        case 0: a.s = strf("%lld", (long long)gen_int(c, 'h')); break;
        case 1: a.s = strf("%llu", (unsigned long long)gen_int(c, 'H')); break;
        case 2: a.s = strf("%g", gen_double(c, true)); break;
        case 3: a.s = strf("  %+d.%ux", (int)gen_int(c, 'u'), (unsigned)c.s.below(1000)); break;
        default: a.s = strf("0x%xz", (unsigned)gen_int(c, 'I')); break;
        }
    }
    if (t == 'b' && c.s.chance(70)) {
        size_t n = c.s.pick(std::vector<int>{4, 8, 3, 5, 2});
        a.s.clear();
        for (size_t i = 0; i < n; i++) a.s += (char)c.s.below(256);
    }
    if ((t == 'd' || t == 'f') && c.s.chance(50)) {
        // near the ends of the integer types
        double e[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647., 2147483648., 4294967295., 4294967296., 9223372036854775808., 18446744073709551616.};
        double x = e[c.s.below(14)] + (c.s.range(-4, 4)) * 0.25;
        if (c.s.below(2)) x = -x;
        a.d = x;
        a.f = (float)x;
    }
    return a;
}
} // namespace conv
