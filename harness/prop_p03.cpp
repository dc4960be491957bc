// P03: the bundle sanity check is exact on framing, and stays inside the buffer
#include "model.hpp"
using namespace pt;

static uint32_t rd(const std::string &s, size_t p) {
    return (uint32_t)(uint8_t)s[p] << 24 | (uint32_t)(uint8_t)s[p + 1] << 16 | (uint32_t)(uint8_t)s[p + 2] << 8 | (uint8_t)s[p + 3];
}
// reference: the first defect of the framing
static t_osc_err want_err(const std::string &s) {
    if (s.size() < 16) return OSC_ERR_BUNDLETOOSMALL;
    if (memcmp(s.data(), "#bundle\0", 8)) return OSC_ERR_NOBUNDLEID;
    size_t p = 16;
    while (p < s.size()) {
        size_t left = s.size() - p;
        if (left < 4) return OSC_ERR_MSGTOOLARGE;
        int32_t n = (int32_t)rd(s, p);
        if (n >= 0 && (size_t)n > left - 4) return OSC_ERR_MSGTOOLARGE;
        if (n < 4) return OSC_ERR_MSGTOOSMALL;
        if (s[p + 4] != '/') return OSC_ERR_MALFORMEDADDRESS;
        p += 4 + (size_t)n;
    }
    return OSC_ERR_NONE;
}
static void check(Ctx &c, const std::string &s) {
    Buf b(s);
    t_osc_err want = want_err(s);
    c.note("bytes " + hex(s.data(), s.size()));
    t_osc_err got = osc_error_bundleSanityCheck((int)b.n, b.p);
    CHECK(c, got == want, "sanity check of %ld bytes: error %#lx, want %#lx", b.n, (long)got, (long)want);
    CHECK(c, memcmp(b.p, s.data(), s.size()) == 0, "the check changed the bytes");
    // the accessors that check first agree with it
    int n = -1;
    t_osc_err e = osc_bundle_s_getMsgCount((int)b.n, b.p, &n);
    CHECK(c, e == want, "getMsgCount: error %#lx, want %#lx", (long)e, (long)want);
    if (!want) {
        int k = 0;
        for (size_t p = 16; p < s.size(); p += 4 + rd(s, p)) k++;
        CHECK(c, n == k, "getMsgCount: %d, want %d", n, k);
        c.label("accepted");
    } else {
        CHECK(c, n == 0, "getMsgCount of a rejected buffer: %d", n);
        c.label(want == OSC_ERR_BUNDLETOOSMALL ? "too small" : want == OSC_ERR_NOBUNDLEID ? "no bundle id"
                : want == OSC_ERR_MSGTOOLARGE ? "message too large" : want == OSC_ERR_MSGTOOSMALL ? "message too small" : "bad address");
    }
}
static std::string some_bundle(Ctx &c) {
    GenOpt o;
    o.max_msgs = 4;
    o.max_args = 3;
    o.max_str = 6;
    return enc_bundle(gen_bundle(c, o, 1), c.s.chance(30) ? c.s.u64() : 0);
}
static void put(std::string &s, size_t p, uint32_t v) { s.replace(p, 4, be32(v)); }

static void truncated(Ctx &c) {
    std::string s = some_bundle(c);
    c.nontrivial = s.size() > 20;
    s.resize(s.size() - c.s.below(s.size() + 1));
    check(c, s);
}
static void sizes(Ctx &c) {
    std::string s = some_bundle(c);
    std::vector<size_t> at;
    for (size_t p = 16; p + 4 <= s.size();) {
        at.push_back(p);
        p += 4 + rd(s, p);
    }
    c.nontrivial = !at.empty();
    if (!at.empty()) {
        size_t p = c.s.pick(at);
        uint32_t v = rd(s, p), left = (uint32_t)(s.size() - p - 4);
        switch (c.s.below(9)) {
        case 0: v = left; break;
        case 1: v = left + 1; break;
        case 2: v = left + 4; break;
        case 3: v = (uint32_t)c.s.below(5); break;
        case 4: v = (uint32_t)-(int)(1 + c.s.below(40)); break;
        case 5: v = (uint32_t)gen_int(c, 'I'); break;
        case 6: v = 0x7fffffff - (uint32_t)c.s.below(40); break;
        case 7: v = 0x80000000u + (uint32_t)c.s.below(40); break;
        default: v = v + (uint32_t)c.s.range(-8, 8); break;
        }
        put(s, p, v);
        if (c.s.chance(30)) s += std::string(c.s.below(9), (char)c.s.pickc("/\1"));
    }
    check(c, s);
}
static void flipped(Ctx &c) {
    std::string s = some_bundle(c);
    int n = 1 + c.s.size(3);
    c.nontrivial = true;
    for (int i = 0; i < n; i++) {
        size_t p = c.s.chance(40) ? c.s.below(16) : c.s.below(s.size());
        s[p] = (char)c.s.below(256);
    }
    check(c, s);
}
static void framed(Ctx &c) {
    // hand-made messages of any size, not multiples of four, whose content is not OSC at all
    std::string s("#bundle\0", 8);
    s += be64(c.s.u64());
    int n = c.s.size(4);
    c.nontrivial = n > 0;
    for (int i = 0; i < n; i++) {
        int k = c.s.chance(10) ? c.s.range(0, 3) : c.s.range(4, 14);
        s += be32(k);
        for (int j = 0; j < k; j++) s += j == 0 && !c.s.chance(8) ? '/' : (char)c.s.below(256);
    }
    check(c, s);
}
static void random_bytes(Ctx &c) {
    int n = c.s.size(60);
    std::string s;
    if (c.s.below(2)) s = std::string("#bundle\0", 8);
    for (int i = 0; i < n; i++) s += (char)(c.s.chance(60) ? c.s.below(4) * 4 : c.s.below(256));
    c.nontrivial = s.size() >= 16;
    check(c, s);
}
static void message(Ctx &c) {
    std::string s = be32((uint32_t)(c.s.chance(60) ? c.s.below(12) : gen_int(c, 'I')));
    s += c.s.chance(70) ? '/' : (char)c.s.below(256);
    s += std::string(3, '\0');
    Buf b(s);
    int32_t n = (int32_t)rd(s, 0);
    t_osc_err want = n < 4 ? OSC_ERR_MSGTOOSMALL : s[4] != '/' ? OSC_ERR_MALFORMEDADDRESS : OSC_ERR_NONE, got = osc_error_msgSanityCheck(b.p);
    c.note("message " + hex(s.data(), s.size()));
    c.nontrivial = true;
    CHECK(c, got == want, "message check: %#lx, want %#lx", (long)got, (long)want);
}
static void address(Ctx &c) {
    GenOpt o;
    std::string s = c.s.chance(60) ? gen_addr(c, o) : gen_string(c, o);
    if (c.s.chance(20) && !s.empty()) s[c.s.below(s.size())] = c.s.pickc("# /*");
    c.note("address " + show(s));
    c.nontrivial = s.size() > 1;
    t_osc_err want = s.size() < 2 || s[0] != '/' ? OSC_ERR_MALFORMEDADDRESS
                     : s.find_first_of("# ") != std::string::npos ? OSC_ERR_INVALIDCHARINADDRESS : OSC_ERR_NONE;
    Buf b(s + std::string(1, '\0'));
    t_osc_err got = osc_error_validateAddress(b.p);
    CHECK(c, got == want, "validateAddress(%s): %#lx, want %#lx", show(s).c_str(), (long)got, (long)want);
    CHECK(c, osc_error_validateAddress(NULL) == OSC_ERR_NULLPTR, "validateAddress(NULL)");
    CHECK(c, osc_error_bundleSanityCheck(16, NULL) == OSC_ERR_NOBUNDLE, "sanity check of no buffer");
}

namespace pt {
Property property = {
    "P03",
    "valid bundles cut off at any length, with one size field replaced (zero, one off, to the end, beyond it, negative, "
    "INT_MAX), with bytes flipped, hand-framed messages of sizes that are no multiple of four, and random bytes, each in a heap "
    "buffer of exactly its size under AddressSanitizer; the oracle is an independent framing checker that names the first "
    "defect. Non-trivial: at least one message (or header) is reached",
    {{"truncated", 3, truncated}, {"size fields", 4, sizes}, {"flipped bytes", 2, flipped}, {"hand-framed", 3, framed},
     {"random bytes", 2, random_bytes}, {"message", 1, message}, {"address", 1, address}},
    {"a size field is a signed 32-bit number, as in the header osc_error.h"},
    2500000, 60000000,
};
}
