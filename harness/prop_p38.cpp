// P38: the byte-wise parser follows the structure of what it is fed, and names the first thing wrong with it
#include "model.hpp"
using namespace pt;

enum Part { HEAD_ID, HEAD_TIME, SIZE, ADDR, ADDR_CURLY, ADDR_SQUARE, ADDR_PAD, TAGS, TAGS_PAD, DATA };
static const char *part_name[] = {"header", "header timetag", "size", "address", "address, in curly braces", "address, in square brackets", "address padding", "type string", "type string padding", "data"};
struct Pos {
    Part part;
    long count; // for address, type string and data: bytes of the message left (bundle) or before (message alone); at the end of the size: the size; else -1
};
struct Spec {
    std::vector<Pos> at;        // one per byte up to the error
    std::vector<uint64_t> err;  // the codes that may be reported for the next byte; empty: all is well
    bool unspecified = false;   // what follows is not described (e.g. a message that ends within its address)
};

static bool supported(char t) { return strchr("cCuUiIhHfdsTFNt.", t) != nullptr && t; }

// one message in bytes [i, end); naked: the count goes up
static bool spec_msg(const std::string &b, size_t i, size_t end, bool naked, Spec &sp) {
    size_t start = i;
    auto put = [&](Part p) { sp.at.push_back({p, naked ? (long)(i - start) : (long)(end - i - 1)}); };
    auto bad = [&](std::initializer_list<uint64_t> e) { sp.err = e; return false; };
    if (i >= end) { sp.unspecified = true; return false; }
    if (b[i] != '/') return bad({OSC_SERIAL_ERROR_NOLEADINGSLASH});
    put(ADDR);
    char br = 0, prev = 0;
    for (i++;; i++) {
        if (i >= end) { sp.unspecified = true; return false; }
        char ch = b[i];
        if (!br) {
            if (!ch) break;
            if (ch == ']') return bad({OSC_SERIAL_ERROR_UNMATCHEDRIGHTSQUAREBRACKET});
            if (ch == '}') return bad({OSC_SERIAL_ERROR_UNMATCHEDRIGHTCURLYBRACE});
            if (ch == '[' || ch == '{') br = ch, prev = 0;
        } else {
            if (!ch) return bad({br == '{' ? OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE : OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET});
            if (ch == '[' || ch == '{' || ch == (br == '{' ? ']' : '}')) return bad({OSC_SERIAL_ERROR_NESTEDBRACKETS});
            if (ch == '*' || ch == '?') return bad({OSC_SERIAL_ERROR_WILDCARDINSIDEBRACKETS});
            if (br == '{' && ch == ',' && prev == ',') return bad({OSC_SERIAL_ERROR_DOUBLECOMMA});
            if (br == '[' && ch == '-' && prev == '-') return bad({OSC_SERIAL_ERROR_DOUBLEDASH});
            prev = ch;
            if (ch == '}' || ch == ']') br = 0;
        }
        put(br == '{' ? ADDR_CURLY : br == '[' ? ADDR_SQUARE : ADDR);
    }
    put(ADDR_PAD);
    for (i++; (i - start) % 4; i++) {
        if (i >= end) { sp.unspecified = true; return false; }
        if (b[i]) return bad({OSC_SERIAL_ERROR_BADALIGNMENT});
        put(ADDR_PAD);
    }
    if (i >= end) { sp.unspecified = true; return false; }
    if (!b[i]) return bad({OSC_SERIAL_ERROR_BADALIGNMENT, OSC_SERIAL_ERROR_NOTYPETAGS});
    if (b[i] != ',') return bad({OSC_SERIAL_ERROR_NOTYPETAGS});
    put(TAGS);
    for (i++;; i++) {
        if (i >= end) { sp.unspecified = true; return false; }
        if (!b[i]) break;
        if (!supported(b[i])) return bad({OSC_SERIAL_ERROR_UNSUPPORTEDTYPETAG});
        put(TAGS);
    }
    put(TAGS_PAD);
    for (i++; (i - start) % 4; i++) {
        if (i >= end) { sp.unspecified = true; return false; }
        if (b[i]) return bad({OSC_SERIAL_ERROR_BADALIGNMENT});
        put(TAGS_PAD);
    }
    for (; i < end; i++) put(DATA);
    return true;
}

static Spec spec_of(const std::string &b) {
    Spec sp;
    if (b.empty()) return sp;
    if (b[0] == '/') {
        spec_msg(b, 0, b.size(), true, sp);
        return sp;
    }
    for (size_t i = 0; i < 8 && i < b.size(); i++) {
        if (b[i] != "#bundle"[i]) {
            sp.err = {OSC_SERIAL_ERROR_BADHEADER};
            return sp;
        }
        sp.at.push_back({HEAD_ID, -1});
    }
    for (size_t i = 8; i < 16 && i < b.size(); i++) sp.at.push_back({HEAD_TIME, -1});
    size_t i = 16;
    while (i < b.size()) {
        if (b.size() - i < 4) { sp.unspecified = true; return sp; }
        if (b[i] & 0x80) {
            sp.err = {OSC_SERIAL_ERROR_NEGATIVESIZE};
            return sp;
        }
        size_t n = (uint8_t)b[i] << 24 | (uint8_t)b[i + 1] << 16 | (uint8_t)b[i + 2] << 8 | (uint8_t)b[i + 3];
        for (int k = 0; k < 4; k++) sp.at.push_back({SIZE, k == 3 ? (long)n : -1});
        i += 4;
        if (n % 4 || !n || n > b.size() - i) { sp.unspecified = true; return sp; }
        if (!spec_msg(b, i, i + n, false, sp)) return sp;
        i += n;
    }
    return sp;
}

static std::string gen_address(Ctx &c) {
    std::string s = "/";
    for (int n = c.s.size(c.s.chance(5) ? 300 : 10); n > 0; n--) {
        switch (c.s.weighted({10, 2, 1, 3, 3})) {
        case 0: s += c.s.pickc("abcxyz019_-,.! "); break;
        case 1: s += '/'; break;
        case 2: s += c.s.pickc("*?"); break;
        case 3: {
            s += '[';
            if (c.s.chance(30)) s += '!';
            for (int k = c.s.size(4); k > 0; k--) {
                if (c.s.chance(40)) s += std::string(1, c.s.pickc("ax0")) + "-" + c.s.pickc("cz9");
                else s += c.s.pickc("abc,!/");
            }
            s += ']';
            break;
        }
        case 4:
            s += '{';
            for (int k = c.s.size(4); k > 0; k--) s += std::string(c.s.below(3), c.s.pickc("abc-/")) + (k > 1 && s.back() != ',' ? "," : "");
            s += '}';
            break;
        }
    }
    return s;
}
static std::string gen_message(Ctx &c, bool &nodata) {
    std::string t = ",", data;
    for (int n = c.s.size(6); n > 0; n--) {
        char x = c.s.pickc("ifdshHIcCuUTFNt.");
        t += x;
        switch (x) {
        case 'T': case 'F': case 'N': break;
        case 'h': case 'H': case 'd': case 't': data += be64(c.s.u64()); break;
        case 's': {
            GenOpt o;
            data += padstr(gen_string(c, o));
            break;
        }
        case '.': {
            GenOpt o;
            std::string b = enc_bundle(gen_bundle(c, o, 1));
            data += be32(b.size()) + b;
            break;
        }
        default: data += be32((uint32_t)c.s.u64());
        }
    }
    // sizes whose bytes matter
    if (c.s.chance(10)) {
        t += 's';
        size_t n = c.s.pick(std::vector<int>{100, 200, 252, 256, 508, 1020, 65000, 65536, 70000, 131072});
        size_t have = data.size();
        std::string s((n > have ? n - have : 4) - 1, 'q');
        data += padstr(s);
    }
    nodata = data.empty();
    return padstr(gen_address(c)) + padstr(t) + data;
}

static Part part_of(uint64_t s, bool &known) {
    uint64_t macro = s & 0xff00000000000000ull, state = s & 0x00ff000000000000ull, micro = s & 0x0000ff0000000000ull;
    known = true;
    if (macro == OSC_SERIAL_BUNDLE_HEADER) return state == OSC_SERIAL_BUNDLE_HEADER_ID ? HEAD_ID : (known = state == OSC_SERIAL_BUNDLE_HEADER_TIMETAG, HEAD_TIME);
    switch (state) {
    case OSC_SERIAL_MESSAGE_SIZE: return SIZE;
    case OSC_SERIAL_MESSAGE_ADDRESS:
        switch (micro) {
        case 0: return ADDR;
        case OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS:
        case OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA: return ADDR_CURLY;
        case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS:
        case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH: return ADDR_SQUARE;
        case OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING: return ADDR_PAD;
        }
        break;
    case OSC_SERIAL_MESSAGE_TYPETAGS: return micro == 0 ? TAGS : (known = micro == OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING, TAGS_PAD);
    case OSC_SERIAL_MESSAGE_DATA: return DATA;
    }
    known = false;
    return DATA;
}

static void feed(Ctx &c, const std::string &b) {
    Spec sp = spec_of(b);
    if (sp.unspecified) c.label("unspecified tail");
    uint64_t s = OSC_SERIAL_INIT;
    bool naked = !b.empty() && b[0] == '/';
    for (size_t i = 0; i < b.size(); i++) {
        s = osc_serial_processByte(b[i], s);
        if (i == sp.at.size()) {
            if (sp.unspecified) return;
            bool ok = false;
            for (uint64_t e : sp.err) ok |= (s & OSC_SERIAL_ERROR_MASK) == e;
            CHECK(c, ok, "byte %zu (%s) is wrong in the way \"%s\", reported is %d \"%s\"", i, show(b.substr(i, 1)).c_str(), osc_serial_errstr(sp.err[0]), (int)((s & OSC_SERIAL_ERROR_MASK) >> 32), osc_serial_errstr(s) ? osc_serial_errstr(s) : "?");
            CHECK(c, osc_serial_errorp(s) && osc_serial_errstr(s) && *osc_serial_errstr(s), "the error has no text");
            return;
        }
        const Pos &p = sp.at[i];
        CHECK(c, !osc_serial_errorp(s), "byte %zu (%s, %s) is reported as \"%s\"", i, show(b.substr(i, 1)).c_str(), part_name[p.part], osc_serial_errstr(s) ? osc_serial_errstr(s) : "?");
        bool known;
        Part got = part_of(s, known);
        uint64_t macro = s & 0xff00000000000000ull, want = i < 16 && !naked ? OSC_SERIAL_BUNDLE_HEADER : naked ? OSC_SERIAL_MESSAGE : OSC_SERIAL_BUNDLE_MESSAGE;
        CHECK(c, macro == want, "byte %zu (%s): macro state %llx instead of %llx", i, part_name[p.part], (unsigned long long)macro, (unsigned long long)want);
        CHECK(c, known && got == p.part, "byte %zu is %s, state 0x%llx", i, part_name[p.part], (unsigned long long)s);
        if (p.count >= 0) CHECK(c, (long)(uint32_t)s == p.count, "byte %zu (%s): the counter is %u instead of %ld", i, part_name[p.part], (unsigned)s, p.count);
    }
}

static std::string gen(Ctx &c, bool &nodata_before_more, int &n) {
    bool nd = false;
    nodata_before_more = false;
    n = 1;
    if (c.s.chance(25)) return gen_message(c, nd);
    std::string b = std::string("#bundle\0", 8) + be64(c.s.u64());
    n = c.s.size(5);
    for (int i = 0; i < n; i++) {
        nodata_before_more |= i && nd;
        std::string m = gen_message(c, nd);
        b += be32(m.size()) + m;
    }
    return b;
}

static void wellformed(Ctx &c) {
    bool nd;
    int n;
    std::string b = gen(c, nd, n);
    c.note("bytes " + show(b.substr(0, 400)));
    c.nontrivial = n > 1;
    if (nd) c.label("message without data, then another");
    Spec sp = spec_of(b);
    CHECK(c, sp.err.empty() && !sp.unspecified, "harness: the generated bytes are not well-formed");
    feed(c, b);
}

static void malformed(Ctx &c) {
    bool nd;
    int n;
    std::string b = gen(c, nd, n);
    if (b.empty()) throw Discard{};
    for (int k = c.s.range(1, 2); k > 0; k--) {
        // most changes in the structure, not in the data
        Spec sp = spec_of(b);
        size_t i = 0;
        for (int t = 0; t < 6; t++) {
            i = c.s.below(b.size());
            if (i >= sp.at.size() || (sp.at[i].part != DATA && sp.at[i].part != SIZE)) break;
        }
        if (c.s.chance(15)) { // the first byte of a size
            std::vector<size_t> f;
            for (size_t j = 16; j < sp.at.size(); j += 4)
                if (sp.at[j].part == SIZE) f.push_back(j);
            if (!f.empty()) i = c.s.pick(f);
        }
        if (sp.at.size() > i && sp.at[i].part == SIZE && sp.at[i].count < 0 && i % 4 == 0) b[i] = (char)(c.s.chance(50) ? 0x80 | c.s.below(128) : c.s.below(128));
        else b[i] = c.s.chance(80) ? "\0/[]{},-*?bxi"[c.s.below(13)] : (char)c.s.below(256);
    }
    c.note("bytes " + show(b.substr(0, 400)));
    Spec sp = spec_of(b);
    c.nontrivial = !sp.err.empty() && sp.at.size() > 0;
    feed(c, b);
}

namespace pt {
Property property = {"P38", "a bundle of two or more messages is fed, or bytes with an error after the first byte",
    {{"wellformed", 1, wellformed}, {"malformed", 1, malformed}},
    {"messages have a type string without blobs, as the parser's list of types says; what happens when a message ends within its address or type string is not specified"},
    80000, 2000000, {}};
}
