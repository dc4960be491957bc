// P14: text formatting agrees with its announced size, with both representations and with the documented layout
// uses: fmt.cpp
#include "fmt.hpp"
using namespace pt;

static GenOpt opts(Ctx &c) {
    GenOpt o;
    o.types = c.s.chance(60) ? "ifdshHIcCuUTFNtb." : "isdfT.";
    o.max_str = c.s.chance(15) ? 60 : 10;
    o.max_args = c.s.chance(10) ? 20 : 4;
    o.max_msgs = 4;
    static const int depths[] = {0, 1, 2, 4};
    o.depth = depths[c.s.weighted({2, 4, 3, 1})];
    if (o.depth == 4) o.max_msgs = 2, o.max_args = 2;
    if (c.s.chance(10)) o.max_blob = 40;
    return o;
}
// a character argument of value 0 would end the text: keep them printable, and strings free of none but NUL
static void no_nul(MBundle &b) {
    for (auto &m : b)
        for (auto &a : m.args) {
            if ((a.tt == 'c' || a.tt == 'C') && (a.i & 255) == 0) a.i = 'x';
            if (a.tt == '.') no_nul(a.b);
        }
}
static int nest(const MBundle &b) {
    int d = 0;
    for (auto &m : b)
        for (auto &a : m.args)
            if (a.tt == '.') d = std::max(d, 1 + nest(a.b));
    return d;
}
template <class F> static void buffer(Ctx &c, const char *what, const std::string &want, F f) {
    // a buffer of exactly the announced size plus the terminator, or a little more, on the heap
    long extra = c.s.below(4);
    long n = (long)want.size() + 1 + extra;
    std::unique_ptr<char[]> raw(new char[n]);
    memset(raw.get(), 0x5a, n);
    long r = f(raw.get(), n);
    CHECK(c, r == (long)want.size(), "%s into a buffer says %ld bytes, want %zu", what, r, want.size());
    CHECK(c, memchr(raw.get(), 0, n) == raw.get() + want.size(), "%s wrote no terminator at %zu", what, want.size());
    CHECK(c, want == raw.get(), "%s wrote\n%s\nwant\n%s", what, raw.get(), want.c_str());
    for (long i = want.size() + 1; i < n; i++) CHECK(c, raw[i] == 0x5a, "%s wrote beyond the terminator", what);
    if (!c.s.chance(30)) return;
    // a smaller one: as much of the text as fits
    n = c.s.range(0, (long)want.size());
    raw.reset(new char[n]);
    memset(raw.get(), 0x5a, n);
    r = f(raw.get(), n);
    // it may stop once the buffer is full, but must not claim more than there is, or that it fits
    CHECK(c, r >= n && r <= (long)want.size(), "%s into %ld bytes says %ld bytes, want %zu", what, n, r, want.size());
    c.label("too small a buffer");
    if (n) CHECK(c, std::string(raw.get(), n) == want.substr(0, n - 1) + std::string(1, '\0'), "%s wrote into %ld bytes\n%s\nwant\n%s", what, n, show(std::string(raw.get(), n)).c_str(), want.substr(0, n - 1).c_str());
}
static void text(Ctx &c, const char *what, char *got, const std::string &want) {
    CHECK(c, got != nullptr, "%s gives nothing", what);
    CHECK(c, want == got, "%s gives\n%s\nwant\n%s", what, got, want.c_str());
    osc_mem_free(got);
}
static void bundles(Ctx &c) {
    GenOpt o = opts(c);
    MBundle b = gen_bundle(c, o);
    no_nul(b);
    t_osc_bndl_u *u = c.s.chance(20) ? come_by_bundle(c, b) : build_bundle(b);
    std::string want = fmt_bundle(b);
    c.note(want);
    int depth = nest(b);
    c.nontrivial = b.size() >= 2 && want.size() >= 20;
    if (depth >= 2) c.label("nested twice");
    std::string w = enc_bundle(b, c.s.u64());
    Buf in(w);
    CHECK(c, osc_bundle_s_getFormattedSize(in.n, in.p) == (long)want.size(), "announced size %ld of serialised bundle, want %zu:\n%s",
          osc_bundle_s_getFormattedSize(in.n, in.p), want.size(), want.c_str());
    CHECK(c, osc_bundle_u_getFormattedSize(u) == (long)want.size(), "announced size %ld of in-memory bundle, want %zu:\n%s",
          osc_bundle_u_getFormattedSize(u), want.size(), want.c_str());
    int indent = c.s.chance(70) ? 0 : (int)c.s.below(4);
    std::string windent = fmt_bundle(b, indent);
    CHECK(c, osc_bundle_s_nformat(nullptr, 0, in.n, in.p, indent) == (long)windent.size(), "indented size");
    CHECK(c, osc_bundle_u_nformat(nullptr, 0, u, indent) == (long)windent.size(), "indented size in memory");
    buffer(c, "serialised bundle", windent, [&](char *p, long n) { return osc_bundle_s_nformat(p, n, in.n, in.p, indent); });
    buffer(c, "in-memory bundle", windent, [&](char *p, long n) { return osc_bundle_u_nformat(p, n, u, indent); });
    text(c, "formatting the serialised bundle", osc_bundle_s_format(in.n, in.p), want);
    text(c, "formatting the in-memory bundle", osc_bundle_u_format(u), want);
    t_osc_bndl_s *bs = osc_bundle_s_alloc(in.n, in.p);
    text(c, "formatting by pointer", osc_bundle_s_pformat(bs), want);
    osc_bundle_s_free(bs);
    if (indent >= 1) {
        std::string nb = "{\n" + windent + "\n" + std::string(2 * (indent - 1), ' ') + "}";
        buffer(c, "nested serialised bundle", nb, [&](char *p, long n) { return osc_bundle_s_nformatNestedBndl(p, n, in.n, in.p, indent); });
        buffer(c, "nested in-memory bundle", nb, [&](char *p, long n) { return osc_bundle_u_nformatNestedBndl(p, n, u, indent); });
    }
    osc_bundle_u_free(u);
    CHECK(c, std::string(in.p, in.n) == w, "formatting changed the bundle");
}
// a message or value of its own
static void parts(Ctx &c) {
    GenOpt o = opts(c);
    MBundle b = {gen_msg(c, o, std::min(o.depth, 2))};
    no_nul(b);
    MMsg &m = b[0];
    int indent = c.s.chance(60) ? 0 : (int)c.s.below(4);
    std::string want = fmt_msg(m), windent = fmt_msg(m, indent);
    c.note(want);
    c.nontrivial = m.args.size() >= 1 && want.size() >= 10;
    std::string body = enc_msg(m), w = be32((uint32_t)body.size()) + body;
    Buf in(w);
    t_osc_msg_s *ms = osc_message_s_alloc();
    osc_message_s_wrap(ms, in.p);
    t_osc_msg_u *mu = build_msg(m);
    CHECK(c, osc_message_s_getFormattedSize(ms) == (long)want.size(), "size of a serialised message %ld, want %zu", osc_message_s_getFormattedSize(ms), want.size());
    CHECK(c, osc_message_u_getFormattedSize(mu) == (long)want.size(), "size of a message %ld, want %zu", osc_message_u_getFormattedSize(mu), want.size());
    buffer(c, "serialised message", windent, [&](char *p, long n) { return osc_message_s_nformat(p, n, ms, indent); });
    buffer(c, "message", windent, [&](char *p, long n) { return osc_message_u_nformat(p, n, mu, indent); });
    text(c, "formatting the serialised message", osc_message_s_format(ms), want);
    text(c, "formatting the message", osc_message_u_format(mu), want);
    for (size_t i = 0; i < m.args.size(); i++) {
        std::string aw = fmt_atom(m.args[i]), ai = fmt_atom(m.args[i], indent);
        t_osc_atom_s *as = nullptr;
        osc_message_s_getArg(ms, (int)i, &as);
        t_osc_atom_u *au = osc_message_u_getArg(mu, (int)i);
        CHECK(c, osc_atom_s_getFormattedSize(as) == (long)aw.size(), "size of serialised %s: %ld", dump(m.args[i]).c_str(), osc_atom_s_getFormattedSize(as));
        CHECK(c, osc_atom_u_getFormattedSize(au) == (long)aw.size(), "size of %s: %ld", dump(m.args[i]).c_str(), osc_atom_u_getFormattedSize(au));
        buffer(c, "serialised value", ai, [&](char *p, long n) { return osc_atom_s_nformat(p, n, as, indent); });
        buffer(c, "value", ai, [&](char *p, long n) { return osc_atom_u_nformat(p, n, au, indent); });
        text(c, "formatting the serialised value", osc_atom_s_format(as), aw);
        text(c, "formatting the value", osc_atom_u_format(au), aw);
        osc_atom_s_free(as);
    }
    osc_message_s_free(ms);
    osc_message_u_free(mu);
}
namespace pt {
Property property = {
    "P14", "bundles of at least two messages and 20 characters of text; messages with an argument and 10 characters",
    {{"bundles", 3, bundles}, {"messages and values", 2, parts}},
    {"character arguments are not NUL, which no text can carry"},
    120000, 6000000,
};
}
