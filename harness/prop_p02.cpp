// P02: deserialising inverts serialising
#include "model.hpp"
using namespace pt;

static void bundle_bytes(Ctx &c) {
    GenOpt o;
    MBundle b = gen_bundle(c, o, c.s.chance(20) ? 4 : 2);
    uint64_t tt = c.s.chance(30) ? c.s.u64() : c.s.below(3);
    c.note(dump(b));
    std::string wire = enc_bundle(b, tt);
    size_t nargs = 0;
    for (auto &m : b) nargs += m.args.size();
    c.nontrivial = b.size() >= 2 && nargs >= 2;
    Buf in(wire);
    t_osc_bndl_u *u = osc_bundle_s_deserialize(in.n, in.p);
    CHECK(c, u != nullptr, "a well-formed bundle is not deserialised");
    CHECK(c, memcmp(in.p, wire.data(), in.n) == 0, "deserialising changed its input");
    MBundle got = read_bundle(u);
    CHECK(c, got == b, "deserialised to\n%s\nwant\n%s", dump(got).c_str(), dump(b).c_str());
    CHECK(c, osc_bundle_u_getMsgCount(u) == (int)b.size(), "message count %d, want %zu", osc_bundle_u_getMsgCount(u), b.size());
    // the in-memory bundle does not depend on the bytes it came from
    memset(in.p, 0x5A, in.n);
    t_osc_bndl_s *s = osc_bundle_u_serialize(u);
    std::string back(osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
    std::string want = enc_bundle(b, 0);
    CHECK(c, back.size() == want.size(), "re-serialised to %zu bytes, want %zu", back.size(), want.size());
    CHECK(c, back.substr(16) == want.substr(16) && back.substr(0, 8) == want.substr(0, 8), "re-serialised bytes differ\n got %s\nwant %s",
          hex(back.data(), back.size()).c_str(), hex(want.data(), want.size()).c_str());
    t_osc_bndl_u *u2 = osc_bundle_s_deserialize(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s));
    CHECK(c, read_bundle(u2) == b, "second deserialisation differs: %s", dump(read_bundle(u2)).c_str());
    osc_bundle_u_free(u2);
    osc_bundle_s_deepFree(s);
    osc_bundle_u_free(u);
}

static void message_bytes(Ctx &c) {
    GenOpt o;
    o.max_args = c.s.chance(10) ? 40 : 6;
    MMsg m = gen_msg(c, o, 2);
    c.note(dump(m));
    c.nontrivial = m.args.size() >= 2;
    std::string body = enc_msg(m), wire = be32((uint32_t)body.size()) + body;
    Buf in(wire);
    t_osc_msg_s *s = osc_message_s_alloc();
    osc_message_s_wrap(s, in.p);
    t_osc_msg_u *u = osc_message_s_deserialize(s);
    CHECK(c, u != nullptr, "a well-formed message is not deserialised");
    MMsg got = read_msg(u);
    CHECK(c, got == m, "deserialised to\n%s\nwant\n%s", dump(got).c_str(), dump(m).c_str());
    CHECK(c, osc_message_u_getArgCount(u) == (int)m.args.size(), "argument count %d", osc_message_u_getArgCount(u));
    CHECK(c, memcmp(in.p, wire.data(), in.n) == 0, "deserialising changed its input");
    memset(in.p, 0x5A, in.n);
    t_osc_msg_s *r = osc_message_u_serialize(u);
    CHECK(c, std::string(osc_message_s_getPtr(r), osc_message_s_getSize(r) + 4) == wire, "re-serialised bytes differ\n got %s\nwant %s",
          hex(osc_message_s_getPtr(r), osc_message_s_getSize(r) + 4).c_str(), hex(wire.data(), wire.size()).c_str());
    osc_message_s_deepFree(r);
    osc_message_s_free(s);
    osc_message_u_free(u);
}

static void atom_bytes(Ctx &c) {
    GenOpt o;
    MAtom a = gen_atom(c, o, 2), b = gen_atom(c, o, 1);
    c.note(dump(a) + ", over " + dump(b));
    c.nontrivial = !strchr("TFN", a.tt);
    std::string wire = enc(a);
    Buf in(wire);
    t_osc_atom_s *s = osc_atom_s_alloc(a.tt, in.p);
    t_osc_atom_u *u = osc_atom_s_deserialize(s);
    CHECK(c, u && read_atom(u) == a, "deserialised to %s", u ? dump(read_atom(u)).c_str() : "nothing");
    osc_atom_u_free(u);
    CHECK(c, osc_atom_s_sizeof(s) == wire.size(), "sizeof %zu, the value has %zu bytes", osc_atom_s_sizeof(s), wire.size());
    // into an atom that held something else
    t_osc_atom_u *d = build_atom(b);
    osc_atom_s_deserializeInto(&d, s);
    CHECK(c, read_atom(d) == a, "deserialised into an atom: %s", dump(read_atom(d)).c_str());
    memset(in.p, 0x5A, in.n);
    CHECK(c, read_atom(d) == a, "the deserialised atom still reads the bytes: %s", dump(read_atom(d)).c_str());
    t_osc_atom_s *r = osc_atom_u_serialize(d);
    CHECK(c, !memcmp(osc_atom_s_getData(r), wire.data(), wire.size()), "re-serialised to %s",
          hex(osc_atom_s_getData(r), wire.size()).c_str());
    free(osc_atom_s_getData(r));
    osc_atom_s_free(r);
    osc_atom_u_free(d);
    osc_atom_s_free(s);
}

namespace pt {
Property property = {
    "P02",
    "the bytes of generated bundles (any header timetag, every type, nesting up to 4), messages and values, encoded by the "
    "reference encoder in exact-size buffers, are deserialised, compared with the model, the bytes overwritten, and the "
    "result serialised again. Non-trivial: a bundle of two or more messages with two or more arguments, a message of two or "
    "more arguments, a value with data",
    {{"bundle", 5, bundle_bytes}, {"message", 3, message_bytes}, {"atom", 2, atom_bytes}},
    {"the in-memory bundle has no timetag: the header's timetag is outside the round trip"},
    250000, 15000000,
};
}
