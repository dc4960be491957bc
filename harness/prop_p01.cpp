// P01: serialising gives exactly the OSC bytes, and every size function tells their number
#include "model.hpp"
using namespace pt;

static void whole_bundle(Ctx &c) {
    GenOpt o;
    MBundle b = gen_bundle(c, o);
    t_osc_bndl_u *u = c.s.chance(20) ? come_by_bundle(c, b) : build_bundle(b);
    c.note(dump(b));
    std::string want = enc_bundle(b);
    size_t nargs = 0;
    for (auto &m : b) nargs += m.args.size();
    c.nontrivial = b.size() >= 2 && nargs >= 2;
    long n = osc_bundle_u_getSerializedSize(u);
    CHECK(c, n == (long)want.size(), "announced size %ld, the bytes are %zu", n, want.size());
    CHECK(c, osc_bundle_u_getMsgCount(u) == (int)b.size(), "message count %d", osc_bundle_u_getMsgCount(u));
    t_osc_bndl_s *s = osc_bundle_u_serialize(u);
    std::string got(osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
    CHECK(c, got == want, "serialised bytes differ\n got %s\nwant %s", hex(got.data(), got.size()).c_str(),
          hex(want.data(), want.size()).c_str());
    CHECK(c, got.size() % 4 == 0, "length %zu is not a multiple of 4", got.size());
    // into a caller's buffer of exactly that size
    Buf out(std::string(n, '\xAA'));
    size_t w = osc_bundle_u_nserialize(out.p, n, u);
    CHECK(c, w == (size_t)n, "wrote %zu of %ld bytes", w, n);
    CHECK(c, memcmp(out.p, want.data(), n) == 0, "bytes in the caller's buffer differ: %s", hex(out.p, n).c_str());
    // and the library's own check accepts them
    CHECK(c, osc_error_bundleSanityCheck((int)n, out.p) == 0, "own sanity check rejects the bytes");
    // serialising is not destructive, and is repeatable
    CHECK(c, read_bundle(u) == b, "the bundle changed when it was serialised: %s", dump(read_bundle(u)).c_str());
    t_osc_bndl_s *s2 = osc_bundle_u_serialize(u);
    CHECK(c, std::string(osc_bundle_s_getPtr(s2), osc_bundle_s_getLen(s2)) == want, "second serialisation differs");
    osc_bundle_s_deepFree(s2);
    osc_bundle_s_deepFree(s);
    osc_bundle_u_free(u);
}

static void one_message(Ctx &c) {
    GenOpt o;
    MMsg m = gen_msg(c, o, 1);
    c.note(dump(m));
    c.nontrivial = m.args.size() >= 2;
    std::string body = enc_msg(m), want = be32((uint32_t)body.size()) + body;
    t_osc_msg_u *u = build_msg(m);
    CHECK(c, osc_message_u_getSerializedSize(u) == (long)want.size(), "announced %ld, want %zu",
          (long)osc_message_u_getSerializedSize(u), want.size());
    t_osc_msg_s *s = osc_message_u_serialize(u);
    CHECK(c, osc_message_s_getSize(s) == (int32_t)body.size(), "size %d, want %zu", osc_message_s_getSize(s), body.size());
    CHECK(c, std::string(osc_message_s_getPtr(s), want.size()) == want, "message bytes differ\n got %s\nwant %s",
          hex(osc_message_s_getPtr(s), want.size()).c_str(), hex(want.data(), want.size()).c_str());
    CHECK(c, std::string(osc_message_s_getTypetags(s)) == typestring(m), "typetags %s", osc_message_s_getTypetags(s));
    CHECK(c, m.addr == osc_message_s_getAddress(s), "address %s", osc_message_s_getAddress(s));
    size_t skip = 4 + padstr(m.addr).size() + padstr(typestring(m)).size();
    CHECK(c, osc_message_s_getData(s) == osc_message_s_getPtr(s) + skip, "data starts at %ld, want %zu",
          (long)(osc_message_s_getData(s) - osc_message_s_getPtr(s)), skip);
    osc_message_s_deepFree(s);
    osc_message_u_free(u);
}

// into a buffer of any size: what does not fit is left out, and nothing is written beyond the end
static void small_buffer(Ctx &c) {
    GenOpt o;
    MBundle b = gen_bundle(c, o);
    c.note(dump(b));
    t_osc_bndl_u *u = build_bundle(b);
    std::string want = enc_bundle(b);
    size_t n = c.s.chance(25) ? want.size() + c.s.below(9) : c.s.below(want.size() + 1);
    c.note("a buffer of " + std::to_string(n) + " bytes for " + std::to_string(want.size()));
    c.nontrivial = n > 16 && n < want.size();
    Buf out(std::string(n, '\xAA'));
    size_t w = osc_bundle_u_nserialize(out.p, n, u);
    CHECK(c, w <= n, "says it wrote %zu bytes into a buffer of %zu", w, n);
    if (n >= want.size()) {
        CHECK(c, w == want.size() && !memcmp(out.p, want.data(), w), "wrote %s, want %s", hex(out.p, w).c_str(),
              hex(want.data(), want.size()).c_str());
    } else {
        // the messages that fit are there, whole and in order
        size_t fit = 16;
        for (auto &m : b) {
            size_t l = 4 + enc_msg(m).size();
            if (fit + l > n) break;
            fit += l;
        }
        if (n >= 16) CHECK(c, w >= fit && !memcmp(out.p, want.data(), fit), "%zu bytes fit, %zu were written: %s", fit, w, hex(out.p, w).c_str());
    }
    // the same for one message and one value
    if (!b.empty()) {
        auto &m = b[c.s.below(b.size())];
        t_osc_msg_u *mu = build_msg(m);
        std::string mw = be32((uint32_t)enc_msg(m).size()) + enc_msg(m);
        size_t k = c.s.below(mw.size() + 1);
        Buf mo(std::string(k, '\xAA'));
        w = osc_message_u_nserialize(mo.p, k, mu);
        CHECK(c, w <= k, "says it wrote %zu bytes of a message into a buffer of %zu", w, k);
        if (k == mw.size()) CHECK(c, w == k && !memcmp(mo.p, mw.data(), k), "message %s, want %s", hex(mo.p, w).c_str(), hex(mw.data(), k).c_str());
        if (!m.args.empty()) {
            int i = (int)c.s.below(m.args.size());
            std::string aw = enc(m.args[i]);
            k = c.s.below(aw.size() + 1);
            Buf ao(std::string(k, '\xAA'));
            w = osc_atom_u_nserialize(ao.p, k, osc_message_u_getArg(mu, i));
            CHECK(c, w <= k, "says it wrote %zu bytes of a value into a buffer of %zu", w, k);
            if (k == aw.size()) CHECK(c, w == k && !memcmp(ao.p, aw.data(), k), "value %s, want %s", hex(ao.p, w).c_str(), hex(aw.data(), k).c_str());
        }
        osc_message_u_free(mu);
    }
    osc_bundle_u_free(u);
}

static void one_atom(Ctx &c) {
    GenOpt o;
    // the atom held other values before: nothing of them may be left on the wire
    t_osc_atom_u *u = osc_atom_u_alloc();
    int n = c.s.size(3);
    for (int i = 0; i < n; i++) {
        char t = c.s.pickc("ifdhHIcCuUTFNtsb");
        MAtom p = gen_atom(c, o, 0, t);
        if (c.s.chance(8)) { // no string at all: the value is gone, whatever it was
            osc_atom_u_setString(u, nullptr);
            c.note("set to no string");
            CHECK(c, osc_atom_u_getSerializedSize(u) == 0 && !osc_atom_u_getStringPtr(u),
                  "set to no string, but %ld bytes of type %d are left", osc_atom_u_getSerializedSize(u),
                  osc_atom_u_getTypetag(u));
            continue;
        }
        c.note("held before: " + dump(p));
        switch (t) {
        case 'i': osc_atom_u_setInt32(u, (int32_t)p.i); break;
        case 'I': osc_atom_u_setUInt32(u, (uint32_t)p.i); break;
        case 'c': osc_atom_u_setInt8(u, (int8_t)p.i); break;
        case 'C': osc_atom_u_setUInt8(u, (uint8_t)p.i); break;
        case 'u': osc_atom_u_setInt16(u, (int16_t)p.i); break;
        case 'U': osc_atom_u_setUInt16(u, (uint16_t)p.i); break;
        case 'h': osc_atom_u_setInt64(u, p.i); break;
        case 'H': osc_atom_u_setUInt64(u, (uint64_t)p.i); break;
        case 'f': osc_atom_u_setFloat(u, p.f); break;
        case 'd': osc_atom_u_setDouble(u, p.d); break;
        case 'T': osc_atom_u_setTrue(u); break;
        case 'F': osc_atom_u_setFalse(u); break;
        case 'N': osc_atom_u_setNil(u); break;
        case 't': osc_atom_u_setTimetag(u, t_osc_timetag{p.sec, p.frac}); break;
        case 's': osc_atom_u_setString(u, p.s.c_str()); break;
        case 'b': {
            Buf blob(be32((uint32_t)p.s.size()) + p.s);
            osc_atom_u_setBlob(u, blob.p);
            break;
        }
        }
    }
    char t = c.s.pickc("ifdhHIcCuUTFNtsb");
    MAtom p = gen_atom(c, o, 0, t);
    c.note("holds " + dump(p));
    c.nontrivial = n > 0 && strchr("ifdhHIcCuUtsb", t);
    Buf blob(be32((uint32_t)p.s.size()) + p.s);
    switch (t) {
    case 'i': osc_atom_u_setInt32(u, (int32_t)p.i); break;
    case 'I': osc_atom_u_setUInt32(u, (uint32_t)p.i); break;
    case 'c': osc_atom_u_setInt8(u, (int8_t)p.i); break;
    case 'C': osc_atom_u_setUInt8(u, (uint8_t)p.i); break;
    case 'u': osc_atom_u_setInt16(u, (int16_t)p.i); break;
    case 'U': osc_atom_u_setUInt16(u, (uint16_t)p.i); break;
    case 'h': osc_atom_u_setInt64(u, p.i); break;
    case 'H': osc_atom_u_setUInt64(u, (uint64_t)p.i); break;
    case 'f': osc_atom_u_setFloat(u, p.f); break;
    case 'd': osc_atom_u_setDouble(u, p.d); break;
    case 'T': osc_atom_u_setBool(u, gen_truth(c)); break;
    case 'F': osc_atom_u_setBool(u, 0); break;
    case 'N': osc_atom_u_setNil(u); break;
    case 't': osc_atom_u_setTimetag(u, t_osc_timetag{p.sec, p.frac}); break;
    case 's': osc_atom_u_setString(u, p.s.c_str()); break;
    case 'b': osc_atom_u_setBlob(u, blob.p); break;
    }
    std::string want = enc(p);
    CHECK(c, osc_atom_u_getTypetag(u) == t, "typetag %c, want %c", osc_atom_u_getTypetag(u), t);
    CHECK(c, osc_atom_u_getSerializedSize(u) == (long)want.size(), "announced %ld, want %zu",
          osc_atom_u_getSerializedSize(u), want.size());
    Buf out(std::string(want.size(), '\xAA'));
    size_t w = osc_atom_u_nserialize(out.p, want.size(), u);
    CHECK(c, w == want.size(), "wrote %zu, want %zu", w, want.size());
    CHECK(c, memcmp(out.p, want.data(), w) == 0, "bytes %s, want %s", hex(out.p, w).c_str(), hex(want.data(), w).c_str());
    // serialised view
    t_osc_atom_s *s = osc_atom_u_serialize(u);
    CHECK(c, osc_atom_s_getTypetag(s) == t, "serialised typetag %c", osc_atom_s_getTypetag(s));
    CHECK(c, memcmp(osc_atom_s_getData(s), want.data(), w) == 0, "serialised atom: %s, want %s",
          hex(osc_atom_s_getData(s), w).c_str(), hex(want.data(), w).c_str());
    free(osc_atom_s_getData(s));
    osc_atom_s_free(s);
    osc_atom_u_free(u);
}

// the setters of a serialised atom write into bytes in place
static void setters_in_place(Ctx &c) {
    GenOpt o;
    char t = c.s.pickc("ifdhHIcCuUtsTFN");
    bool fresh = c.s.chance(30); // an atom without data makes a block for it
    MAtom from = gen_atom(c, o, 0, t), p = gen_atom(c, o, 0, t);
    if (t == 's' && !fresh && enc(from).size() < enc(p).size()) std::swap(from, p);
    c.note("was " + (fresh ? "without data" : dump(from)) + ", set to " + dump(p));
    c.nontrivial = fresh || from != p;
    Buf b(enc(from));
    t_osc_atom_s *s = osc_atom_s_alloc(fresh ? 'N' : t, fresh ? nullptr : b.p);
    switch (t) {
    case 'i': osc_atom_s_setInt32(s, (int32_t)p.i); break;
    case 'I': osc_atom_s_setUInt32(s, (uint32_t)p.i); break;
    case 'c': osc_atom_s_setInt8(s, (int8_t)p.i); break;
    case 'C': osc_atom_s_setUInt8(s, (uint8_t)p.i); break;
    case 'u': osc_atom_s_setInt16(s, (int16_t)p.i); break;
    case 'U': osc_atom_s_setUInt16(s, (uint16_t)p.i); break;
    case 'h': osc_atom_s_setInt64(s, p.i); break;
    case 'H': osc_atom_s_setUInt64(s, (uint64_t)p.i); break;
    case 'f': osc_atom_s_setFloat(s, p.f); break;
    case 'd': osc_atom_s_setDouble(s, p.d); break;
    case 't': osc_atom_s_setTimetag(s, t_osc_timetag{p.sec, p.frac}); break;
    case 's': osc_atom_s_setString(s, (char *)p.s.c_str()); break;
    case 'T': osc_atom_s_setTrue(s); break;
    case 'F': osc_atom_s_setFalse(s); break;
    case 'N': osc_atom_s_setNil(s); break;
    }
    std::string want = enc(p);
    CHECK(c, osc_atom_s_getTypetag(s) == t, "typetag became %c", osc_atom_s_getTypetag(s));
    CHECK(c, want.empty() || memcmp(osc_atom_s_getData(s), want.data(), want.size()) == 0, "bytes %s, want %s",
          hex(osc_atom_s_getData(s), want.size()).c_str(), hex(want.data(), want.size()).c_str());
    CHECK(c, want.empty() || osc_atom_s_sizeof(s) == want.size(), "sizeof %zu", osc_atom_s_sizeof(s));
    if (fresh) free(osc_atom_s_getData(s));
    osc_atom_s_free(s);
}

namespace pt {
Property property = {
    "P01",
    "bundles of 0-5 messages (0-5 arguments of every type, nested sub-bundles, boundary integers, special floats, strings "
    "of any bytes, blobs of every length mod 4) are built through the API and serialised; single messages, and single "
    "atoms that held other values before; bundles, messages and values into buffers of any size up to what they need and a little beyond; the oracle is an independent encoder of the OSC 1.0 layout. Non-trivial: a "
    "bundle of two or more messages with two or more arguments, a message of two or more arguments, a buffer too small, an atom that was "
    "overwritten or set in place",
    {{"bundle", 5, whole_bundle}, {"message", 2, one_message}, {"atom", 3, one_atom}, {"buffer of any size", 2, small_buffer}, {"atom set in place", 2, setters_in_place}},
    {"the reference encoder in harness/model.cpp is right about the layout",
     "8- and 16-bit integers travel as 32-bit words, sign- or zero-extended by type"},
    700000, 20000000,
};
}
