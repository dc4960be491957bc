// P04: the serialised and in-memory views of a bundle read the same
#include "model.hpp"
using namespace pt;

static MAtom read_s(t_osc_atom_s *s) {
    MAtom a = mk(osc_atom_s_getTypetag(s));
    switch (a.tt) {
    case 'i': a.i = osc_atom_s_getInt32(s); break;
    case 'I': a.i = osc_atom_s_getUInt32(s); break;
    case 'c': a.i = osc_atom_s_getInt8(s); break;
    case 'C': a.i = osc_atom_s_getUInt8(s); break;
    case 'u': a.i = osc_atom_s_getInt16(s); break;
    case 'U': a.i = osc_atom_s_getUInt16(s); break;
    case 'h': a.i = osc_atom_s_getInt64(s); break;
    case 'H': a.i = (int64_t)osc_atom_s_getUInt64(s); break;
    case 'f': a.f = osc_atom_s_getFloat(s); break;
    case 'd': a.d = osc_atom_s_getDouble(s); break;
    case 's': a.s = osc_atom_s_getData(s); break;
    case 't': {
        t_osc_timetag t = osc_atom_s_getTimetag(s);
        a.sec = t.sec;
        a.frac = t.frac_sec;
        break;
    }
    case 'b': a.s.assign(osc_atom_s_getBlob(s) + 4, osc_atom_s_getBlobLen(s)); break;
    case '.': {
        t_osc_bndl_s *b = osc_atom_s_getBndl(s);
        if (!dec_bundle(std::string(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b)), a.b)) a.tt = '?';
        osc_bundle_s_free(b);
        b = osc_atom_s_getBndlCopy(s);
        MBundle bb;
        if (!dec_bundle(std::string(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b)), bb) || !(bb == a.b)) a.tt = '?';
        osc_bundle_s_deepFree(b);
        break;
    }
    }
    return a;
}

static void check_msg_s(Ctx &c, t_osc_msg_s *m, const MMsg &want, const char *at, bool cached) {
    std::string body = enc_msg(want);
    CHECK(c, osc_message_s_getPtr(m) == at, "message starts at %ld instead", (long)(osc_message_s_getPtr(m) - at));
    CHECK(c, osc_message_s_getSize(m) == (int)body.size(), "message size %d, want %zu", osc_message_s_getSize(m), body.size());
    CHECK(c, osc_message_s_getAddress(m) == at + 4 && want.addr == osc_message_s_getAddress(m), "address");
    CHECK(c, osc_message_s_getTypetags(m) == at + 4 + padstr(want.addr).size() && typestring(want) == osc_message_s_getTypetags(m),
          "type string %s, want %s", osc_message_s_getTypetags(m), typestring(want).c_str());
    int n = (int)want.args.size();
    CHECK(c, osc_message_s_getArgCount(m) == n, "argument count %d, want %d", osc_message_s_getArgCount(m), n);
    const char *data = at + 4 + padstr(want.addr).size() + padstr(typestring(want)).size();
    if (cached) osc_message_s_cacheDataOffsets(m);
    std::vector<const char *> pos;
    for (auto &a : want.args) {
        pos.push_back(data);
        data += enc(a).size();
    }
    // by index, in a generated order, into a fresh and into a reused value
    t_osc_atom_s *re = nullptr;
    int k = n + 3;
    for (int i = 0; i < k; i++) {
        int idx = c.s.range(-2, n + 2);
        char tt = osc_message_s_getTypetag(m, idx);
        t_osc_atom_s *fresh = nullptr;
        osc_message_s_getArg(m, idx, &fresh);
        if (idx < 0 || idx >= n) {
            CHECK(c, tt == 0, "typetag of argument %d of %d: %c", idx, n, tt);
            CHECK(c, fresh == nullptr, "argument %d of %d exists", idx, n);
            continue;
        }
        CHECK(c, tt == want.args[idx].tt, "typetag of argument %d: %c", idx, tt);
        CHECK(c, fresh && osc_atom_s_getData(fresh) == pos[idx], "argument %d is at the wrong place", idx);
        CHECK(c, read_s(fresh) == want.args[idx], "argument %d reads %s, want %s", idx, dump(read_s(fresh)).c_str(), dump(want.args[idx]).c_str());
        osc_message_s_getArg(m, idx, &re);
        CHECK(c, re && read_s(re) == want.args[idx], "argument %d into a reused value reads %s", idx, dump(read_s(re)).c_str());
        osc_atom_s_free(fresh);
    }
    if (re) osc_atom_s_free(re);
    // by iterator: abandoned at any point, reset, read to the end and beyond
    t_osc_msg_it_s *it = osc_msg_it_s_get(m);
    int stop = (int)c.s.below(n + 1);
    for (int i = 0; i < stop; i++) osc_msg_it_s_next(it);
    osc_msg_it_s_reset(it);
    for (int i = 0; i < n; i++) {
        CHECK(c, osc_msg_it_s_hasNext(it), "the iterator ends after %d of %d arguments", i, n);
        t_osc_atom_s *a = osc_msg_it_s_next(it);
        CHECK(c, a && osc_atom_s_getData(a) == pos[i] && read_s(a) == want.args[i], "argument %d by iterator reads %s", i, a ? dump(read_s(a)).c_str() : "null");
    }
    CHECK(c, !osc_msg_it_s_hasNext(it), "the iterator goes on after %d arguments", n);
    CHECK(c, osc_msg_it_s_next(it) == nullptr, "the iterator yields an argument after the last");
    osc_msg_it_s_destroy(it);
}
static void check_msg_u(Ctx &c, t_osc_msg_u *m, const MMsg &want) {
    int n = (int)want.args.size();
    CHECK(c, want.addr == osc_message_u_getAddress(m), "in-memory address %s", osc_message_u_getAddress(m));
    CHECK(c, osc_message_u_getArgCount(m) == n, "in-memory argument count %d, want %d", osc_message_u_getArgCount(m), n);
    for (int i = 0; i < n + 3; i++) {
        int idx = c.s.range(-2, n + 2);
        t_osc_atom_u *a = osc_message_u_getArg(m, idx);
        if (idx < 0 || idx >= n) CHECK(c, !a, "in-memory argument %d of %d exists", idx, n);
        else CHECK(c, a && read_atom(a) == want.args[idx], "in-memory argument %d reads %s", idx, a ? dump(read_atom(a)).c_str() : "null");
    }
    t_osc_msg_it_u *it = osc_msg_it_u_get(m);
    int stop = (int)c.s.below(n + 1);
    for (int i = 0; i < stop; i++) osc_msg_it_u_next(it);
    osc_msg_it_u_reset(it);
    for (int i = 0; i < n; i++) {
        CHECK(c, osc_msg_it_u_hasNext(it), "the in-memory iterator ends after %d of %d", i, n);
        t_osc_atom_u *a = osc_msg_it_u_next(it);
        CHECK(c, a && a == osc_message_u_getArg(m, i), "in-memory argument %d by iterator", i);
    }
    CHECK(c, !osc_msg_it_u_hasNext(it), "the in-memory iterator goes on");
    CHECK(c, !osc_msg_it_u_next(it), "the in-memory iterator yields an argument after the last");
    osc_msg_it_u_destroy(it);
}

struct Seen { std::vector<std::string> addrs; };
static void cb_s(t_osc_msg_s *m, void *x) { ((Seen *)x)->addrs.push_back(std::string(osc_message_s_getAddress(m)) + " " + osc_message_s_getTypetags(m)); }
static void cb_u(t_osc_msg_u *m, void *x) { ((Seen *)x)->addrs.push_back(std::string(osc_message_u_getAddress(m)) + " " + typestring(read_msg(m))); }

static void views(Ctx &c) {
    GenOpt o;
    if (c.s.chance(10)) o.max_args = 30;
    MBundle b = gen_bundle(c, o, 2);
    std::string w = enc_bundle(b, c.s.u64());
    c.note(dump(b));
    size_t nargs = 0;
    for (auto &m : b) nargs += m.args.size();
    c.nontrivial = b.size() >= 2 && nargs >= 2;
    Buf in(w);
    int n = (int)b.size(), count = -1;
    CHECK(c, osc_bundle_s_getMsgCount((int)in.n, in.p, &count) == 0 && count == n, "message count %d, want %d", count, n);
    std::vector<const char *> at;
    const char *p = in.p + 16;
    for (auto &m : b) {
        at.push_back(p);
        p += 4 + enc_msg(m).size();
    }
    t_osc_bndl_it_s *it = osc_bndl_it_s_get(in.n, in.p);
    t_osc_msg_s *keep = nullptr;
    int stop = (int)c.s.below(n + 1);
    for (int i = 0; i < stop; i++) {
        t_osc_msg_s *m = osc_bndl_it_s_next(it);
        if (c.s.chance(30)) osc_message_s_cacheDataOffsets(m);
    }
    osc_bndl_it_s_reset(it);
    for (int i = 0; i < n; i++) {
        CHECK(c, osc_bndl_it_s_hasNext(it), "the bundle iterator ends after %d of %d messages", i, n);
        t_osc_msg_s *m = osc_bndl_it_s_next(it);
        CHECK(c, m != nullptr, "the bundle iterator yields nothing");
        switch (c.s.weighted({6, 3, 3, 3})) {
        case 0: check_msg_s(c, m, b[i], at[i], false); break;
        case 1: { // cached offsets, on a copy of our own
            t_osc_msg_s *mm = nullptr;
            if (c.s.chance(20)) osc_message_s_cacheDataOffsets(m);
            osc_message_s_copy(&mm, m);
            check_msg_s(c, mm, b[i], at[i], c.s.chance(80));
            osc_message_s_free(mm);
            if (c.s.chance(50)) check_msg_s(c, m, b[i], at[i], false);
            break;
        }
        case 2: check_msg_s(c, m, b[i], at[i], true); break; // on the one the iterator uses again
        case 3: // on one that comes to stand for other messages
            if (c.s.chance(50)) osc_message_s_copy(&keep, m);
            else {
                if (!keep) keep = osc_message_s_alloc();
                CHECK(c, osc_message_s_wrap(keep, (char *)at[i]) == OSC_ERR_NONE, "wrapping fails");
            }
            check_msg_s(c, keep, b[i], at[i], c.s.chance(60));
            break;
        }
    }
    CHECK(c, !osc_bndl_it_s_hasNext(it), "the bundle iterator goes on after %d messages", n);
    osc_bndl_it_s_destroy(it);
    osc_message_s_free(keep);
    t_osc_bndl_s *bs = osc_bundle_s_alloc(in.n, in.p);
    t_osc_msg_s *first = osc_bundle_s_getFirstMsg(bs);
    CHECK(c, !first == b.empty(), "first message");
    if (first) {
        CHECK(c, osc_message_s_getPtr(first) == at[0], "first message is not the first");
        osc_message_s_free(first);
    }
    osc_bundle_s_free(bs);
    Seen ss, su, want;
    for (auto &m : b) want.addrs.push_back(m.addr + " " + typestring(m));
    CHECK(c, osc_bundle_s_getMessagesWithCallback((int)in.n, in.p, cb_s, &ss) == 0 && ss.addrs == want.addrs, "messages by callback differ");
    // in memory
    t_osc_bndl_u *u = osc_bundle_s_deserialize(in.n, in.p);
    CHECK(c, osc_bundle_u_getMsgCount(u) == n, "in-memory message count %d", osc_bundle_u_getMsgCount(u));
    osc_bundle_u_getMessagesWithCallback(u, cb_u, &su);
    CHECK(c, su.addrs == want.addrs, "in-memory messages by callback differ");
    t_osc_bndl_it_u *iu = osc_bndl_it_u_get(u);
    stop = (int)c.s.below(n + 1);
    for (int i = 0; i < stop; i++) osc_bndl_it_u_next(iu);
    osc_bndl_it_u_reset(iu);
    for (int i = 0; i < n; i++) {
        CHECK(c, osc_bndl_it_u_hasNext(iu), "the in-memory bundle iterator ends after %d of %d", i, n);
        t_osc_msg_u *m = osc_bndl_it_u_next(iu);
        CHECK(c, m != nullptr, "the in-memory bundle iterator yields nothing");
        if (i == 0) CHECK(c, m == osc_bundle_u_getFirstMsg(u), "in-memory first message is not the first");
        check_msg_u(c, m, b[i]);
    }
    CHECK(c, !osc_bndl_it_u_hasNext(iu), "the in-memory bundle iterator goes on");
    osc_bndl_it_u_destroy(iu);
    if (!n) CHECK(c, !osc_bundle_u_getFirstMsg(u), "first message of an empty bundle");
    CHECK(c, !memcmp(in.p, w.data(), w.size()), "reading changed the bytes");
    osc_bundle_u_free(u);
}

// a message that is only an address (no type string at all) reads as one without arguments
static void address_only(Ctx &c) {
    GenOpt o;
    o.max_msgs = 3;
    MBundle b = gen_bundle(c, o, 0);
    std::string w = std::string("#bundle\0", 8) + be64(0);
    size_t k = c.s.below(b.size() + 1);
    std::string addr = gen_addr(c, o);
    std::vector<std::string> addrs;
    for (size_t i = 0; i <= b.size(); i++) {
        if (i == k) {
            w += be32((uint32_t)padstr(addr).size()) + padstr(addr);
            addrs.push_back(addr);
        }
        if (i < b.size()) {
            std::string e = enc_msg(b[i]);
            w += be32((uint32_t)e.size()) + e;
            addrs.push_back(b[i].addr);
        }
    }
    c.note("bundle " + hex(w.data(), w.size()));
    c.nontrivial = !b.empty();
    // the wrapper looks at the first byte after such a message, so that it must not be the very end of the heap block
    Buf in(w + std::string(8, '\0'));
    long len = (long)w.size();
    t_osc_bndl_it_s *it = osc_bndl_it_s_get(len, in.p);
    size_t i = 0;
    for (; osc_bndl_it_s_hasNext(it) && i < addrs.size(); i++) {
        t_osc_msg_s *m = osc_bndl_it_s_next(it);
        CHECK(c, addrs[i] == osc_message_s_getAddress(m), "message %zu is %s, want %s", i, osc_message_s_getAddress(m), addrs[i].c_str());
        if (i == k) {
            CHECK(c, osc_message_s_getArgCount(m) == 0, "a message without a type string has %d arguments", osc_message_s_getArgCount(m));
            CHECK(c, osc_message_s_getTypetag(m, 0) == 0, "a message without a type string has a typetag");
            t_osc_msg_u *u = osc_message_s_deserialize(m);
            CHECK(c, osc_message_u_getArgCount(u) == 0 && addr == osc_message_u_getAddress(u), "deserialised %s", dump(read_msg(u)).c_str());
            osc_message_u_free(u);
        }
    }
    CHECK(c, i == addrs.size() && !osc_bndl_it_s_hasNext(it), "iterated over %zu of %zu messages", i, addrs.size());
    osc_bndl_it_s_destroy(it);
}

namespace pt {
Property property = {
    "P04",
    "well-formed bundles (0-5 messages, up to 30 arguments of every type, nested bundles) in exact-size buffers; messages and "
    "arguments are read by iterator (abandoned at a generated point and reset), by generated indices in and out of range, with "
    "and without cached offsets (also cached twice, on a message that is then wrapped around or copied from another), on the bytes and on the deserialised bundle, and compared with the model and the byte offsets "
    "of the reference encoder. Non-trivial: two or more messages with two or more arguments",
    {{"views", 6, views}, {"address only", 1, address_only}},
    {"out-of-range means below 0 or at least the count"},
    120000, 10000000,
};
}
