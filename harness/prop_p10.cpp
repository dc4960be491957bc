// P10: a message's arguments are a list under any edits
#include "model.hpp"
using namespace pt;

static void verify(Ctx &c, t_osc_msg_u *u, const MMsg &w, const char *op, bool deep) {
    CHECK(c, osc_message_u_getArgCount(u) == (int)w.args.size(), "after %s: %d arguments, want %zu", op, osc_message_u_getArgCount(u), w.args.size());
    char *a = osc_message_u_getAddress(u);
    CHECK(c, a && w.addr == a, "after %s: address %s, want %s", op, a ? a : "(null)", w.addr.c_str());
    t_osc_msg_it_u *it = osc_msg_it_u_get(u);
    std::vector<t_osc_atom_u *> seen;
    while (osc_msg_it_u_hasNext(it)) {
        seen.push_back(osc_msg_it_u_next(it));
        CHECK(c, seen.size() <= w.args.size(), "after %s: the iterator gives more than %zu arguments", op, w.args.size());
    }
    osc_msg_it_u_destroy(it);
    CHECK(c, seen.size() == w.args.size(), "after %s: the iterator gives %zu arguments, want %zu", op, seen.size(), w.args.size());
    for (size_t i = 0; i < seen.size(); i++) {
        MAtom g = read_atom(seen[i]);
        CHECK(c, g == w.args[i], "after %s: argument %zu is %s, want %s", op, i, dump(g).c_str(), dump(w.args[i]).c_str());
        CHECK(c, osc_message_u_getArg(u, (int)i) == seen[i], "after %s: argument %zu by index is another one", op, i);
    }
    CHECK(c, !osc_message_u_getArg(u, (int)seen.size()) && !osc_message_u_getArg(u, -1), "after %s: an argument out of range", op);
    if (!deep) return;
    std::string body = enc_msg(w), wire = be32((uint32_t)body.size()) + body;
    t_osc_msg_s *s = osc_message_u_serialize(u);
    std::string g(osc_message_s_getPtr(s), osc_message_s_getSize(s) + 4);
    osc_message_s_deepFree(s);
    CHECK(c, g == wire, "after %s: serialises to %s, want %s", op, hex(g.data(), g.size()).c_str(), hex(wire.data(), wire.size()).c_str());
}
static char *dupstr(const std::string &s) {
    char *p = (char *)malloc(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
}
static std::string blobstr(const MAtom &a) { return be32((uint32_t)a.s.size()) + a.s; }
// the typed append, prepend and insert functions; how: 0 append, 1 prepend, 2 insert
static t_osc_atom_u *typed(Ctx &c, t_osc_msg_u *u, const MAtom &a, int how, int pos) {
#define T(name, val) (how == 0 ? osc_message_u_append##name(u, val) : how == 1 ? osc_message_u_prepend##name(u, val) : osc_message_u_insert##name(u, val, pos))
#define T0(name) (how == 0 ? osc_message_u_append##name(u) : how == 1 ? osc_message_u_prepend##name(u) : osc_message_u_insert##name(u, pos))
    switch (a.tt) {
    case 'c': return T(Int8, (int8_t)a.i);
    case 'C': return T(UInt8, (uint8_t)a.i);
    case 'u': return T(Int16, (int16_t)a.i);
    case 'U': return T(UInt16, (uint16_t)a.i);
    case 'i': return T(Int32, (int32_t)a.i);
    case 'I': return T(UInt32, (uint32_t)a.i);
    case 'h': return T(Int64, a.i);
    case 'H': return T(UInt64, (uint64_t)a.i);
    case 'f': return T(Float, a.f);
    case 'd': return T(Double, a.d);
    case 's': {
        if (c.s.below(2)) return T(StringPtr, dupstr(a.s));
        Buf b(a.s + std::string(1, '\0'));
        return T(String, b.p);
    }
    case 'T': return c.s.below(2) ? T0(True) : T(Bool, gen_truth(c));
    case 'F': return c.s.below(2) ? T0(False) : T(Bool, 0);
    case 'N': return T0(Nil);
    case 't': {
        t_osc_timetag t{a.sec, a.frac};
        return T(Timetag, t);
    }
    case 'b': {
        Buf b(blobstr(a));
        return T(Blob, b.p);
    }
    case '.': {
        if (c.s.below(2)) return T(Bndl_u, build_bundle(a.b));
        Buf b(enc_bundle(a.b));
#define TB(name) (how == 0 ? osc_message_u_append##name(u, b.n, b.p) : how == 1 ? osc_message_u_prepend##name(u, b.n, b.p) : osc_message_u_insert##name(u, b.n, b.p, pos))
        return c.s.below(2) ? TB(Bndl) : TB(Bndl_s);
    }
    }
    return nullptr;
}
static void ops(Ctx &c) {
    GenOpt o;
    o.max_msgs = 2;
    o.max_args = 2;
    o.depth = 1;
    o.max_str = 6;
    MMsg w;
    w.addr = gen_addr(c, o);
    t_osc_msg_u *u;
    // the ways to make a message with one value
    Buf addr(w.addr + std::string(1, '\0'));
    switch (c.s.below(10)) {
    case 9: {
        MBundle b(1);
        b[0].addr = w.addr;
        for (int i = c.s.size(9); i > 0; i--) b[0].args.push_back(gen_atom(c, o, 1));
        t_osc_bndl_u *d = come_by_bundle(c, b);
        u = osc_bundle_u_getFirstMsg(d);
        w = b.empty() ? MMsg() : b[0];
        CHECK(c, u && b.size(), "one message becomes none");
        osc_bundle_u_removeMsg(d, u);
        osc_bundle_u_free(d);
        break;
    }
    case 1: u = osc_message_u_allocWithInt(addr.p, -5); w.args.push_back(mk_i(-5)); break;
    case 2: u = osc_message_u_allocWithFloat(addr.p, 1.5f); w.args.push_back(mk_f(1.5f)); break;
    case 3: u = osc_message_u_allocWithDouble(addr.p, -2.25); w.args.push_back(mk_d(-2.25)); break;
    case 4: {
        MAtom a = mk_s(gen_string(c, o));
        Buf s(a.s + std::string(1, '\0'));
        u = osc_message_u_allocWithString(addr.p, s.p);
        w.args.push_back(a);
        break;
    }
    case 5: u = osc_message_u_allocWithTimetag(addr.p, t_osc_timetag{7, 9}); w.args.push_back(mk_t(7, 9)); break;
    case 6: {
        MAtom a = gen_atom(c, o, 0, 'b');
        Buf s(blobstr(a));
        u = osc_message_u_allocWithBlob(addr.p, s.p);
        w.args.push_back(a);
        break;
    }
    case 7: {
        int n = c.s.size(4);
        t_osc_atom_ar_u *ar = osc_atom_array_u_alloc(n);
        for (int i = 0; i < n; i++) {
            MAtom a = gen_atom(c, o, 1);
            t_osc_atom_u *x = build_atom(a), *d = (t_osc_atom_u *)osc_atom_array_u_get(ar, i);
            osc_atom_u_copyInto(&d, x);
            osc_atom_u_free(x);
            w.args.push_back(a);
        }
        u = osc_message_u_allocWithArray(addr.p, ar);
        osc_atom_array_u_free(ar);
        break;
    }
    case 8: u = osc_message_u_alloc(); osc_message_u_setAddress(u, addr.p); break;
    default: u = osc_message_u_allocWithAddress(addr.p);
    }
    memset(addr.p, 'z', addr.n - 1); // the message has its own address
    if (c.s.below(300) == 299) { // a long one
        int k = c.s.range(100, 700);
        for (int i = 0; i < k; i++) {
            MAtom a = mk_i(i);
            osc_message_u_appendInt32(u, i);
            w.args.push_back(a);
        }
        c.label("long");
    }
    verify(c, u, w, "making the message", false);
    int n = 1 + c.s.size(c.s.chance(10) ? 60 : 12), inserted = 0, removed = 0;
    for (int i = 0; i < n; i++) {
        int op = c.s.weighted({5, 4, 6, 5, 1, 3, 2, 2, 3, 1});
        const char *name = "?";
        switch (op) {
        case 0:
        case 1:
        case 2: {
            MAtom a = gen_atom(c, o, 1);
            int len = (int)w.args.size();
            int pos = c.s.chance(80) ? c.s.range(0, len) : c.s.chance(50) ? len + 1 + (int)c.s.below(3) : -1 - (int)c.s.below(3);
            name = op == 0 ? "append" : op == 1 ? "prepend" : "insert";
            t_osc_atom_u *r;
            if (c.s.chance(70)) {
                r = typed(c, u, a, op, pos);
                CHECK(c, r && read_atom(r) == a, "%s of %s returns another value", name, dump(a).c_str());
            } else {
                r = build_atom(a);
                if (op == 0) osc_message_u_appendAtom(u, r);
                else if (op == 1) osc_message_u_prependAtom(u, r);
                else osc_message_u_insertAtom(u, r, pos);
            }
            int at = op == 0 ? len : op == 1 ? 0 : pos < 0 ? 0 : pos > len ? len : pos;
            w.args.insert(w.args.begin() + at, a);
            if (at > 0 && at < len) inserted++;
            CHECK(c, osc_message_u_getArg(u, at) == r, "%s: the value is not at position %d", name, at);
            break;
        }
        case 3: {
            name = "removeAtom";
            if (w.args.empty()) continue;
            int at = c.s.below(3) == 0 ? (int)w.args.size() - 1 : (int)c.s.below(w.args.size());
            t_osc_atom_u *a = osc_message_u_getArg(u, at);
            CHECK(c, read_atom(a) == w.args[at], "argument %d is %s", at, dump(read_atom(a)).c_str());
            osc_message_u_removeAtom(u, a);
            osc_atom_u_free(a);
            w.args.erase(w.args.begin() + at);
            removed++;
            break;
        }
        case 4:
            name = "clearArgs";
            osc_message_u_clearArgs(u);
            w.args.clear();
            break;
        case 5: {
            std::string a = c.s.chance(50) ? gen_addr(c, o) : w.addr + "/x";
            name = "renaming";
            if (c.s.chance(20)) {
                char *old = nullptr;
                osc_message_u_setAddressPtr(u, dupstr(a), &old);
                CHECK(c, old && w.addr == old, "setAddressPtr hands back %s", old ? old : "(null)");
                free(old);
                w.addr = a;
            } else if (c.s.chance(15)) {
                CHECK(c, osc_message_u_setAddress(u, "noslash") != OSC_ERR_NONE, "an address without a slash is accepted");
            } else if (c.s.chance(15)) { // to the rest of the address it has
                size_t k = c.s.below(w.addr.size());
                while (w.addr[k] != '/') k--;
                CHECK(c, osc_message_u_setAddress(u, osc_message_u_getAddress(u) + k) == OSC_ERR_NONE, "setAddress refuses the rest of its own");
                w.addr = w.addr.substr(k);
            } else {
                Buf b(a + std::string(1, '\0'));
                CHECK(c, osc_message_u_setAddress(u, b.p) == OSC_ERR_NONE, "setAddress refuses %s", a.c_str());
                w.addr = a;
            }
            break;
        }
        case 6: {
            name = "deepCopy";
            t_osc_msg_u *x = c.s.chance(50) ? nullptr : build_msg(gen_msg(c, o, 1));
            osc_message_u_deepCopy(&x, u);
            CHECK(c, read_msg(u) == w, "copying changed the message");
            osc_message_u_free(u);
            u = x;
            break;
        }
        case 7: {
            name = "array copy";
            t_osc_array *ar = osc_message_u_getArgArrayCopy(u);
            CHECK(c, osc_array_getLen(ar) == (long)w.args.size(), "array of %ld arguments", osc_array_getLen(ar));
            for (size_t j = 0; j < w.args.size(); j++)
                CHECK(c, read_atom((t_osc_atom_u *)osc_atom_array_u_get((t_osc_atom_ar_u *)ar, j)) == w.args[j], "array element %zu differs", j);
            if (w.args.size() < 20) {
                osc_message_u_setArgArrayCopy(u, ar); // appends
                std::vector<MAtom> t = w.args;
                w.args.insert(w.args.end(), t.begin(), t.end());
            }
            osc_atom_array_u_free((t_osc_atom_ar_u *)ar);
            break;
        }
        case 8: {
            name = "overwriting an argument";
            if (w.args.empty()) continue;
            int at = (int)c.s.below(w.args.size());
            MAtom a = gen_atom(c, o, 0, c.s.pickc("idsTt")), &was = w.args[at];
            t_osc_atom_u *x = osc_message_u_getArg(u, at);
            if (c.s.chance(20)) { // with what it holds, or a part of it
                a = was;
                t_osc_atom_u *d = x;
                if (was.tt == 's') {
                    size_t k = c.s.below(was.s.size() + 1);
                    osc_atom_u_setString(x, osc_atom_u_getStringPtr(x) + k);
                    a.s = was.s.substr(k);
                } else if (was.tt == 'b') osc_atom_u_setBlob(x, osc_atom_u_getBlob(x));
                else if (was.tt == '.') osc_atom_u_setBndl_u(x, osc_atom_u_getBndl(x));
                else osc_atom_u_copyInto(&d, x);
            } else if (c.s.chance(40)) { // another value is copied into it
                a = gen_atom(c, o, 1);
                t_osc_atom_u *y = build_atom(a), *d = x;
                osc_atom_u_copyInto(&d, y);
                CHECK(c, d == x, "copying into an argument gives another one");
                osc_atom_u_free(y);
            } else switch (a.tt) {
            case 'i': osc_atom_u_setInt32(x, (int32_t)a.i); break;
            case 'd': osc_atom_u_setDouble(x, a.d); break;
            case 's': osc_atom_u_setString(x, a.s.c_str()); break;
            case 'T': osc_atom_u_setTrue(x); break;
            case 't': osc_atom_u_setTimetag(x, t_osc_timetag{a.sec, a.frac}); break;
            }
            w.args[at] = a;
            break;
        }
        case 9: {
            name = "moving an argument";
            if (w.args.size() < 2) continue;
            int at = (int)c.s.below(w.args.size()), to = (int)c.s.below(w.args.size());
            t_osc_atom_u *x = osc_message_u_getArg(u, at);
            MAtom a = w.args[at];
            osc_message_u_removeAtom(u, x);
            w.args.erase(w.args.begin() + at);
            osc_message_u_insertAtom(u, x, to);
            w.args.insert(w.args.begin() + to, a);
            break;
        }
        }
        c.note(strf("%s -> ", name) + dump(w));
        verify(c, u, w, name, i == n - 1 || c.s.chance(10));
    }
    c.nontrivial = inserted > 0 && removed > 0;
    verify(c, u, w, "all operations", true);
    osc_message_u_free(u);
}

namespace pt {
Property property = {
    "P10",
    "sequences of 1-60 edits of one message (made in twelve ways, from bytes and text among them): the typed and untyped append, prepend and insert functions with "
    "every value type and positions below, in and above the range, removal, clearing, renaming, deep copies, array copies, "
    "overwriting (also by copying into them) and moving values. Count, iteration and every index are compared after each step, the bytes at the end. "
    "Non-trivial: something was inserted between two arguments and something was removed",
    {{"operations", 1, ops}},
    {},
    120000, 8000000,
};
}
