// P09: an in-memory bundle is an ordered list of messages under any edits
#include "model.hpp"
using namespace pt;

static void collect(t_osc_msg_u *m, void *ctx) { ((MBundle *)ctx)->push_back(read_msg(m)); }

static void verify(Ctx &c, t_osc_bndl_u *u, const MBundle &w, const char *op, bool deep) {
    CHECK(c, osc_bundle_u_getMsgCount(u) == (int)w.size(), "after %s: count %d, want %zu", op, osc_bundle_u_getMsgCount(u), w.size());
    // walk the links by hand, so that a loop or a short list is seen
    t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u);
    for (size_t i = 0; i < w.size(); i++) {
        CHECK(c, m, "after %s: only %zu messages are linked, want %zu", op, i, w.size());
        char *a = osc_message_u_getAddress(m);
        CHECK(c, a && w[i].addr == a, "after %s: message %zu is %s, want %s", op, i, a ? a : "(null)", w[i].addr.c_str());
        m = osc_message_u_next(m);
    }
    CHECK(c, !m, "after %s: more than %zu messages are linked", op, w.size());
    if (!deep) return;
    MBundle g = read_bundle(u);
    CHECK(c, g == w, "after %s:\n%s\nwant\n%s", op, dump(g).c_str(), dump(w).c_str());
    g.clear();
    osc_bundle_u_getMessagesWithCallback(u, collect, &g);
    CHECK(c, g == w, "after %s: the callback sees\n%s\nwant\n%s", op, dump(g).c_str(), dump(w).c_str());
    t_osc_bndl_s *s = osc_bundle_u_serialize(u);
    std::string b(osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s)), e = enc_bundle(w);
    osc_bundle_s_deepFree(s);
    CHECK(c, b.size() == e.size() && b.substr(0, 8) == e.substr(0, 8) && b.substr(16) == e.substr(16), "after %s: serialises to %s, want %s", op,
          hex(b.data(), b.size()).c_str(), hex(e.data(), e.size()).c_str());
    CHECK(c, osc_bundle_u_getSerializedSize(u) == (long)e.size(), "after %s: announced size %ld, want %zu", op, osc_bundle_u_getSerializedSize(u), e.size());
}
static t_osc_msg_u *nth(t_osc_bndl_u *u, size_t i) {
    t_osc_msg_u *m = osc_bundle_u_getFirstMsg(u);
    while (i--) m = osc_message_u_next(m);
    return m;
}
static void drop(MBundle &w, const std::string &a) {
    MBundle r;
    for (auto &m : w) if (m.addr != a) r.push_back(m);
    w = r;
}
static void ops(Ctx &c) {
    GenOpt o;
    o.max_args = 3;
    o.depth = 1;
    o.max_msgs = 2;
    o.types = "iiisdTtb.NFcH";
    o.max_str = 5;
    std::vector<std::string> pool = {"/a", "/a/b", "/b", "/ab"};
    if (c.s.chance(30)) pool.resize(1);
    MBundle w[2];
    t_osc_bndl_u *u[2] = {osc_bundle_u_alloc(), osc_bundle_u_alloc()};
    int n = 1 + c.s.size(c.s.chance(10) ? 60 : 14), changed = 0, removed = 0;
    auto gen = [&] {
        MMsg m = gen_msg(c, o, 1);
        m.addr = c.s.pick(pool);
        return m;
    };
    for (int k = 0; k < 2; k++)
        if (c.s.chance(30)) {
            for (int i = c.s.size(5); i > 0; i--) w[k].push_back(gen());
            osc_bundle_u_free(u[k]);
            u[k] = come_by_bundle(c, w[k]);
            verify(c, u[k], w[k], "making the bundle", true);
        }
    for (int i = 0; i < n; i++) {
        int k = c.s.chance(15);
        MBundle &v = w[k];
        t_osc_bndl_u *b = u[k];
        int op = c.s.weighted({6, 4, 2, 2, 2, 2, 4, 4, 3, 1, 2, 2, 1});
        const char *name = "?";
        switch (op) {
        case 0: {
            MMsg m = gen();
            name = "addMsg";
            osc_bundle_u_addMsg(b, build_msg(m));
            v.push_back(m);
            break;
        }
        case 1: {
            MMsg m = gen();
            name = "addMsgWithoutDups";
            osc_bundle_u_addMsgWithoutDups(b, build_msg(m));
            removed += v.size();
            drop(v, m.addr);
            removed -= v.size();
            v.push_back(m);
            break;
        }
        case 2: {
            MMsg m = gen();
            name = "addMsgCopy";
            if (!v.empty() && c.s.chance(25)) { // of one that it has already
                size_t j = c.s.below(v.size());
                m = v[j];
                osc_bundle_u_addMsgCopy(b, nth(b, j));
                v.push_back(m);
                break;
            }
            t_osc_msg_u *x = build_msg(m);
            osc_bundle_u_addMsgCopy(b, x);
            osc_message_u_appendInt32(x, 77); // the copy must not notice
            osc_message_u_free(x);
            v.push_back(m);
            break;
        }
        case 3: {
            MMsg m = gen();
            name = "addMsgWithoutDupsCopy";
            if (!v.empty() && c.s.chance(25)) { // of one that it has already
                size_t j = c.s.below(v.size());
                m = v[j];
                osc_bundle_u_addMsgWithoutDupsCopy(b, nth(b, j));
                removed += v.size();
                drop(v, m.addr);
                removed -= v.size();
                v.push_back(m);
                break;
            }
            t_osc_msg_u *x = build_msg(m);
            osc_bundle_u_addMsgWithoutDupsCopy(b, x);
            CHECK(c, read_msg(x) == m, "addMsgWithoutDupsCopy changed its argument");
            osc_message_u_free(x);
            removed += v.size();
            drop(v, m.addr);
            removed -= v.size();
            v.push_back(m);
            break;
        }
        case 4: {
            name = "addMsgArrayCopy";
            int q = c.s.chance(4) ? c.s.below(40) : c.s.size(3);
            t_osc_msg_ar_u *ar = osc_message_array_u_alloc(q);
            for (int j = 0; j < q; j++) {
                MMsg m = gen();
                t_osc_msg_u *x = build_msg(m), *d = osc_message_array_u_get(ar, j);
                osc_message_u_deepCopy(&d, x);
                osc_message_u_free(x);
                v.push_back(m);
            }
            osc_bundle_u_addMsgArrayCopy(b, ar);
            osc_message_array_u_free(ar);
            break;
        }
        case 5: {
            name = "addMsgList";
            int q = c.s.chance(4) ? c.s.below(40) : c.s.size(3);
            t_osc_msg_u *head = nullptr;
            for (int j = 0; j < q; j++) {
                MMsg m = gen();
                t_osc_msg_u *x = build_msg(m);
                if (!head) head = x;
                else osc_message_u_append(head, x);
                v.push_back(m);
            }
            osc_bundle_u_addMsgList(b, head);
            break;
        }
        case 6: {
            name = "replaceMessage";
            MMsg m = gen();
            osc_bundle_u_replaceMessage(b, build_msg(m));
            size_t j = 0;
            while (j < v.size() && v[j].addr != m.addr) j++;
            if (j < v.size()) v[j] = m, changed++;
            else v.push_back(m);
            break;
        }
        case 7: {
            name = "removeMsg";
            if (v.empty()) continue;
            size_t j = c.s.below(3) == 0 ? v.size() - 1 : c.s.below(v.size());
            t_osc_msg_u *x = nth(b, j);
            osc_bundle_u_removeMsg(b, x);
            CHECK(c, read_msg(x) == v[j], "removeMsg changed the message");
            osc_message_u_free(x);
            v.erase(v.begin() + j);
            removed++;
            break;
        }
        case 8: {
            name = "removeMessage";
            std::string a = c.s.pick(pool);
            if (!v.empty() && c.s.chance(30)) { // by the address of one of its messages
                size_t j = c.s.below(v.size());
                a = v[j].addr;
                osc_bundle_u_removeMessage(b, osc_message_u_getAddress(nth(b, j)));
            } else osc_bundle_u_removeMessage(b, a.c_str());
            removed += v.size();
            drop(v, a);
            removed -= v.size();
            break;
        }
        case 9:
            name = "clear";
            osc_bundle_u_clear(b);
            v.clear();
            break;
        case 10: {
            name = "copy";
            t_osc_bndl_u *x = nullptr;
            osc_bundle_u_copy(&x, u[1 - k]);
            CHECK(c, x, "no copy");
            osc_bundle_u_free(b);
            u[k] = b = x;
            v = w[1 - k];
            break;
        }
        case 11: {
            name = "editing a message of the bundle";
            if (v.empty()) continue;
            size_t j = c.s.below(v.size());
            t_osc_msg_u *x = nth(b, j);
            if (c.s.chance(25)) { // another message is copied into it
                MMsg m = gen();
                t_osc_msg_u *y = build_msg(m), *d = x;
                CHECK(c, osc_message_u_deepCopy(&d, y) == OSC_ERR_NONE && d == x, "deepCopy into a message gives another one");
                osc_message_u_free(y);
                v[j] = m;
            } else if (c.s.chance(50)) {
                MAtom a = gen_atom(c, o, 0);
                osc_message_u_appendAtom(x, build_atom(a));
                v[j].args.push_back(a);
            } else {
                v[j].addr = c.s.pick(pool);
                osc_message_u_setAddress(x, v[j].addr.c_str());
            }
            changed++;
            break;
        }
        case 12:
            name = "adding nothing";
            osc_bundle_u_addMsg(b, nullptr);
            osc_bundle_u_addMsgList(b, nullptr);
            osc_bundle_u_addMsgArrayCopy(b, nullptr);
            osc_bundle_u_addMsgCopy(b, nullptr);
            osc_bundle_u_removeMsg(b, nullptr);
            break;
        }
        c.note(strf("%s on bundle %d -> ", name, k) + dump(v));
        verify(c, u[k], v, name, false);
        verify(c, u[1 - k], w[1 - k], name, false);
    }
    c.nontrivial = removed > 0 && w[0].size() >= 2;
    if (changed) c.label("replaced or edited in place");
    for (int k = 0; k < 2; k++) verify(c, u[k], w[k], "all operations", true);
    osc_bundle_u_free(u[0]);
    verify(c, u[1], w[1], "freeing the other bundle", true);
    osc_bundle_u_free(u[1]);
}

namespace pt {
Property property = {
    "P09",
    "sequences of 1-60 edits (add, add without repeats, copying variants, arrays, lists, replace, remove by message and by "
    "address, clear, copy of the other bundle, edits of linked messages) over two bundles and a pool of one to four addresses, made by hand, from bytes or from text. "
    "Links and counts are compared after every step, contents and bytes at the end. Non-trivial: something was removed and "
    "two or more messages remain",
    {{"operations", 1, ops}},
    {"every message in the bundle has an address"},
    130000, 8000000,
};
}
