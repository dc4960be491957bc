// P25: the vtable
#include "model.hpp"
using namespace pt;

struct Call { int m; std::string sel; void *ctx; long len; char *b; t_osc_bndl_s *p, *q; };
static std::vector<Call> calls;
template <int N> static void meth(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *q, void *ctx) {
    calls.push_back({N, osc_vtable_entry_getSelector(e), ctx, len, b, p, q});
}
static const t_osc_vtable_method M[] = {meth<0>, meth<1>, meth<2>, meth<3>};
static std::vector<std::pair<void *, t_osc_bndl_s *>> dels;
static void del(long, char *, t_osc_bndl_s *u, void *ctx) { dels.push_back({ctx, u}); }
struct E { std::string sel; int m; void *ctx; };

static void ops(Ctx &c) {
    std::vector<std::string> pool;
    int np = c.s.chance(15) ? 60 : c.s.range(1, 8), style = c.s.below(3);
    for (int i = 0; i < np; i++)
        pool.push_back(style == 0 ? strf("/%c%c", 'a' + i % 5, 'b' + i % 3) : style == 1 ? "/" + std::string(1 + i, 'a') : strf("/sel/%d", i));
    static int slots[1000];
    int cap = c.s.below(5);
    t_osc_vtable *v = osc_vtable_alloc(cap);
    std::vector<E> w;
    auto find = [&](const std::string &s) {
        for (size_t i = 0; i < w.size(); i++) if (w[i].sel == s) return (int)i;
        return -1;
    };
    int n = 1 + c.s.size(c.s.chance(10) ? 120 : 20), grown = 0, renamed = 0;
    void *dctx = nullptr;
    bool hasdel = false;
    for (int i = 0; i < n; i++) {
        std::string s = c.s.pick(pool);
        Buf k(s + std::string(1, '\0'));
        int at = find(s), m = c.s.below(4);
        char *kp = k.p;
        if (at >= 0 && c.s.chance(25)) kp = osc_vtable_entry_getSelector(osc_vtable_getEntryBySelector(v, k.p)); // the entry's own
        void *ctx = c.s.chance(12) ? nullptr : &slots[c.s.below(1000)];
        const char *name = "?";
        switch (c.s.weighted({8, 2, 2, 4, 4, 2, 1})) {
        case 0:
            name = "addEntry";
            CHECK(c, osc_vtable_addEntry(v, kp, M[m], ctx) == OSC_ERR_NONE, "addEntry fails");
            if (at >= 0) w[at].m = m, w[at].ctx = ctx;
            else {
                w.push_back({s, m, ctx});
                if ((int)w.size() > cap) grown++;
            }
            break;
        case 1:
            name = "rebindSelector";
            CHECK(c, (osc_vtable_rebindSelector(v, kp, M[m]) == OSC_ERR_NONE) == (at >= 0), "rebindSelector(%s)", s.c_str());
            if (at >= 0) w[at].m = m;
            break;
        case 2:
            name = "rebindSelectorWithContext";
            CHECK(c, (osc_vtable_rebindSelectorWithContext(v, kp, M[m], ctx) == OSC_ERR_NONE) == (at >= 0), "rebindSelectorWithContext(%s)", s.c_str());
            if (at >= 0) w[at].m = m, w[at].ctx = ctx;
            break;
        case 3: {
            name = "renameEntry";
            std::string t = c.s.below(3) ? c.s.pick(pool) : s + std::string(1 + c.s.below(4), 'z');
            if (find(t) >= 0 && t != s) continue; // onto another entry: no agreed meaning
            size_t rest = s.rfind('/');
            bool own = kp != k.p && rest && rest != std::string::npos && find(s.substr(rest)) < 0 && c.s.chance(50);
            if (own) t = s.substr(rest); // to a part of itself
            Buf nk(t + std::string(1, '\0'));
            c.note("to " + t);
            CHECK(c, (osc_vtable_renameEntry(v, kp, own ? kp + rest : nk.p) == OSC_ERR_NONE) == (at >= 0), "renameEntry(%s, %s)", s.c_str(), t.c_str());
            memset(nk.p, 'q', nk.n - 1);
            if (at >= 0) w[at].sel = t, renamed += t != s;
            break;
        }
        case 4: {
            name = "call";
            t_osc_bndl_s *p = (t_osc_bndl_s *)&slots[1], *q = (t_osc_bndl_s *)&slots[2];
            calls.clear();
            int r = osc_vtable_call(v, k.p, 17, (char *)&slots[3], p, q);
            CHECK(c, (r == 0) == (at >= 0), "call(%s) gives %d", s.c_str(), r);
            CHECK(c, calls.size() == (at >= 0), "call(%s) reaches %zu methods", s.c_str(), calls.size());
            if (at >= 0) {
                Call &x = calls[0];
                CHECK(c, x.m == w[at].m && x.ctx == w[at].ctx && x.sel == s && x.len == 17 && x.b == (char *)&slots[3] && x.p == p && x.q == q,
                      "call(%s) reaches method %d of %s with other arguments", s.c_str(), x.m, x.sel.c_str());
            }
            break;
        }
        case 5:
            name = "delegate";
            dels.clear();
            osc_vtable_delegate(v, 0, nullptr, (t_osc_bndl_s *)&slots[5]);
            CHECK(c, dels.size() == hasdel, "the delegation method is called %zu times", dels.size());
            if (hasdel) CHECK(c, dels[0].first == dctx && dels[0].second == (t_osc_bndl_s *)&slots[5], "delegation with other arguments");
            break;
        case 6:
            name = "setDelegationMethod";
            hasdel = c.s.chance(80);
            dctx = ctx;
            osc_vtable_setDelegationMethod(v, hasdel ? del : nullptr, dctx);
            break;
        }
        memset(k.p, 'w', k.n - 1); // the table has its own names
        c.note(strf("%s %s", name, s.c_str()));
        CHECK(c, osc_vtable_getNumEntries(v) == (int)w.size(), "after %s: %d entries, want %zu", name, osc_vtable_getNumEntries(v), w.size());
        CHECK(c, osc_vtable_getNumSlots(v) >= (int)w.size(), "after %s: %d slots", name, osc_vtable_getNumSlots(v));
        for (size_t j = 0; j < w.size(); j++) {
            t_osc_vtable_entry *e = osc_vtable_getEntryByIndex(v, (int)j);
            Buf q(w[j].sel + std::string(1, '\0'));
            CHECK(c, e && osc_vtable_entry_getSelector(e) == w[j].sel, "after %s: entry %zu is %s, want %s", name, j, e ? osc_vtable_entry_getSelector(e) : "-",
                  w[j].sel.c_str());
            CHECK(c, osc_vtable_getEntryBySelector(v, q.p) == e, "after %s: %s finds another entry", name, q.p);
            CHECK(c, osc_vtable_getIndexForEntry(v, e) == (int)j && osc_vtable_getIndexForSelector(v, q.p) == (int)j, "after %s: index of %s", name, q.p);
            calls.clear();
            osc_vtable_callWithEntry(v, e, 0, nullptr, nullptr, nullptr);
            CHECK(c, calls.size() == 1 && calls[0].m == w[j].m && calls[0].ctx == w[j].ctx, "after %s: entry %s has another method or context", name, q.p);
        }
        CHECK(c, !osc_vtable_getEntryByIndex(v, (int)w.size()), "after %s: an entry out of range", name);
        for (auto &p : pool)
            if (find(p) < 0) {
                Buf q(p + std::string(1, '\0'));
                CHECK(c, !osc_vtable_getEntryBySelector(v, q.p) && osc_vtable_getIndexForSelector(v, q.p) == -1, "after %s: %s is found", name, q.p);
            }
    }
    c.nontrivial = grown > 0 && (renamed > 0 || w.size() > 3);
    osc_vtable_free(v);
}

namespace pt {
Property property = {
    "P25",
    "sequences of 1-120 additions, re-additions, rebindings, renamings, calls and delegations over pools of 1-60 selectors, in tables "
    "made for 0-4 entries; every entry is looked up and called after each step. Non-trivial: the table grew and an entry was renamed "
    "or four or more exist",
    {{"operations", 1, ops}},
    {"an entry is not renamed onto another entry's name"},
    60000, 6000000,
};
}
