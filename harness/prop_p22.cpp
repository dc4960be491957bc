// P22: the linked list is a sequence
#include "model.hpp"
#include <deque>
using namespace pt;

struct V { int id; };
static std::vector<V *> dropped;
static void dtor(void *d) { dropped.push_back((V *)d); }
static std::vector<std::unique_ptr<V>> store;
static void copy(void **d, void *s) {
    store.emplace_back(new V{((V *)s)->id + 1000});
    *d = store.back().get();
}
struct Walk { std::vector<std::pair<int, V *>> v; };
static void visit(void *ctx, int i, void *d) { ((Walk *)ctx)->v.push_back({i, (V *)d}); }
static std::string ids(const std::deque<V *> &w) {
    std::string r;
    for (auto *v : w) r += std::to_string(v->id) + " ";
    return r;
}
static void verify(Ctx &c, t_osc_linkedlist *l, const std::deque<V *> &w, const char *op) {
    CHECK(c, osc_linkedlist_getCount(l) == w.size(), "after %s: count %lu, want %zu", op, osc_linkedlist_getCount(l), w.size());
    CHECK(c, osc_linkedlist_peekHead(l) == (w.empty() ? nullptr : w.front()), "after %s: another head", op);
    CHECK(c, osc_linkedlist_peekTail(l) == (w.empty() ? nullptr : w.back()), "after %s: another tail", op);
    Walk k;
    osc_linkedlist_iterate(l, visit, &k);
    CHECK(c, k.v.size() == w.size() + 1, "after %s: %zu calls, want %zu", op, k.v.size(), w.size() + 1);
    for (size_t i = 0; i < w.size(); i++)
        CHECK(c, k.v[i].first == (int)i && k.v[i].second == w[i], "after %s: call %zu has index %d and element %d, want element %d", op, i, k.v[i].first,
              k.v[i].second ? k.v[i].second->id : -1, w[i]->id);
    CHECK(c, k.v.back().first == -1 && !k.v.back().second, "after %s: no final call", op);
    for (size_t i = 0; i < w.size(); i++) {
        V *v = (V *)osc_linkedlist_peekNth(l, (int)i);
        CHECK(c, v == w[i], "after %s: element %zu is %d, want %d", op, i, v ? v->id : -1, w[i]->id);
    }
    CHECK(c, osc_linkedlist_peekNth(l, -1) == (w.empty() ? nullptr : w.back()), "after %s: element -1 is not the last", op);
    CHECK(c, !osc_linkedlist_peekNth(l, (int)w.size()) && !osc_linkedlist_peekNth(l, (int)w.size() + 5) && !osc_linkedlist_peekNth(l, -2 - (int)w.size()),
          "after %s: an element out of range", op);
}
// the list may lose the element that is being visited
struct Eat { t_osc_linkedlist *l; int upto; Walk w; std::vector<V *> popped; };
static void eat(void *ctx, int i, void *d) {
    Eat *e = (Eat *)ctx;
    e->w.v.push_back({i, (V *)d});
    if (i >= 0 && i < e->upto) e->popped.push_back((V *)osc_linkedlist_popHead(e->l));
}
static void ops(Ctx &c) {
    store.clear();
    dropped.clear();
    bool own = c.s.chance(75);
    t_osc_linkedlist *l = osc_linkedlist_new(own ? dtor : nullptr);
    std::deque<V *> w;
    int n = 1 + c.s.size(c.s.chance(10) ? 150 : 25), mid = 0, id = 0;
    bool cloned = false;
    for (int i = 0; i < n; i++) {
        const char *name = "?";
        dropped.clear();
        std::vector<V *> want;
        switch (c.s.weighted({12, 10, 4, 4, 10, 2, 2, 2, 1})) {
        case 0:
            name = "append";
            store.emplace_back(new V{id++});
            osc_linkedlist_append(l, store.back().get());
            w.push_back(store.back().get());
            break;
        case 1:
            name = "prepend";
            store.emplace_back(new V{id++});
            osc_linkedlist_prepend(l, store.back().get());
            w.push_front(store.back().get());
            break;
        case 2: {
            name = "popHead";
            V *v = (V *)osc_linkedlist_popHead(l);
            CHECK(c, v == (w.empty() ? nullptr : w.front()), "popHead gives %d", v ? v->id : -1);
            if (v) w.pop_front();
            break;
        }
        case 3: {
            name = "popTail";
            V *v = (V *)osc_linkedlist_popTail(l);
            CHECK(c, v == (w.empty() ? nullptr : w.back()), "popTail gives %d", v ? v->id : -1);
            if (v) w.pop_back();
            break;
        }
        case 4: {
            name = "popNth";
            int k = c.s.range(-1, (int)w.size() + 1);
            if (c.s.chance(10)) k = -2 - (int)c.s.below(3);
            V *v = (V *)osc_linkedlist_popNth(l, k), *e = nullptr;
            int at = k == -1 ? (int)w.size() - 1 : k;
            if (at >= 0 && at < (int)w.size()) e = w[at];
            CHECK(c, v == e, "popNth(%d) of %s gives %d, want %d", k, ids(w).c_str(), v ? v->id : -1, e ? e->id : -1);
            if (e) {
                mid += at > 0 && at + 1 < (int)w.size();
                w.erase(w.begin() + at);
            }
            break;
        }
        case 5:
            name = "clear";
            osc_linkedlist_clear(l);
            if (own) want.assign(w.begin(), w.end());
            w.clear();
            break;
        case 6: {
            name = "clone";
            t_osc_linkedlist *k = osc_linkedlist_clone(l, copy);
            std::deque<V *> e;
            Walk t;
            osc_linkedlist_iterate(k, visit, &t);
            CHECK(c, t.v.size() == w.size() + 1, "the clone has %zu elements, want %zu", t.v.size() - 1, w.size());
            for (size_t j = 0; j < w.size(); j++) {
                CHECK(c, t.v[j].second->id == w[j]->id + 1000, "element %zu of the clone is a copy of %d", j, t.v[j].second->id - 1000);
                e.push_back(t.v[j].second);
            }
            verify(c, k, e, "clone");
            verify(c, l, w, "clone (original)");
            if (c.s.chance(50)) std::swap(l, k), std::swap(w, e); // carry on with the clone
            dropped.clear();
            osc_linkedlist_destroy(k);
            if (own) want.assign(e.begin(), e.end());
            cloned = true;
            break;
        }
        case 7:
            name = "adding nothing";
            osc_linkedlist_append(l, nullptr);
            osc_linkedlist_prepend(l, nullptr);
            break;
        case 8: {
            name = "popping while iterating";
            Eat t{l, c.s.below(w.size() + 1), {}, {}};
            osc_linkedlist_iterate(l, eat, &t);
            CHECK(c, t.w.v.size() == w.size() + 1, "%s: %zu calls, want %zu", name, t.w.v.size(), w.size() + 1);
            for (size_t j = 0; j < w.size(); j++) CHECK(c, t.w.v[j].first == (int)j && t.w.v[j].second == w[j], "%s: call %zu has index %d and element %d", name, j, t.w.v[j].first, t.w.v[j].second ? t.w.v[j].second->id : -1);
            for (int j = 0; j < t.upto; j++) {
                CHECK(c, t.popped[j] == w.front(), "%s: pop %d gives another element", name, j);
                w.pop_front();
            }
            break;
        }
        }
        c.note(strf("%s -> ", name) + ids(w));
        CHECK(c, dropped == want, "%s: the destructor ran for %zu elements, want %zu, in order", name, dropped.size(), want.size());
        verify(c, l, w, name);
    }
    c.nontrivial = mid > 0 && w.size() > 1;
    if (cloned) c.label("cloned");
    dropped.clear();
    osc_linkedlist_destroy(l);
    CHECK(c, dropped == (own ? std::vector<V *>(w.begin(), w.end()) : std::vector<V *>()), "destroy: the destructor ran %zu times, want %zu", dropped.size(),
          own ? w.size() : 0);
}

namespace pt {
Property property = {
    "P22",
    "sequences of 1-150 appends, prepends, pops at either end and at any index (in range, -1, out of range), clears, clones and "
    "iterations (some of which pop the element being visited), with and without a destructor; every index is compared after each step. Non-trivial: an element in the middle was "
    "popped and two or more remain",
    {{"operations", 1, ops}},
    {"index -1 is the last element; absent data is not stored"},
    300000, 20000000,
};
}
