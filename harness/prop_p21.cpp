// P21: the hash table is a map
#include "model.hpp"
#include <map>
#include <set>
using namespace pt;

struct Val { int id; };
struct Dropped { std::string key; void *val; char *ptr; };
static std::vector<Dropped> dropped;
static void dtor(char *k, void *v) {
    HeapTrack::off();
    dropped.push_back({k, v, k});
    HeapTrack::on();
}
static void dtor2(char *k, void *v) {
    HeapTrack::off();
    dropped.push_back({std::string("2") + k, v, k});
    HeapTrack::on();
}
static std::unique_ptr<Buf> *doomed;
static void dtor_frees(char *k, void *v) { // the entry's key goes with it
    HeapTrack::off();
    dropped.push_back({std::string("3") + k, v, k});
    doomed->reset();
    HeapTrack::on();
}
struct Seen { std::vector<std::pair<std::string, void *>> v; };
static void visit(char *k, void *v, void *ctx) { ((Seen *)ctx)->v.push_back({k, v}); }

// the library's hash leaves room for strings that collide on purpose: "ab" shifts: c1 * 16 + c2
static std::string key(Ctx &c, const std::vector<std::string> &pool) { return c.s.pick(pool); }

static void ops(Ctx &c) {
    std::vector<std::string> pool;
    int style = c.s.below(4), np = c.s.chance(10) ? 200 : c.s.range(1, 14);
    for (int i = 0; i < np; i++) {
        std::string k;
        if (style == 0) { // sums of the same value: full collisions
            int d = (int)c.s.below(5);
            k = {(char)('f' + d), (char)('z' - 16 * d < 1 ? 'z' : 'z' - 16 * d)};
            if (c.s.chance(40)) k += 'x';
        } else if (style == 1) k = strf("k%d", i);
        else if (style == 2) k = std::string(c.s.size(20), "ab"[c.s.below(2)]);
        else {
            int l = c.s.size(12);
            for (int j = 0; j < l; j++) k += (char)(1 + c.s.below(255));
        }
        pool.push_back(k);
    }
    int nslots = c.s.weighted({3, 1, 1, 1}) == 0 ? c.s.range(1, 40) : c.s.pick(std::vector<int>{0, -3, 16, 17, 541, 1000, 3000});
    bool own = c.s.chance(80);
    dropped.clear();
    HeapTrack::reset();
    HeapTrack::on();
    t_osc_hashtab *ht = osc_hashtab_new(nslots, own ? dtor : nullptr);
    HeapTrack::off();
    CHECK(c, ht, "no table for %d slots", nslots);
    std::map<std::string, void *> w;
    std::vector<std::unique_ptr<Val>> vals;
    std::map<std::string, std::unique_ptr<Buf>> keys; // the table stores the pointers; they live as long as their entries
    std::vector<std::unique_ptr<Buf>> passed;         // keys that are of no more use at the end of an operation
    int n = 1 + c.s.size(c.s.chance(10) ? 300 : 40), replaced = 0, removed = 0;
    for (int i = 0; i < n; i++) {
        std::string k = key(c, pool);
        std::unique_ptr<Buf> kb(new Buf(k + std::string(1, '\0')));
        char *kp = kb->p;
        dropped.clear();
        passed.clear();
        const char *name = "?";
        std::vector<Dropped> want;
        auto it = w.find(k);
        void *now = nullptr;
        switch (c.s.weighted({8, 4, 5, 5, 1, 2})) {
        case 0:
            name = "store";
            if (it != w.end() && c.s.chance(15)) now = it->second; // the value it has
            else vals.emplace_back(new Val{i}), now = vals.back().get();
            HeapTrack::on();
            osc_hashtab_store(ht, (int)k.size(), kp, now);
            HeapTrack::off();
            if (it != w.end()) {
                replaced++;
                if (own) want.push_back({k, it->second, keys[k]->p});
                passed.push_back(std::move(keys[k]));
            }
            w[k] = now;
            keys[k] = std::move(kb);
            break;
        case 1:
            name = "storeSafe";
            vals.emplace_back(new Val{i});
            HeapTrack::on();
            osc_hashtab_storeSafe(ht, (int)k.size(), kp, vals.back().get());
            HeapTrack::off();
            if (it == w.end()) w[k] = vals.back().get(), keys[k] = std::move(kb);
            break;
        case 2: {
            name = "remove";
            int how = c.s.below(it != w.end() ? 4 : 3);
            char *stored = it != w.end() ? keys[k]->p : nullptr;
            if (stored && c.s.chance(40)) kp = stored; // by the very key that is in the table
            if (how == 3) doomed = &keys[k];
            HeapTrack::on();
            osc_hashtab_remove(ht, (int)k.size(), kp, how == 0 ? nullptr : how == 1 ? dtor : how == 2 ? dtor2 : dtor_frees);
            HeapTrack::off();
            if (it != w.end()) {
                removed++;
                if (how == 1) want.push_back({k, it->second, stored});
                if (how == 2) want.push_back({"2" + k, it->second, stored});
                if (how == 3) want.push_back({"3" + k, it->second, stored});
                w.erase(it);
                passed.push_back(std::move(keys[k]));
                keys.erase(k);
            }
            break;
        }
        case 3: name = "lookup"; break;
        case 4:
            name = "clear";
            if (!c.s.chance(30)) continue;
            HeapTrack::on();
            osc_hashtab_clear(ht);
            HeapTrack::off();
            if (own) for (auto &x : w) want.push_back({x.first, x.second, keys[x.first]->p});
            for (auto &x : keys) passed.push_back(std::move(x.second));
            keys.clear();
            w.clear();
            break;
        case 5: {
            name = "foreach";
            Seen s;
            osc_hashtab_foreach(ht, visit, &s);
            CHECK(c, s.v.size() == w.size(), "foreach visits %zu entries, want %zu", s.v.size(), w.size());
            std::map<std::string, void *> g(s.v.begin(), s.v.end());
            CHECK(c, g == w, "foreach visits other entries");
            break;
        }
        }
        c.note(strf("%s %s", name, show(k).c_str()));
        CHECK(c, dropped.size() == want.size(), "%s: the destructor ran %zu times, want %zu", name, dropped.size(), want.size());
        for (auto &x : want) {
            int hits = 0;
            for (auto &d : dropped) hits += d.key == x.key && d.val == x.val && d.ptr == x.ptr;
            CHECK(c, hits == 1, "%s: entry %s dropped %d times", name, show(x.key).c_str(), hits);
        }
        passed.clear();
        for (auto &p : {k, pool[c.s.below(pool.size())]}) {
            Buf q(p + std::string(1, '\0'));
            void *g = osc_hashtab_lookup(ht, (int)p.size(), q.p), *e = w.count(p) ? w[p] : nullptr;
            CHECK(c, g == e, "after %s: %s finds %d, want %d", name, show(p).c_str(), g ? ((Val *)g)->id : -1, e ? ((Val *)e)->id : -1);
        }
    }
    for (auto &p : pool) {
        Buf q(p + std::string(1, '\0'));
        void *g = osc_hashtab_lookup(ht, (int)p.size(), q.p), *e = w.count(p) ? w[p] : nullptr;
        CHECK(c, g == e, "at the end: %s finds %d, want %d", show(p).c_str(), g ? ((Val *)g)->id : -1, e ? ((Val *)e)->id : -1);
    }
    Seen s;
    osc_hashtab_foreach(ht, visit, &s);
    std::map<std::string, void *> g(s.v.begin(), s.v.end());
    CHECK(c, s.v.size() == w.size() && g == w, "at the end: foreach visits other entries");
    c.nontrivial = replaced > 0 && removed > 0;
    dropped.clear();
    HeapTrack::on();
    osc_hashtab_destroy(ht);
    HeapTrack::off();
    CHECK(c, HeapTrack::live() == 0, "%ld blocks of the table are left", HeapTrack::live());
    CHECK(c, dropped.size() == (own ? w.size() : 0), "destroy: the destructor ran %zu times, want %zu", dropped.size(), w.size());
    if (own) for (auto &d : dropped) CHECK(c, w.count(d.key) && w[d.key] == d.val && keys[d.key]->p == d.ptr, "destroy dropped %s", show(d.key).c_str());
}

namespace pt {
Property property = {
    "P21",
    "sequences of 1-300 stores, safe stores, removals (with no, the table's or another destructor), lookups, iterations and clears "
    "over pools of 1-200 keys that collide in the hash, share prefixes, are empty or use every byte, in tables of 17 slots and more. "
    "Non-trivial: a value was replaced and one was removed",
    {{"operations", 1, ops}},
    {"the caller keeps the key alive (the table stores the pointer)"},
    150000, 10000000,
};
}
