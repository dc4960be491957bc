// A small property-based testing engine: every case is a pure function of a sequence of choices.
//  * random generation from VERIF_SEED, and coverage-guided mutation of earlier choice sequences
//  * each worker is a forked process, so that a crash, a hang or a sanitizer report is a failure of one case
//  * a failing choice sequence is replayed three times in fresh processes, then shrunk, then written as a replay file
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace pt {

struct Fail { std::string msg; };
struct Discard {};

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void *p, size_t n);
std::string show(const std::string &s); // printable, quoted

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1);
    uint64_t next();
};

uint64_t mix(uint64_t a, uint64_t b);

class Src {
  public:
    // choices come from `in` first, then from rng (fresh == true) or are 0
    const std::vector<uint64_t> *in = nullptr;
    size_t pos = 0;
    bool fresh = false;
    Rng rng;
    uint64_t *rec = nullptr; // where consumed choices are recorded
    uint64_t *nrec = nullptr;
    uint64_t cap = 0;
    bool overflow = false;

    uint64_t raw(uint64_t n); // in [0, n), n == 0: any 64-bit value

    // ---- what generators use
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : raw(n); }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); } // inclusive; shrinks to lo
    // the same, with a few percent of the draws (pm per thousand) well beyond hi, around the sizes where buffers double
    int count(int lo, int hi, int pm = 7) {
        static const int BIG[] = {16, 17, 18, 15, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300};
        if ((int)below(1000) < 1000 - pm) return range(lo, hi);
        int n = BIG[below(sizeof BIG / sizeof *BIG)];
        return n > hi ? n : hi;
    }
    bool chance(int pct) { return (int)below(100) >= 100 - pct; }                  // shrinks to false
    uint64_t u64() { return raw(0); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    char pickc(const char *s) { return s[below(strlen(s))]; }
    // weighted choice: index, shrinks to 0
    int weighted(std::initializer_list<int> w) {
        int t = 0;
        for (int x : w) t += x;
        int r = (int)below(t), i = 0;
        for (int x : w) {
            if (r < x) return i;
            r -= x;
            i++;
        }
        return 0;
    }
    // size-ish: 0..max, small values more likely
    int size(int max) {
        if (max <= 0) return 0;
        int a = (int)below(max + 1), b = (int)below(max + 1);
        return a < b ? a : b;
    }
};

class Ctx {
  public:
    Src &s;
    bool verbose;
    std::string desc;
    bool nontrivial = false;
    std::vector<const char *> labels;
    Ctx(Src &s_, bool v) : s(s_), verbose(v) {}
    void label(const char *l) { labels.push_back(l); }
    void note(const std::string &t) {
        if (verbose) { desc += t; desc += "\n"; }
        static FILE *trace = getenv("PT_TRACE") ? fopen(getenv("PT_TRACE"), "a") : nullptr; // debugging aid
        if (trace) fprintf(trace, "trace: %s\n", t.c_str()), fflush(trace);
    }
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Sub {
    const char *name;
    int weight;
    void (*fn)(Ctx &);
};

// a listed finding: `probe` reproduces it on the real code. It returns true while the defect is there.
struct Probe {
    const char *key;   // the key in known_findings.txt
    bool (*probe)();
};

struct Property {
    const char *id;
    const char *rule;
    std::vector<Sub> subs;
    std::vector<const char *> assumptions;
    long quick_cases;    // over all workers
    long thorough_cases;
    std::vector<Probe> probes;
    int cpu_limit_s = 10; // per case
    void (*init)() = nullptr; // run once in each process before cases
};

extern Property property; // defined by the module

int run_main(int argc, char **argv);

// live heap blocks allocated while tracking is on (sanitizer malloc hooks)
struct HeapTrack {
    static void on();
    static void off();
    static long live();      // blocks allocated since reset() while on, and not freed
    static long live_bytes();
    static void reset();
};

} // namespace pt

#define CHECK(c, cond, ...)                                                                                            \
    do {                                                                                                               \
        if (!(cond)) (c).fail(__VA_ARGS__);                                                                            \
    } while (0)
