#include "pt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

// ---------------------------------------------------------------- coverage
static uint8_t *g_cov_begin[512], *g_cov_end[512];
static int g_ncov = 0;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e) {
    for (int i = 0; i < g_ncov; i++)
        if (g_cov_begin[i] == b) return;
    if (g_ncov < 512 && b < e) {
        g_cov_begin[g_ncov] = b;
        g_cov_end[g_ncov++] = e;
    }
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}

// ---------------------------------------------------------------- heap tracking
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
                                                         void (*)(const volatile void *));
namespace pt {
static const size_t HT_SIZE = 1 << 20;
static uintptr_t *ht_key;
static uint32_t *ht_val;
static bool ht_on = false, ht_busy = false;
static long ht_live = 0, ht_bytes = 0;
static std::vector<size_t> *ht_used;
static size_t ht_slot(uintptr_t k) {
    size_t i = (k >> 4) * 0x9E3779B97F4A7C15ull >> 44;
    while (ht_key[i] && ht_key[i] != k) i = (i + 1) & (HT_SIZE - 1);
    return i;
}
static void hook_malloc(const volatile void *p, size_t n) {
    if (!ht_on || ht_busy || !p) return;
    ht_busy = true;
    size_t i = ht_slot((uintptr_t)p);
    if (!ht_key[i]) {
        ht_key[i] = (uintptr_t)p;
        ht_used->push_back(i);
    }
    if (!ht_val[i]) {
        ht_live++;
        ht_bytes += n;
    }
    ht_val[i] = (uint32_t)n + 1;
    ht_busy = false;
}
static void hook_free(const volatile void *p) {
    if (!ht_key || ht_busy || !p || !ht_live) return;
    size_t i = ht_slot((uintptr_t)p);
    if (ht_key[i] && ht_val[i]) {
        ht_live--;
        ht_bytes -= ht_val[i] - 1;
        ht_val[i] = 0; // keep the key as a tombstone until reset
    }
}
void HeapTrack::on() {
    if (!ht_key) {
        ht_key = (uintptr_t *)mmap(0, HT_SIZE * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        ht_val = (uint32_t *)mmap(0, HT_SIZE * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        ht_used = new std::vector<size_t>;
        ht_used->reserve(HT_SIZE / 2);
        __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
    }
    ht_on = true;
}
void HeapTrack::off() { ht_on = false; }
long HeapTrack::live() { return ht_live; }
long HeapTrack::live_bytes() { return ht_bytes; }
void HeapTrack::reset() {
    ht_on = false;
    if (ht_used) {
        for (size_t i : *ht_used) ht_key[i] = 0, ht_val[i] = 0;
        ht_used->clear();
    }
    ht_live = ht_bytes = 0;
}

// ---------------------------------------------------------------- strings
std::string strf(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    char *p = nullptr;
    int n = vasprintf(&p, fmt, ap);
    va_end(ap);
    std::string s = n >= 0 ? std::string(p, n) : "";
    free(p);
    return s;
}
std::string hex(const void *p, size_t n) {
    std::string s;
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) {
        char t[4];
        snprintf(t, 4, "%02x", b[i]);
        if (i && i % 4 == 0) s += ' ';
        s += t;
    }
    return s;
}
std::string show(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += strf("\\x%02x", c);
        else o += c;
    }
    return o + "\"";
}
static std::string json(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) o += strf("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}
void Ctx::fail(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    char *p = nullptr;
    int n = vasprintf(&p, fmt, ap);
    va_end(ap);
    Fail f;
    f.msg = n >= 0 ? std::string(p, n) : "";
    free(p);
    throw f;
}

// ---------------------------------------------------------------- rng
uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed) {
    s[0] = mix(seed, 1);
    s[1] = mix(seed, 2) | 1;
}
uint64_t Rng::next() {
    uint64_t s1 = s[0];
    const uint64_t s0 = s[1];
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return s[1] + s0;
}
uint64_t Src::raw(uint64_t n) {
    uint64_t v;
    if (in && pos < in->size()) {
        v = (*in)[pos];
        if (n && v >= n) v %= n;
    } else if (fresh && !overflow) {
        v = rng.next();
        if (n) v %= n;
    } else v = 0;
    pos++;
    if (rec) {
        if (*nrec < cap) rec[(*nrec)++] = v;
        else overflow = true;
    }
    return v;
}

// ---------------------------------------------------------------- shared state of a worker
static const uint64_t CAP = 16384;
enum { ST_RUN = 0, ST_DONE = 1, ST_FAIL = 2 };
struct Shm {
    volatile int state;
    volatile int in_case;
    uint64_t ncases;
    uint64_t ndiscard;
    uint64_t nontrivial;
    uint64_t nmutated;
    uint64_t corpus;
    uint64_t overflow;
    uint64_t edges, edges_total;
    int timed_out;
    uint64_t nrec;
    uint64_t rec[CAP];
    char msg[16384];
    char desc[65536];
    // samples
    int nsamples;
    uint32_t sample_n[8];
    uint64_t sample[8][1024];
    // labels
    int nlabels;
    char lname[256][64];
    uint64_t lcount[256];
    // distinct non-trivial
    uint64_t nhash;
    uint64_t hashes[1]; // open array
};
static const uint64_t MAXH = 1 << 19;
static size_t shm_size() { return sizeof(Shm) + MAXH * 8; }
static Shm *new_shm() {
    return (Shm *)mmap(0, shm_size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

static uint64_t g_seed;
static int g_total_weight;
static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void run_case(Ctx &c) {
    int r = (int)c.s.below(g_total_weight);
    for (auto &s : property.subs) {
        if (r < s.weight) {
            c.label(s.name);
            c.note(std::string("[") + s.name + "]");
            s.fn(c);
            return;
        }
        r -= s.weight;
    }
}
static void arm(int secs) {
    struct itimerval it = {{0, 0}, {secs, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static void quiet_fds() {
    int fd = open("/dev/null", O_RDWR);
    dup2(fd, 0);
    dup2(fd, 1);
    dup2(fd, 2);
    if (fd > 2) close(fd);
}
static void add_label(Shm *sh, std::unordered_map<const char *, int> &idx, const char *l) {
    auto it = idx.find(l);
    if (it == idx.end()) {
        int j = -1;
        for (int i = 0; i < sh->nlabels; i++)
            if (!strncmp(sh->lname[i], l, 63)) j = i;
        if (j < 0 && sh->nlabels < 256) {
            j = sh->nlabels++;
            strncpy(sh->lname[j], l, 63);
        }
        it = idx.emplace(l, j).first;
    }
    if (it->second >= 0) sh->lcount[it->second]++;
}

static uint8_t bucket(uint8_t c) {
    if (c <= 2) return c;
    if (c == 3) return 4;
    if (c < 8) return 8;
    if (c < 16) return 16;
    if (c < 32) return 32;
    if (c < 128) return 64;
    return 128;
}
static std::vector<uint64_t> mutate(Rng &r, const std::vector<std::vector<uint64_t>> &corpus) {
    // recent entries are picked more often
    size_t n = corpus.size();
    size_t a = (r.next() & 1) ? r.next() % n : n - 1 - r.next() % std::min<size_t>(n, 32);
    std::vector<uint64_t> v = corpus[a];
    int k = 1 + r.next() % 4;
    for (int i = 0; i < k && !v.empty(); i++) {
        size_t p = r.next() % v.size();
        switch (r.next() % 8) {
        case 0:
        case 1: v[p] = r.next(); break;
        case 2: v[p] += 1; break;
        case 3: v[p] = v[p] ? v[p] - 1 : 0; break;
        case 4: { // delete a block
            size_t l = 1 + r.next() % 8;
            v.erase(v.begin() + p, v.begin() + std::min(v.size(), p + l));
            break;
        }
        case 5: { // duplicate a block
            size_t l = std::min<size_t>(1 + r.next() % 16, v.size() - p);
            std::vector<uint64_t> b(v.begin() + p, v.begin() + p + l);
            v.insert(v.begin() + p, b.begin(), b.end());
            break;
        }
        case 6: { // splice with another entry
            const auto &o = corpus[r.next() % n];
            if (o.empty()) break;
            size_t q = r.next() % o.size();
            v.resize(p);
            v.insert(v.end(), o.begin() + q, o.end());
            break;
        }
        case 7: v[p] = r.next() % 4; break;
        }
    }
    if (v.size() > CAP / 2) v.resize(CAP / 2);
    return v;
}

static void worker(Shm *sh, int w, long ncases, double deadline, long stop_after) {
    quiet_fds();
    if (property.init) property.init();
    std::vector<std::vector<uint64_t>> corpus;
    std::vector<std::vector<uint8_t>> seen(g_ncov);
    for (int i = 0; i < g_ncov; i++) seen[i].assign(g_cov_end[i] - g_cov_begin[i], 0);
    std::unordered_set<uint64_t> hs;
    std::unordered_map<const char *, int> lidx;
    Rng mr(mix(g_seed, 7777 + w));
    uint64_t total = 0;
    for (auto &v : seen) total += v.size();
    sh->edges_total = total;
    std::vector<uint64_t> choice;
    for (long i = 0; i < ncases; i++) {
        if (stop_after >= 0 && i > stop_after) break;
        if ((i & 63) == 0 && now() > deadline) {
            sh->timed_out = 1;
            break;
        }
        Src s;
        s.rec = sh->rec;
        s.nrec = &sh->nrec;
        s.cap = CAP;
        sh->nrec = 0;
        s.fresh = true;
        s.rng = Rng(mix(mix(g_seed, w), i));
        bool mut = !corpus.empty() && i > 50 && mr.next() % 100 < 40;
        if (mut) {
            choice = mutate(mr, corpus);
            s.in = &choice;
            sh->nmutated++;
        }
        for (int k = 0; k < g_ncov; k++) memset(g_cov_begin[k], 0, g_cov_end[k] - g_cov_begin[k]);
        Ctx c(s, false);
        sh->in_case = 1;
        sh->ncases++;
        arm(property.cpu_limit_s);
        bool disc = false;
        try {
            run_case(c);
        } catch (Fail &f) {
            snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
            sh->state = ST_FAIL;
            _exit(0);
        } catch (Discard &) { disc = true; }
        arm(0);
        sh->in_case = 0;
        if (s.overflow) sh->overflow++;
        if (disc) {
            sh->ndiscard++;
            continue;
        }
        for (auto l : c.labels) add_label(sh, lidx, l);
        bool isnew = false;
        for (int k = 0; k < g_ncov; k++) {
            uint8_t *b = g_cov_begin[k];
            size_t n = g_cov_end[k] - b;
            uint8_t *sn = seen[k].data();
            size_t j = 0;
            for (; j + 8 <= n; j += 8) {
                uint64_t x;
                memcpy(&x, b + j, 8);
                if (!x) continue;
                for (size_t q = j; q < j + 8; q++)
                    if (b[q]) {
                        uint8_t m = bucket(b[q]);
                        if (!(sn[q] & m)) {
                            if (!sn[q]) sh->edges++;
                            sn[q] |= m;
                            isnew = true;
                        }
                    }
            }
            for (; j < n; j++)
                if (b[j]) {
                    uint8_t m = bucket(b[j]);
                    if (!(sn[j] & m)) {
                        if (!sn[j]) sh->edges++;
                        sn[j] |= m;
                        isnew = true;
                    }
                }
        }
        if (isnew && !s.overflow) {
            if (corpus.size() < 4000) corpus.emplace_back(sh->rec, sh->rec + sh->nrec);
            else corpus[mr.next() % corpus.size()] = std::vector<uint64_t>(sh->rec, sh->rec + sh->nrec);
            sh->corpus = corpus.size();
        }
        if (c.nontrivial) {
            sh->nontrivial++;
            uint64_t h = 1469598103934665603ull;
            for (uint64_t k = 0; k < sh->nrec; k++) h = mix(h, sh->rec[k]);
            if (hs.size() < MAXH && hs.insert(h).second) sh->hashes[sh->nhash++] = h;
            if (sh->nsamples < 8 && sh->nrec < 1024 && (sh->nontrivial % 97 == 1)) {
                sh->sample_n[sh->nsamples] = sh->nrec;
                memcpy(sh->sample[sh->nsamples], sh->rec, sh->nrec * 8);
                sh->nsamples++;
            }
        }
    }
    sh->state = ST_DONE;
    _exit(0);
}

// ---------------------------------------------------------------- one case in a fresh process
struct Outcome {
    bool failed;
    std::string msg, desc;
    std::vector<uint64_t> used;
};
static Outcome run_isolated(const std::vector<uint64_t> &choices, bool verbose) {
    static Shm *sh = nullptr;
    if (!sh) sh = new_shm();
    sh->state = ST_RUN;
    sh->nrec = 0;
    sh->msg[0] = sh->desc[0] = 0;
    char errf[] = "/tmp/pt_err_XXXXXX";
    int efd = mkstemp(errf);
    unlink(errf);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        quiet_fds();
        dup2(efd, 2);
        struct rlimit rl = {8 << 20, 8 << 20};
        setrlimit(RLIMIT_FSIZE, &rl);
        signal(SIGXFSZ, SIG_IGN);
        if (property.init) property.init();
        Src s;
        s.in = &choices;
        s.rec = sh->rec;
        s.nrec = &sh->nrec;
        s.cap = CAP;
        Ctx c(s, verbose);
        arm(property.cpu_limit_s);
        try {
            run_case(c);
        } catch (Fail &f) {
            snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
            snprintf(sh->desc, sizeof sh->desc, "%s", c.desc.c_str());
            sh->state = ST_FAIL;
            _exit(0);
        } catch (Discard &) {}
        snprintf(sh->desc, sizeof sh->desc, "%s", c.desc.c_str());
        sh->state = ST_DONE;
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    Outcome o;
    o.used.assign(sh->rec, sh->rec + sh->nrec);
    o.desc = sh->desc;
    if (sh->state == ST_DONE) o.failed = false;
    else if (sh->state == ST_FAIL) {
        o.failed = true;
        o.msg = sh->msg;
    } else {
        o.failed = true;
        if (WIFSIGNALED(st)) {
            int sig = WTERMSIG(st);
            if (sig == SIGVTALRM) o.msg = strf("no answer after %d s of CPU time (hang)", property.cpu_limit_s);
            else o.msg = strf("killed by signal %d (%s)", sig, strsignal(sig));
        } else o.msg = strf("abnormal exit, status %d", WEXITSTATUS(st));
        off_t n = lseek(efd, 0, SEEK_END);
        std::string e;
        if (n > 0) {
            size_t k = std::min<off_t>(n, 6000);
            e.resize(k);
            ssize_t got = pread(efd, &e[0], k, 0);
            e.resize(got > 0 ? got : 0);
        }
        if (!e.empty()) o.msg += "\n" + e;
    }
    close(efd);
    return o;
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> best, double budget) {
    double end = now() + budget;
    int tries = 0;
    auto attempt = [&](const std::vector<uint64_t> &cand) {
        if (now() > end || tries > 4000) return false;
        tries++;
        Outcome o = run_isolated(cand, false);
        if (!o.failed) return false;
        std::vector<uint64_t> u = o.used;
        while (!u.empty() && u.back() == 0) u.pop_back();
        // a crash does not always record everything; keep the candidate when it is shorter
        if (u.size() > cand.size()) u = cand;
        if (u.size() < best.size() || (u.size() == best.size() && u < best)) {
            best = u;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end && tries <= 4000) {
        progress = false;
        for (size_t l = std::max<size_t>(1, best.size() / 2); l >= 1; l /= 2) {
            for (size_t i = 0; i + l <= best.size();) {
                std::vector<uint64_t> c = best;
                c.erase(c.begin() + i, c.begin() + i + l);
                if (attempt(c)) progress = true;
                else i += l;
                if (now() > end) break;
            }
            if (l == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < end; i++) {
            if (!best[i]) continue;
            std::vector<uint64_t> c = best;
            c[i] = 0;
            if (attempt(c)) {
                progress = true;
                continue;
            }
            // binary search downwards
            uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
            while (lo + 1 < hi && i < best.size()) {
                uint64_t m = lo + (hi - lo) / 2;
                c = best;
                c[i] = m;
                if (attempt(c)) {
                    progress = true;
                    hi = i < best.size() ? std::min(m, best[i]) : 0;
                } else lo = m;
            }
        }
    }
    return best;
}

static std::string join(const std::vector<uint64_t> &v) {
    std::string s;
    for (auto x : v) s += strf("%llu ", (unsigned long long)x);
    return s;
}

static std::string write_replay(const std::string &dir, const std::vector<uint64_t> &ch, const std::string &msg,
                                const std::string &desc, const std::string &how) {
    mkdir(dir.c_str(), 0777);
    uint64_t h = 5;
    for (auto x : ch) h = mix(h, x);
    std::string path = dir + "/" + property.id + strf("-%08llx.replay", (unsigned long long)(h & 0xffffffff));
    FILE *f = fopen(path.c_str(), "w");
    if (f) {
        fprintf(f, "property %s\n%s\nchoices %s\n", property.id, how.c_str(), join(ch).c_str());
        fprintf(f, "--- failure\n%s\n--- case\n%s\n", msg.c_str(), desc.c_str());
        fclose(f);
    }
    return path;
}

static pid_t start_worker(Shm *sh, int w, long n, double deadline, long stop_after) {
    memset((void *)sh, 0, sizeof(Shm));
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) worker(sh, w, n, deadline, stop_after);
    return p;
}

static std::map<std::string, std::string> read_findings(const char *path) {
    std::map<std::string, std::string> m;
    FILE *f = fopen(path, "r");
    if (!f) return m;
    char line[8192];
    while (fgets(line, sizeof line, f)) {
        // finding: property=P01 key=xyz what fails
        std::string l = line;
        while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
        std::string pre = std::string("finding: property=") + property.id + " key=";
        if (l.compare(0, pre.size(), pre) == 0) {
            size_t e = l.find(' ', pre.size());
            std::string k = l.substr(pre.size(), e == std::string::npos ? e : e - pre.size());
            m[k] = e == std::string::npos ? "" : l.substr(e + 1);
        }
    }
    fclose(f);
    return m;
}

int run_main(int argc, char **argv) {
    const char *seed_s = getenv("VERIF_SEED");
    const char *tier_s = getenv("VERIF_TIER");
    std::string tier = tier_s && !strcmp(tier_s, "thorough") ? "thorough" : "quick";
    std::string evidence, replays = "replays", findings_path = "known_findings.txt", replay;
    long cases = -1;
    int nw = 8;
    double wall_cap = 0;
    bool dump = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--evidence") evidence = nxt();
        else if (a == "--replays") replays = nxt();
        else if (a == "--findings") findings_path = nxt();
        else if (a == "--replay") replay = nxt();
        else if (a == "--tier") tier = nxt();
        else if (a == "--cases") cases = atol(nxt().c_str());
        else if (a == "--workers") nw = atoi(nxt().c_str());
        else if (a == "--wall") wall_cap = atof(nxt().c_str());
        else if (a == "--dump") dump = true;
    }
    long seed = seed_s ? atol(seed_s) : 1;
    g_seed = mix((uint64_t)seed, 0xC0FFEE);
    for (const char *p = property.id; *p; p++) g_seed = mix(g_seed, *p);
    g_total_weight = 0;
    for (auto &s : property.subs) g_total_weight += s.weight;
    if (cases < 0) cases = tier == "quick" ? property.quick_cases : property.thorough_cases;
    if (wall_cap <= 0) wall_cap = tier == "quick" ? 150 : 780;
    double t0 = now();

    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r");
        if (!f) {
            fprintf(stderr, "cannot read %s\n", replay.c_str());
            return 2;
        }
        std::vector<uint64_t> ch;
        char word[64];
        long W = -1, N = -1, C = 0;
        unsigned long long hs = 0;
        while (fscanf(f, "%63s", word) == 1) {
            if (!strcmp(word, "worker")) {
                if (fscanf(f, "%ld of %ld cases %ld seed %llu", &W, &N, &C, &hs) != 4) return 2;
            }
            if (!strcmp(word, "choices")) {
                unsigned long long x;
                while (fscanf(f, "%llu", &x) == 1) ch.push_back(x);
                break;
            }
        }
        fclose(f);
        bool bad = false;
        std::string msg, desc;
        if (W >= 0) {
            g_seed = hs;
            Shm *sh = new_shm();
            pid_t p = start_worker(sh, (int)W, C, now() + 3600, N);
            int st;
            waitpid(p, &st, 0);
            bad = sh->state != ST_DONE;
            msg = sh->msg;
        } else {
            Outcome o = run_isolated(ch, true);
            bad = o.failed;
            msg = o.msg;
            desc = o.desc;
        }
        printf("%s\n%s\n", desc.c_str(), msg.c_str());
        if (bad) printf("VIOLATION property=%s replay=%s\n", property.id, replay.c_str());
        else printf("replay passes\n");
        return bad ? 1 : 0;
    }

    // ---- known findings: each listed one is probed, in a process of its own
    auto listed = read_findings(findings_path.c_str());
    std::vector<std::string> kf_lines;
    std::set<std::string> have_probe;
    for (auto &pr : property.probes) {
        have_probe.insert(pr.key);
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            quiet_fds();
            if (property.init) property.init();
            arm(property.cpu_limit_s);
            bool b = pr.probe();
            _exit(b ? 1 : 0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        bool present = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (!present) continue;
        auto it = listed.find(pr.key);
        if (it != listed.end())
            kf_lines.push_back(strf("KNOWN-FINDING: property=%s %s", property.id, it->second.c_str()));
        else {
            std::string how = std::string("probe ") + pr.key;
            std::string path = write_replay(replays, {}, how, "", how);
            printf("VIOLATION property=%s replay=%s\n", property.id, path.c_str());
            return 1;
        }
    }
    for (auto &l : kf_lines) printf("%s\n", l.c_str());

    // ---- exploration
    std::vector<Shm *> shs;
    std::vector<pid_t> pids;
    long per = (cases + nw - 1) / nw;
    double deadline = t0 + wall_cap;
    for (int w = 0; w < nw; w++) {
        shs.push_back(new_shm());
        pids.push_back(start_worker(shs[w], w, per, deadline, -1));
    }
    int failed_w = -1;
    int alive = nw;
    int unreproducible = 0;
    std::vector<int> failed;
    while (alive > 0) {
        int st;
        pid_t p = wait(&st);
        if (p < 0) break;
        for (int w = 0; w < nw; w++)
            if (pids[w] == p) {
                alive--;
                pids[w] = 0;
                if (shs[w]->state != ST_DONE) {
                    failed.push_back(w);
                    if (shs[w]->state != ST_FAIL) {
                        if (WIFSIGNALED(st)) snprintf(shs[w]->msg, 1000, "signal %d", WTERMSIG(st));
                        else snprintf(shs[w]->msg, 1000, "exit status %d", WEXITSTATUS(st));
                    }
                    // the first failure ends the search
                    for (int x = 0; x < nw; x++)
                        if (pids[x] && x != w) kill(pids[x], SIGKILL);
                }
            }
    }
    // workers that were killed by us are not failures
    {
        std::vector<int> f2;
        for (int w : failed)
            if (strcmp(shs[w]->msg, "signal 9")) f2.push_back(w);
        if (f2.empty()) for (int w : failed) f2.push_back(w);
        failed = f2;
    }
    int violations = 0;
    std::string vline;
    for (int w : failed) {
        Shm *sh = shs[w];
        std::vector<uint64_t> ch(sh->rec, sh->rec + sh->nrec);
        int rep = 0;
        for (int k = 0; k < 3; k++) rep += run_isolated(ch, false).failed;
        if (rep == 3) {
            std::vector<uint64_t> best = shrink(ch, tier == "quick" ? 40 : 90);
            int again = 0;
            for (int k = 0; k < 3; k++) again += run_isolated(best, false).failed;
            if (again < 3) best = ch;
            Outcome o = run_isolated(best, true);
            // a crash loses the description; it is rebuilt from what the first lines say
            std::string path = write_replay(replays, best, o.msg, o.desc, "single case");
            printf("failure: %s\n%s\n", o.msg.c_str(), o.desc.c_str());
            vline = strf("VIOLATION property=%s replay=%s", property.id, path.c_str());
            violations = 1;
            failed_w = w;
            break;
        }
        // history-dependent: does the same worker, from its start, fail again at the same case?
        long n = (long)sh->ncases - 1;
        std::string msg = sh->msg;
        int again = 0;
        for (int k = 0; k < 3; k++) {
            Shm *s2 = new_shm();
            pid_t p = start_worker(s2, w, per, now() + 600, n);
            int st;
            waitpid(p, &st, 0);
            again += s2->state != ST_DONE;
            munmap((void *)s2, shm_size());
            if (!again) break;
        }
        if (again == 3) {
            std::string how =
                strf("worker %d of %ld cases %ld seed %llu", w, n, per, (unsigned long long)g_seed);
            std::string path = write_replay(replays, ch, msg, "", how);
            printf("failure (depends on the cases run before it in the same process): %s\n", msg.c_str());
            vline = strf("VIOLATION property=%s replay=%s", property.id, path.c_str());
            violations = 1;
            failed_w = w;
            break;
        }
        unreproducible++;
        printf("note: worker %d case %ld failed once and not again (%s)\n", w, n, msg.c_str());
    }

    // ---- evidence
    uint64_t ev = 0, disc = 0, mutd = 0, corp = 0, edges = 0, etot = 0, nt = 0, ovf = 0;
    int tmo = 0;
    std::unordered_set<uint64_t> hs;
    std::map<std::string, uint64_t> labels;
    for (int w = 0; w < nw; w++) {
        Shm *s = shs[w];
        ev += s->ncases;
        disc += s->ndiscard;
        mutd += s->nmutated;
        corp += s->corpus;
        ovf += s->overflow;
        edges = std::max(edges, s->edges);
        etot = std::max(etot, s->edges_total);
        nt += s->nontrivial;
        tmo += s->timed_out;
        for (uint64_t i = 0; i < s->nhash; i++) hs.insert(s->hashes[i]);
        for (int i = 0; i < s->nlabels; i++) labels[s->lname[i]] += s->lcount[i];
    }
    std::vector<std::string> samples;
    std::set<std::string> seen_first;
    for (int w = 0; w < nw && samples.size() < 8; w++)
        for (int i = 0; i < shs[w]->nsamples && samples.size() < 8; i++) {
            std::vector<uint64_t> ch(shs[w]->sample[i], shs[w]->sample[i] + shs[w]->sample_n[i]);
            Outcome o = run_isolated(ch, true);
            if (o.desc.size() > 3000) continue;
            std::string first = o.desc.substr(0, o.desc.find('\n'));
            if (samples.size() < 4 && !seen_first.insert(first).second) continue;
            samples.push_back(o.desc);
        }
    double wall = now() - t0;
    std::string e = "{\n";
    e += strf(" \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %ld,\n \"level\": \"exploration\",\n", property.id,
              tier.c_str(), seed);
    e += " \"coverage\": {\n";
    e += strf("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": %s,\n", (unsigned long long)ev,
              (unsigned long long)hs.size(), json(property.rule).c_str());
    e += "  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) e += (i ? ",\n   " : "\n   ") + json(samples[i]);
    e += "],\n  \"classes\": {";
    bool first = true;
    for (auto &l : labels) {
        e += strf("%s\n   %s: %llu", first ? "" : ",", json(l.first).c_str(), (unsigned long long)l.second);
        first = false;
    }
    e += "},\n";
    e += strf("  \"discarded\": %llu,\n  \"too_long_truncated\": %llu,\n  \"coverage_guided_mutants\": %llu,\n  "
              "\"corpus_entries\": %llu,\n  \"library_edges_reached\": %llu,\n  \"library_edges_total\": %llu,\n  "
              "\"workers_stopped_by_wall_cap\": %d,\n  \"failures_not_reproduced\": %d,\n  \"known_findings_present\": %d\n },\n",
              (unsigned long long)disc, (unsigned long long)ovf, (unsigned long long)mutd, (unsigned long long)corp,
              (unsigned long long)edges, (unsigned long long)etot, tmo, unreproducible, (int)kf_lines.size());
    e += " \"assumptions\": [";
    for (size_t i = 0; i < property.assumptions.size(); i++)
        e += (i ? ", " : "") + json(property.assumptions[i]);
    e += strf("],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations);
    if (!evidence.empty()) {
        FILE *f = fopen(evidence.c_str(), "w");
        if (f) {
            fputs(e.c_str(), f);
            fclose(f);
        }
    }
    if (dump) fputs(e.c_str(), stdout);
    printf("%s: %llu cases, %llu distinct non-trivial, %llu of %llu edges, %.1f s%s\n", property.id,
           (unsigned long long)ev, (unsigned long long)hs.size(), (unsigned long long)edges,
           (unsigned long long)etot, wall, tmo ? " (wall cap reached)" : "");
    (void)failed_w;
    if (violations) {
        printf("%s\n", vline.c_str());
        return 1;
    }
    return 0;
}
} // namespace pt

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:quarantine_size_mb=8:max_allocation_size_mb=1024:"
           "allocator_may_return_null=0:handle_segv=1:handle_sigfpe=1:detect_stack_use_after_return=0:symbolize=1:external_symbolizer_path=:"
           "malloc_context_size=6:intercept_tls_get_addr=0:detect_odr_violation=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

int main(int argc, char **argv) { return pt::run_main(argc, argv); }
