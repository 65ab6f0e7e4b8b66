// profiler.cpp - C33: the heap profiler's traces and its file.
// Calls are made along generated call paths whose return addresses the harness knows, so that every
// record the profiler returns can be traced back to the calls it must stand for.
#define PBT_MAIN 1
#include "world.hpp"
#include <dlfcn.h>
#include <pthread.h>
using namespace pbt;
using namespace world;

extern "C" {
typedef struct {
    uint64_t callers[8];
    size_t lower_bound_size, upper_bound_size;
    uint16_t backtrace_hash;
    size_t call_count;
} iso_alloc_traces_t;
typedef struct {
    uint64_t callers[8];
    uint16_t backtrace_hash;
    size_t call_count;
} iso_free_traces_t;
size_t iso_get_alloc_traces(iso_alloc_traces_t *);
size_t iso_get_free_traces(iso_free_traces_t *);
void iso_alloc_reset_traces(void);
}
enum { MAXREC = 128 };

// ---- call paths: three levels of functions, several call sites each; then the call itself -----------------
enum { API_ALLOC, API_CALLOC, API_REALLOC, API_STRDUP, API_ZONE, API_FREE, API_PERM, NAPI };
struct Call {
    int api;
    u64 n;
    void *arg, *zone;
    void *result;
    u64 chain[4];
};
static char g_text[4096];
#define NOTE()                                             \
    (c.chain[0] = (u64) __builtin_return_address(0), c.chain[1] = (u64) __builtin_return_address(1), \
     c.chain[2] = (u64) __builtin_return_address(2), c.chain[3] = (u64) __builtin_return_address(3))
#define KEEP() __asm__ __volatile__("" ::: "memory")
#define NI __attribute__((noinline))
static NI void leaf_alloc(Call &c) { NOTE(); c.result = iso_alloc(c.n); KEEP(); }
static NI void leaf_calloc(Call &c) { NOTE(); c.result = iso_calloc(1, c.n); KEEP(); }
static NI void leaf_realloc(Call &c) { NOTE(); c.result = iso_realloc(c.arg, c.n); KEEP(); }
static NI void leaf_strdup(Call &c) { NOTE(); c.result = iso_strdup(g_text + sizeof(g_text) - c.n); KEEP(); }
static NI void leaf_zone(Call &c) { NOTE(); c.result = iso_alloc_from_zone(c.zone); KEEP(); }
static NI void leaf_free(Call &c) { NOTE(); iso_free(c.arg); KEEP(); }
static NI void leaf_perm(Call &c) { NOTE(); iso_free_permanently(c.arg); KEEP(); }
#define EACH_API(c)                                    \
    switch(c.api) {                                    \
        case API_ALLOC: leaf_alloc(c); KEEP(); break;   \
        case API_CALLOC: leaf_calloc(c); KEEP(); break; \
        case API_REALLOC: leaf_realloc(c); KEEP(); break; \
        case API_STRDUP: leaf_strdup(c); KEEP(); break; \
        case API_ZONE: leaf_zone(c); KEEP(); break;     \
        case API_FREE: leaf_free(c); KEEP(); break;     \
        default: leaf_perm(c); KEEP(); break;           \
    }
template <int N> static NI void third(Call &c, u64 path) {
    KEEP();
    switch(path % 6) {
        case 0: EACH_API(c); break;
        case 1: EACH_API(c); KEEP(); break;
        case 2: EACH_API(c); KEEP(); break;
        case 3: EACH_API(c); KEEP(); break;
        case 4: EACH_API(c); KEEP(); break;
        default: EACH_API(c); KEEP(); break;
    }
    KEEP();
}
template <int N> static NI void second(Call &c, u64 path) {
    switch(path % 4) {
        case 0: third<N * 4>(c, path / 4); KEEP(); break;
        case 1: third<N * 4 + 1>(c, path / 4); KEEP(); break;
        case 2: third<N * 4 + 2>(c, path / 4); KEEP(); break;
        default: third<N * 4 + 3>(c, path / 4); KEEP(); break;
    }
}
extern "C" __attribute__((noinline, visibility("default"))) void profiled_first(Call &c, u64 path) { // has a name in the file
    switch(path % 4) {
        case 0: second<0>(c, path / 4); KEEP(); break;
        case 1: second<1>(c, path / 4); KEEP(); break;
        case 2: second<2>(c, path / 4); KEEP(); break;
        default: second<3>(c, path / 4); KEEP(); break;
    }
}
// The frames above are the same for every call.
// One of them is made at run time, as by a just-in-time compiler: it belongs to no loaded object.
typedef void (*Thunk)(void (*)(Call &, u64), Call &, u64);
static Thunk g_thunk;
static void make_thunk() {
#if defined(__x86_64__)
    static const unsigned char code[] = {0x55, 0x48, 0x89, 0xe5,       // push rbp; mov rbp, rsp
                                         0x48, 0x89, 0xf8,             // mov rax, rdi
                                         0x48, 0x89, 0xf7,             // mov rdi, rsi
                                         0x48, 0x89, 0xd6,             // mov rsi, rdx
                                         0xff, 0xd0, 0x5d, 0xc3};      // call rax; pop rbp; ret
    void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if(p == MAP_FAILED) return;
    memcpy(p, code, sizeof code);
    if(mprotect(p, 4096, PROT_READ | PROT_EXEC) == 0) g_thunk = (Thunk) p;
#endif
}
static NI void outer1(Call &c, u64 path) {
    if(g_thunk) g_thunk(profiled_first, c, path);
    else profiled_first(c, path);
    KEEP();
}
static NI void outer2(Call &c, u64 path) { outer1(c, path); KEEP(); }
static NI void outer3(Call &c, u64 path) { outer2(c, path); KEEP(); }
static NI void outer4(Call &c, u64 path) { outer3(c, path); KEEP(); }

enum K { SPEC, DO, MANY, FREE, PERM, OTHERFREE, QUERY, RESET, FILL, THREADS, SWEEP, SWEEPFREE, NK };
static const char *NAMES[] = {"spec", "do", "many", "free", "perm", "otherfree", "query", "reset", "fill", "threads", "sweep", "sweepfree"};
enum C { C_QUERY, C_RECORDS, C_FRECORDS, C_STRICT, C_EXACT, C_FULL, C_FFULL, C_RESET, C_FILE, C_STALE, C_DEFAULT, C_USAGE, C_THREADS, C_COLL, C_NAMED, C_UNNAMED, NC };
static const char *CNAMES[] = {"queries", "allocation_records", "free_records", "record_matched_to_its_path", "record_with_exact_bounds", "all_128_records", "all_128_free_records", "resets", "files", "file_existed", "default_path", "zone_usage_judged", "threads", "possible_hash_collision", "caller_named_in_the_file", "caller_without_a_name"};

struct Ctx {
    int api = 0;
    u64 calls = 0, lo = ~0ull, hi = 0;
    std::set<u64> sizes;
};
struct Chain {
    u64 w[4];
    bool operator<(const Chain &o) const { return memcmp(w, o.w, sizeof w) < 0; }
    u64 x() const { return w[0] ^ w[1] ^ w[2] ^ w[3]; }
};

struct Prof : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "at least one allocation record was returned and traced back to its call path, and a profile file was read back"; }
    int timeout_s() const override { return 100; }
    Case generate(Rng &r, u64) override {
        Case c;
        c.ops.push_back(Op{SPEC, (i64) r.below(4), (i64) r.below(1000), (i64) r.below(1000)});
        bool wide = r.chance(1, 8); // more paths than there are records
        int npaths = wide ? 48 : 1 + (int) r.below(10);
        i64 paths[48];
        for(int i = 0; i < npaths; i++) paths[i] = (i64) r.below(96);
        int n = (int) r.range(5, wide ? 200 : 60);
        bool usage = r.chance(1, 4), threads = r.chance(1, 8);
        for(int i = 0; i < n; i++) {
            int k = 1 + r.weighted({12, wide ? 10 : 2, 8, 2, 2, 4, wide ? 0 : 1, usage ? 1 : 0, threads ? 1 : 0, wide ? 2 : 0, wide ? 2 : 0});
            if(k == FILL) usage = false;
            if(k == THREADS) threads = false;
            i64 a = paths[r.below((u64) npaths)], b = (i64) r.below(5);
            i64 cc = (i64) r.below(r.chance(1, 6) ? 300000 : r.chance(1, 3) ? 100 : 4000);
            if(k == FREE || k == PERM || k == OTHERFREE) b = (i64) r.below(1u << 30);
            if(k == FILL) b = r.chance(1, 2) ? r.range(5, 62) : r.range(90, 98);
            c.ops.push_back(Op{k, a, b, cc});
        }
        if(r.chance(1, 2)) c.ops.push_back(Op{QUERY, 0, 0, 0});
        return c;
    }

    std::map<Chain, Ctx> actx, fctx; // since the last reset
    u64 allocs = 0, frees = 0, sum_since = 0, fsum_since = 0, made_since = 0, fmade_since = 0;
    bool full = false, ffull = false, ever_reset = false;
    struct Rec {
        u64 lo, hi, calls;
    };
    std::map<u64, Rec> last; // records of the last query by hash
    std::map<u64, u64> flast;
    std::vector<iso_alloc_traces_t> recs;
    std::vector<iso_free_traces_t> frecs;

    void made(const Call &c, bool is_free) {
        Chain ch;
        memcpy(ch.w, c.chain, sizeof ch.w);
        Ctx &x = (is_free ? fctx : actx)[ch];
        x.api = c.api;
        x.calls++;
        if(c.n < x.lo) x.lo = c.n;
        if(c.n > x.hi) x.hi = c.n;
        x.sizes.insert(c.n); // the allocator may see the request as rounded up to its granularity
        x.sizes.insert(round32(c.n));
        (is_free ? frees : allocs)++;
        (is_free ? fmade_since : made_since)++;
    }
    template <class T> static Chain match(const std::map<Chain, Ctx> &m, const T &t, bool &ok) {
        ok = false;
        Chain ch;
        for(int k = 0; k + 3 < 8; k++) {
            memcpy(ch.w, t.callers + k, sizeof ch.w);
            if(m.count(ch)) {
                ok = true;
                return ch;
            }
        }
        return ch;
    }
    // The 16 bit hash of a backtrace joins the addresses in it. Two paths of equal hash share a record.
    std::map<int, u64> rest; // by kind of call: the part of the hash that does not depend on the path
    template <class T> void learn(const std::map<Chain, Ctx> &m, const T *t, size_t n) {
        for(size_t i = 0; i < n; i++) {
            bool ok;
            Chain ch = match(m, t[i], ok);
            if(!ok) continue;
            u64 x = ch.x();
            for(int k = 0; k < 8; k++) x ^= t[i].callers[k];
            rest[m.find(ch)->second.api] = x;
        }
    }
    // How many paths share the hash of this one; 0: cannot be told
    int sharing(const std::map<Chain, Ctx> &m, const Chain &ch) {
        int n = 0;
        auto me = m.find(ch);
        if(!rest.count(me->second.api)) return 0;
        u64 h = (ch.x() ^ rest[me->second.api]) & 0xffff;
        for(auto &x : m) {
            if(!rest.count(x.second.api)) return 0;
            n += ((x.first.x() ^ rest[x.second.api]) & 0xffff) == h;
        }
        return n;
    }
    void query() {
        cls(C_QUERY);
        static iso_alloc_traces_t a[MAXREC + 8], a2[MAXREC + 8];
        static iso_free_traces_t f[MAXREC + 8];
        memset(a, 0xA5, sizeof a);
        memset(a2, 0x5A, sizeof a2);
        memset(f, 0xA5, sizeof f);
        size_t n = iso_get_alloc_traces(a), n2 = iso_get_alloc_traces(a2), nf = iso_get_free_traces(f);
        CHECK(n <= MAXREC && nf <= MAXREC, "%zu allocation and %zu free records were returned, the documented maximum is %d", n, nf, (int) MAXREC);
        CHECK(n == n2 && !memcmp(a, a2, n * sizeof a[0]), "two queries in a row differ");
        for(size_t i = 0; i < sizeof(a) - n * sizeof a[0]; i++)
            CHECK(((unsigned char *) (a + n))[i] == 0xA5, "a query that reports %zu allocation records wrote %zu bytes behind them", n, i);
        for(size_t i = 0; i < sizeof(f) - nf * sizeof f[0]; i++)
            CHECK(((unsigned char *) (f + nf))[i] == 0xA5, "a query that reports %zu free records wrote %zu bytes behind them", nf, i);
        learn(actx, a, n);
        learn(fctx, f, nf);
        if(n == MAXREC) {
            full = true;
            cls(C_FULL);
        }
        if(nf == MAXREC) {
            ffull = true;
            cls(C_FFULL);
        }
        u64 sum = 0, fsum = 0;
        std::map<u64, Rec> now;
        std::map<Chain, int> used;
        for(size_t i = 0; i < n; i++) {
            const iso_alloc_traces_t &t = a[i];
            cls(C_RECORDS);
            CHECK(t.call_count >= 1, "allocation record %zu of %zu counts no call", i, n);
            CHECK(t.lower_bound_size <= t.upper_bound_size, "allocation record %zu has bounds %zu and %zu", i, t.lower_bound_size, t.upper_bound_size);
            CHECK(!now.count(t.backtrace_hash), "two allocation records have the hash %#x", t.backtrace_hash);
            now[t.backtrace_hash] = Rec{t.lower_bound_size, t.upper_bound_size, t.call_count};
            sum += t.call_count;
            bool ok;
            Chain ch = match(actx, t, ok);
            CHECK(ok, "allocation record %zu of %zu (%zu calls, sizes %zu to %zu) does not show the call path of any allocation made since the last reset", i, n, t.call_count, t.lower_bound_size, t.upper_bound_size);
            CHECK(!used[ch], "two allocation records show the same call path");
            used[ch] = 1;
            const Ctx &x = actx[ch];
            if(sharing(actx, ch) != 1) {
                cls(C_COLL);
                continue;
            }
            cls(C_STRICT);
            nontrivial();
            CHECK(t.call_count <= x.calls, "an allocation record counts %zu calls of a path that was taken %llu times", t.call_count, (unsigned long long) x.calls);
            CHECK(x.sizes.count(t.lower_bound_size) && x.sizes.count(t.upper_bound_size), "an allocation record has bounds %zu and %zu, but the path only asked for sizes %llu to %llu and not for both of these", t.lower_bound_size,
                  t.upper_bound_size, (unsigned long long) x.lo, (unsigned long long) x.hi);
            if(t.call_count == x.calls) {
                cls(C_EXACT);
                CHECK((t.lower_bound_size == x.lo || t.lower_bound_size == round32(x.lo)) && (t.upper_bound_size == x.hi || t.upper_bound_size == round32(x.hi)), "an allocation record of all %llu calls of a path has bounds %zu and %zu, the calls asked for %llu to %llu", (unsigned long long) x.calls, t.lower_bound_size,
                      t.upper_bound_size, (unsigned long long) x.lo, (unsigned long long) x.hi);
            }
        }
        used.clear();
        std::map<u64, u64> fnow;
        for(size_t i = 0; i < nf; i++) {
            const iso_free_traces_t &t = f[i];
            cls(C_FRECORDS);
            CHECK(t.call_count >= 1, "free record %zu of %zu counts no call", i, nf);
            CHECK(!fnow.count(t.backtrace_hash), "two free records have the hash %#x", t.backtrace_hash);
            fnow[t.backtrace_hash] = t.call_count;
            fsum += t.call_count;
            bool ok;
            Chain ch = match(fctx, t, ok);
            CHECK(ok, "free record %zu of %zu does not show the call path of any free made since the last reset", i, nf);
            CHECK(!used[ch], "two free records show the same call path");
            used[ch] = 1;
            if(sharing(fctx, ch) == 1) CHECK(t.call_count <= fctx[ch].calls, "a free record counts %zu calls of a path that was taken %llu times", t.call_count, (unsigned long long) fctx[ch].calls);
        }
        CHECK(sum <= made_since && fsum <= fmade_since, "the records count %llu allocations and %llu frees, made were %llu and %llu", (unsigned long long) sum, (unsigned long long) fsum, (unsigned long long) made_since,
              (unsigned long long) fmade_since);
        for(auto &o : last) {
            auto it = now.find(o.first);
            CHECK(it != now.end(), "an allocation record has disappeared");
            CHECK(it->second.calls >= o.second.calls && it->second.lo <= o.second.lo && it->second.hi >= o.second.hi, "an allocation record has shrunk");
        }
        for(auto &o : flast) {
            auto it = fnow.find(o.first);
            CHECK(it != fnow.end() && it->second >= o.second, "a free record has shrunk or disappeared");
        }
#if PROFILER_HALF
        // each call is sampled with probability one half
        if(made_since >= 60 && !full) CHECK(sum >= made_since / 10, "of %llu allocations %llu are in the records although half of them is sampled", (unsigned long long) made_since, (unsigned long long) sum);
        if(fmade_since >= 60 && !ffull) CHECK(fsum >= fmade_since / 10, "of %llu frees %llu are in the records although half of them is sampled", (unsigned long long) fmade_since, (unsigned long long) fsum);
        u64 often = 0;
        for(auto &x : actx) often += x.second.calls >= 40;
        if(!full) CHECK(n >= often / 2, "%zu records for %llu often used call paths", n, (unsigned long long) often);
#endif
        last = now;
        flast = fnow;
        recs.assign(a, a + n);
        frecs.assign(f, f + nf);
        sum_since = sum;
        fsum_since = fsum;
    }
    static void *worker(void *arg) {
        u64 n = *(u64 *) arg;
        for(u64 i = 0; i < n; i++) {
            void *p = iso_alloc(1 + i * 37 % 3000);
            memset(p, 1, 1 + i * 37 % 3000);
            iso_free(p);
        }
        return NULL;
    }
    void execute(const Case &c) override {
        make_thunk();
        if(c.ops.empty() || c.ops[0].k != SPEC) return;
        memset(g_text, 'x', sizeof g_text);
        g_text[sizeof(g_text) - 1] = 0;
        char dir[] = "prof-XXXXXX";
        CHECK(mkdtemp(dir), "no scratch directory");
        std::string file = std::string(dir) + "/iso_alloc_profiler.data";
        bool stale = c.ops[0].a & 1, def = c.ops[0].a & 2;
        if(def) {
            unsetenv("ISO_ALLOC_PROFILER_FILE_PATH");
            file = "iso_alloc_profiler.data";
            CHECK(chdir(dir) == 0, "chdir");
            cls(C_DEFAULT);
        } else
            setenv("ISO_ALLOC_PROFILER_FILE_PATH", file.c_str(), 1);
        if(stale) {
            FILE *fp = fopen(file.c_str(), "w");
            for(int i = 0; i < 3000; i++) fprintf(fp, "%d,777777,%d\n", i, i);
            fclose(fp);
            cls(C_STALE);
        }
        auto cleanup = [&] {
            unlink(file.c_str());
            if(def && chdir("..") != 0) {}
            rmdir(dir);
        };
        World w(c.entropy);
        w.f.perm = true;
        iso_alloc_initialize();
        u64 fillsize = 0, fillpct = 0, after_fill = 0;
        bool threaded = false;
        int zi = -1;
        for(size_t i = 1; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            switch(o.k) {
                case DO:
                case SWEEP:
                case MANY: {
                    int times = o.k == MANY ? 40 : o.k == SWEEP ? 480 : 1;
                    for(int t = 0; t < times; t++) {
                        Call k;
                        memset(&k, 0, sizeof k);
                        k.api = (int) ((u64) o.b % 5);
                        u64 path = (u64) o.a;
                        if(o.k == SWEEP) { // every path
                            k.api = t % 5;
                            path = (u64) t / 5;
                        }
                        k.n = 1 + ((u64) o.c + (u64) t * 61) % 300000;
                        int old = -1;
                        if(o.k == SWEEP) k.n %= 4000, k.n++;
                        if(k.api == API_STRDUP) k.n = 1 + k.n % 4000;
                        if(k.api == API_ZONE) {
                            if(zi < 0 || w.may_refuse(w.zones[zi])) {
                                if(w.zones.size() >= 6) break;
                                zi = w.new_zone(512 + (u64) o.c % 3000);
                            }
                            k.zone = w.zones[zi].h;
                            k.n = w.zones[zi].chunk;
                        }
                        if(k.api == API_REALLOC) {
                            old = w.pick_live(o.c);
                            if(old < 0) k.api = API_ALLOC;
                            else k.arg = (void *) w.slots[old].p;
                        }
                        outer4(k, path);
                        after_fill++;
                        made(k, false);
                        if(old >= 0 && k.api == API_REALLOC) {
                            Slot s = w.slots[old];
                            w.forget(old);
                            w.verify_upto(s, (unsigned char *) k.result, s.usable < k.n ? s.usable : k.n, "contents after realloc");
                        }
                        w.add(k.result, k.api == API_ZONE ? w.zones[zi].req : k.n, k.api == API_ZONE ? zi : -1, true, false);
                        if(w.live.size() > 500 || w.live_bytes > 64u << 20) {
                            int id = w.pick_live((i64) w.r.below(1u << 30));
                            Slot s = w.slots[id];
                            w.verify(s);
                            w.forget(id);
                            iso_free_size((void *) s.p, s.usable);
                        }
                    }
                    break;
                }
                case FREE:
                case PERM:
                case SWEEPFREE:
                    for(int t = 0; t < (o.k == SWEEPFREE ? 192 : 1); t++) {
                        if(o.k == SWEEPFREE) {
                            u64 n = 1 + (u64) (o.c + t) % 900;
                            Call k;
                            memset(&k, 0, sizeof k);
                            k.n = n;
                            outer4(k, (u64) o.a);
                            made(k, false);
                            w.add(k.result, n, -1);
                        }
                        int id = o.k == SWEEPFREE ? w.live.back() : w.pick_live(o.b);
                        if(id < 0) break;
                        Slot s = w.slots[id];
                        w.verify(s);
                        w.forget(id);
                        Call k;
                        memset(&k, 0, sizeof k);
                        k.api = o.k == FREE || (o.k == SWEEPFREE && t % 2) ? API_FREE : API_PERM;
                        k.arg = (void *) s.p;
                        outer4(k, o.k == SWEEPFREE ? (u64) t / 2 : (u64) o.a);
                        made(k, true);
                        if(k.api == API_PERM) w.noted_perm(s);
                        else w.push_pending(s);
                    }
                    break;
                case OTHERFREE: {
                    int id = w.pick_live(o.b);
                    if(id >= 0) w.free_size(id, 1);
                    iso_free(NULL);
                    break;
                }
                case QUERY: query(); break;
                case RESET: {
                    if(threaded) break;
                    iso_alloc_reset_traces();
                    actx.clear();
                    fctx.clear();
                    last.clear();
                    flast.clear();
                    made_since = fmade_since = sum_since = fsum_since = 0;
                    full = ffull = false;
                    ever_reset = true;
                    cls(C_RESET);
                    query();
                    CHECK(recs.empty() && frecs.empty(), "%zu allocation and %zu free records are left after a reset", recs.size(), frecs.size());
                    break;
                }
                case FILL: {
                    if(fillsize) break;
                    fillsize = 40000 + (u64) o.c % 20000;
                    fillpct = (u64) o.b;
                    if(fillpct > 98) fillpct = 98;
                    int z = w.new_zone(fillsize);
                    fillsize = w.zones[z].chunk;
                    // what the zone can deliver is some chunks less than it counts
                    u64 want = w.zones[z].count * fillpct / 100;
                    u64 got = 0;
                    for(; got < want; got++) {
                        Call k;
                        memset(&k, 0, sizeof k);
                        k.api = API_ZONE;
                        k.zone = w.zones[z].h;
                        k.n = w.zones[z].chunk;
                        outer4(k, (u64) o.a);
                        if(!k.result) break; // counted as an allocation all the same, so not told apart
                        made(k, false);
                        w.add(k.result, w.zones[z].req, z);
                    }
                    cls(C_USAGE);
                    after_fill = 0;
                    break;
                }
                case THREADS: {
                    threaded = true;
                    cls(C_THREADS);
                    pthread_t th[4];
                    u64 n[4];
                    for(int t = 0; t < 4; t++) {
                        n[t] = 20 + (u64) (o.c * (t + 3)) % 150;
                        pthread_create(&th[t], NULL, worker, &n[t]);
                    }
                    for(int t = 0; t < 4; t++) {
                        pthread_join(th[t], NULL);
                        allocs += n[t];
                        frees += n[t];
                        made_since += n[t];
                        fmade_since += n[t];
                    }
                    w.pending_flushed();
                    break;
                }
            }
            if(threaded) break; // the paths of these calls are not followed: only the file is left to judge
        }
        at((int) c.ops.size());
        w.verify_all_slots();
        if(!threaded) query();
        iso_alloc_destroy();
        read_file(file, threaded, fillsize, fillpct, after_fill);
        cleanup();
    }
    void read_file(const std::string &file, bool threaded, u64 fillsize, u64 fillpct, u64 after_fill) {
        FILE *fp = fopen(file.c_str(), "r");
        CHECK(fp, "there is no profile file");
        cls(C_FILE);
        static char line[4096];
        u64 na = 0, sa = 0, nf = 0, sf = 0;
        CHECK(fgets(line, sizeof line, fp) && sscanf(line, "allocated=%lu", &na) == 1, "the profile file has no number of allocations first");
        CHECK(fgets(line, sizeof line, fp) && sscanf(line, "alloc_sampled=%lu", &sa) == 1, "the profile file has no number of sampled allocations second");
        CHECK(fgets(line, sizeof line, fp) && sscanf(line, "freed=%lu", &nf) == 1, "the profile file has no number of frees third");
        CHECK(fgets(line, sizeof line, fp) && sscanf(line, "free_sampled=%lu", &sf) == 1, "the profile file has no number of sampled frees fourth");
        CHECK(na == allocs, "the profile file reports %lu allocations, %llu were made", na, (unsigned long long) allocs);
        CHECK(nf == frees, "the profile file reports %lu frees, %llu were made", nf, (unsigned long long) frees);
        CHECK(sa <= na && sf <= nf, "the profile file reports more samples than calls");
        if(!threaded && !full && !ever_reset) CHECK(sa == sum_since, "the profile file reports %lu samples, the records %llu", sa, (unsigned long long) sum_since);
        if(!threaded && !ffull && !ever_reset) CHECK(sf == fsum_since, "the profile file reports %lu samples of frees, the records %llu", sf, (unsigned long long) fsum_since);
        u64 ra = 0, rf = 0, callers = 0, prev = 0;
        int state = 0;
        bool filled_line = false;
        u64 frame = 0;
        const u64 *want = NULL;
        while(fgets(line, sizeof line, fp)) {
            unsigned long i, h, n, lo, hi;
            if(sscanf(line, "alloc_backtrace=%lu,backtrace_hash=0x%lx,calls=%lu,lower_bound_size=%lu,upper_bound_size=%lu", &i, &h, &n, &lo, &hi) == 5) {
                CHECK(state <= 0 && i == ra, "allocation record %lu of the profile file is out of order", i);
                if(!threaded) {
                    CHECK(ra < recs.size(), "the profile file has more allocation records than the query returned");
                    const iso_alloc_traces_t &t = recs[ra];
                    CHECK(h == t.backtrace_hash && n == t.call_count && lo == t.lower_bound_size && hi == t.upper_bound_size, "allocation record %lu of the profile file differs from the one the query returned", i);
                    want = t.callers;
                }
                frame = 0;
                ra++;
            } else if(sscanf(line, "free_backtrace=%lu,backtrace_hash=0x%lx,calls=%lu", &i, &h, &n) == 3) {
                CHECK(state <= 1 && i == rf, "free record %lu of the profile file is out of order", i);
                state = 1;
                if(!threaded) {
                    CHECK(rf < frecs.size(), "the profile file has more free records than the query returned");
                    const iso_free_traces_t &t = frecs[rf];
                    CHECK(h == t.backtrace_hash && n == t.call_count, "free record %lu of the profile file differs from the one the query returned", i);
                    want = t.callers;
                }
                frame = 0;
                rf++;
            } else if(sscanf(line, "\t0x%lx ->", &h) == 1) {
                CHECK(ra + rf > 0 && state < 2, "a caller without a record in the profile file");
                Dl_info dl;
                bool known = dladdr((void *) h, &dl) && dl.dli_sname;
                std::string name = known ? std::string(dl.dli_sname) + " " + dl.dli_fname : std::string("[?]");
                char *arrow = strstr(line, "-> ");
                line[strcspn(line, "\n")] = 0;
                CHECK(arrow && name == arrow + 3, "the profile file names the caller 0x%lx '%.80s' rather than '%.80s'", h, arrow ? arrow + 3 : "", name.c_str());
                cls(known ? C_NAMED : C_UNNAMED);
                if(!threaded) {
                    while(frame < 8 && want[frame] < 0x1000) frame++;
                    CHECK(frame < 8 && want[frame] == h, "a caller in the profile file differs from the one the query returned");
                    frame++;
                }
                callers++;
            } else if(sscanf(line, "%lu,%lu,%lu", &i, &n, &h) == 3) {
                CHECK(state < 2 || i > prev, "the zone usage lines of the profile file are out of order or left from another run");
                state = 2;
                prev = i;
                CHECK(i % 32 == 0 && i >= 32 && i <= SMALL_MAX, "the profile file speaks of zones of %lu byte chunks", i);
                CHECK(h <= 65536ull * (sa + 1), "a zone of %lu byte chunks was full more often than was looked", i);
                if(i == fillsize) {
                    filled_line = true;
                    // general requests of this size may have made further zones
                    CHECK(n >= 1, "the profile file lists %lu byte chunks but no zone of them", i);
                    CHECK(n > 1 || fillpct > 65, "a zone of %lu byte chunks that was never more than %llu percent in use is listed as full", i, (unsigned long long) fillpct);
                }
            } else
                fail("the profile file has an unknown line: %.60s", line);
        }
        fclose(fp);
        (void) callers;
        if(!threaded) CHECK(ra == recs.size() && rf == frecs.size(), "the profile file has %llu and %llu records, the queries returned %zu and %zu", (unsigned long long) ra, (unsigned long long) rf, recs.size(), frecs.size());
#if PROFILER_HALF
        if(fillsize && fillpct >= 90 && after_fill >= 60) CHECK(filled_line, "a zone of %llu byte chunks that was %llu percent in use during %llu allocations is not listed as full", (unsigned long long) fillsize, (unsigned long long) fillpct, (unsigned long long) after_fill);
#endif
    }
};
int main(int argc, char **argv) {
    Prof h;
    return run_main(h, argc, argv);
}
