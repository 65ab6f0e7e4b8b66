// threads.cpp - C29: all guarantees hold under concurrent use.
//
// Profile "sched": the library is compiled with callbacks at every basic block, load and store, and its
// mutex calls are redirected here; a scheduler lets exactly one thread run and decides from the case's
// seed at which callback another one goes on.  A failing schedule replays exactly.
// Profile "real": the same programs on free-running threads.
#define PBT_MAIN 1
#include "world.hpp"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
using namespace pbt;
using namespace world;

static std::string profile;
static bool real() { return profile == "real"; }

// ---- scheduler ------------------------------------------------------------------------------------------
static const int MAXT = 6;
namespace sch {
static volatile bool active = false;
static int nthreads, current = -1;
static sem_t go[MAXT + 1];
static volatile bool done[MAXT];
static void *volatile blocked[MAXT];
static long countdown;
static u64 steps, since_progress, switches, preempted_inside;
static Rng rng(1);
static int mode;
static long mean;
static __thread int self = -1;
static u64 in_library; // bit per thread

static long quantum() {
    if(switches > 8000) return 1 + (long) rng.below(20000); // enough of them: the rest in larger steps
    switch(mode) {
        case 0: return 1 + (long) rng.below((u64) (2 * mean));       // even slices
        case 1: return rng.chance(1, 3) ? 1 + (long) rng.below(12) : 1 + (long) rng.below((u64) (6 * mean)); // bursts of switches
        default: return 1000000000;                                   // at lock operations only
    }
}
static int pick_other() {
    int c[MAXT], n = 0;
    for(int i = 0; i < nthreads; i++)
        if(i != self && !done[i] && blocked[i] == NULL) c[n++] = i;
    return n ? c[rng.below((u64) n)] : -1;
}
static void switch_to(int t) {
    if(in_library >> self & 1) preempted_inside++;
    switches++;
    int me = self;
    countdown = quantum();
    current = t;
    sem_post(&go[t]);
    while(sem_wait(&go[me]) != 0) {}
}
static void maybe() {
    int t = pick_other();
    if(t < 0) {
        countdown = quantum();
        return;
    }
    switch_to(t);
}
static inline void point() {
    if(!active || self < 0) return;
    steps++;
    if(++since_progress > 400000000ull) fail("no thread made progress (a lock is never released)");
    if(--countdown > 0) return;
    maybe();
}
static void finish() { // the thread is over: somebody else goes on
    done[self] = true;
    int c[MAXT], n = 0;
    for(int i = 0; i < nthreads; i++)
        if(!done[i] && blocked[i] == NULL) c[n++] = i;
    if(n == 0) {
        for(int i = 0; i < nthreads; i++)
            if(!done[i]) fail("deadlock: thread %d waits for a lock that nobody will release", i);
        active = false;
        sem_post(&go[MAXT]);
        return;
    }
    int t = c[rng.below((u64) n)];
    countdown = quantum();
    current = t;
    sem_post(&go[t]);
}
}
#if THREAD_SUPPORT && !USE_SPINLOCK
extern "C" int hk_pthread_mutex_lock(pthread_mutex_t *m) {
    if(!sch::active || sch::self < 0) return pthread_mutex_lock(m);
    if(sch::rng.chance(1, sch::mode == 2 ? 3 : 8)) sch::maybe();
    while(pthread_mutex_trylock(m) != 0) {
        sch::blocked[sch::self] = m;
        int t = sch::pick_other();
        if(t < 0) fail("deadlock: every thread waits for a lock");
        sch::switch_to(t);
        sch::blocked[sch::self] = NULL;
    }
    return 0;
}
extern "C" int hk_pthread_mutex_unlock(pthread_mutex_t *m) {
    int r = pthread_mutex_unlock(m);
    if(!sch::active || sch::self < 0) return r;
    for(int i = 0; i < sch::nthreads; i++)
        if(sch::blocked[i] == m) sch::blocked[i] = NULL;
    if(sch::rng.chance(1, sch::mode == 2 ? 2 : 8)) sch::maybe();
    return r;
}
#endif
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *) { sch::point(); }
#define CB(n)                                            \
    void __sanitizer_cov_load##n(void *) { sch::point(); } \
    void __sanitizer_cov_store##n(void *) { sch::point(); }
CB(1) CB(2) CB(4) CB(8) CB(16)
}

// ---- programs ---------------------------------------------------------------------------------------------
enum K { ALLOC, CALLOC, REALLOC, FREE, FREE_SIZE, FREE_PERM, FREE_ZONE, CHUNKSZ, STRDUP, NEWZONE, ZALLOC, DESTROYZONE, VERIFY_ALL, VERIFY_ZONE, LEAKS, ZLEAKS, USAGE, FLUSH, BURST, LOOK, INIT, ZERO, MOVE, TAGS, ZTAGGED, ZSTR, RARRAY, NAMEZONE, NK };
static const char *NAMES[] = {"alloc", "calloc", "realloc", "free", "free_size", "free_perm", "free_zone", "chunksz", "strdup", "newzone", "zalloc", "destroyzone", "verify_all", "verify_zone", "leaks", "zleaks", "usage", "flush", "burst", "look", "init", "zero", "move_cpu", "tags", "zalloc_tagged", "strdup_from_zone", "reallocarray", "name_zone"};
enum C { C_CROSS, C_INSIDE, C_BIG, C_ZONE, C_DESTROY, C_REUSE, C_REFUSED, C_SPINS, C_RETIRE, C_TAGS, NC };
static const char *CNAMES[] = {"freed_by_another_thread", "preempted_inside_a_call", "large_block", "private_chunk", "zone_destroyed", "address_reused", "zone_refused", "many_switches", "reports_and_checks", "tag_checked"};

struct Threads : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override {
        return real() ? "at least two threads made calls and at least one block was freed by a thread that had not allocated it" : "a thread was preempted inside a call at least 5 times and another one made calls meanwhile";
    }
    bool deterministic() const override { return !real(); }

    Case generate(Rng &r, u64) override {
        Case c;
        int T = (int) r.range(2, real() ? MAXT : 4);
        int n = (int) (real() ? r.range(150, 900) : r.range(12, 110));
        std::vector<u64> pal;
        for(int i = 0; i < 3; i++) pal.push_back(r.chance(1, 5) ? gen_big_size(r) % 400000 + 1 : gen_small_size(r));
        // A few kinds of programs, each dominated by some calls.
        std::vector<int> w = {25, 5, 6, 18, 8, 1, 3, 5, 2, 1, 6, 1, 1, 1, 1, 1, 1, 2, 3, 3, 0, 1, CPU_PIN ? 4 : 0, 1, 1, 1, 2, 1};
        switch(r.below(6)) {
            case 0: w[NEWZONE] = 5, w[ZALLOC] = 25, w[DESTROYZONE] = 4, w[FREE_ZONE] = 12, w[TAGS] = 12, w[ZTAGGED] = 8, w[ZSTR] = 3, w[NAMEZONE] = 2; break;
            case 1: w[VERIFY_ALL] = 6, w[VERIFY_ZONE] = 4, w[LEAKS] = 5, w[ZLEAKS] = 4, w[USAGE] = 4, w[CHUNKSZ] = 14; break;
            case 2: // large blocks
                for(auto &p : pal) p = gen_big_size(r) % 400000 + 65537;
                w[REALLOC] = 15, w[CHUNKSZ] = 15, w[FREE_SIZE] = 15, w[LEAKS] = 3, w[VERIFY_ALL] = 3;
                break;
            case 3: w[FLUSH] = 8, w[BURST] = 10; break;
            default:;
        }
        for(int i = 0; i < n; i++) {
            int k = r.weighted(w);
            Op o{k, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below((u64) T)};
            if(k == ALLOC || k == CALLOC || k == STRDUP || k == BURST) o.a = (i64) (r.chance(2, 3) ? r.pick(pal) : r.chance(1, 6) ? gen_big_size(r) % 400000 + 1 : gen_small_size(r));
            if(k == REALLOC) o.b = (i64) (r.chance(2, 3) ? r.pick(pal) : r.chance(1, 4) ? gen_big_size(r) % 400000 + 1 : gen_small_size(r));
            if(k == NEWZONE) o.a = (i64) (r.chance(1, 2) ? r.pick(pal) : gen_small_size(r));
            if(k == BURST) o.b = (i64) r.range(2, r.chance(1, 6) ? 90 : 20);
            c.ops.push_back(o);
        }
        return c;
    }

    struct Block {
        u64 p, req, usable, seed;
        int zone, by;
        bool big;
        int tag = -1;
    };
    struct Zn {
        void *h;
        u64 req, count, live = 0, frees = 0, inflight = 0, perm = 0;
        bool alive = true;
        int users = 0;
    };
    pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; // the model's; never held across a call
    std::vector<Block> live;
    std::map<u64, u64> iv; // lo -> hi
    std::vector<Zn> zones;
    std::set<u64> seen;
    std::vector<std::vector<Op>> prog;
    u64 seedc = 1, total = 0, freed_cross = 0;
    bool bad = false;
    struct L {
        pthread_mutex_t *m;
        explicit L(pthread_mutex_t *mm) : m(mm) { pthread_mutex_lock(m); }
        ~L() { pthread_mutex_unlock(m); }
    };
    struct In { // the thread is inside the library
        In() {
            if(sch::self >= 0) __atomic_or_fetch(&sch::in_library, 1ull << sch::self, __ATOMIC_SEQ_CST);
        }
        ~In() {
            if(sch::self >= 0) __atomic_and_fetch(&sch::in_library, ~(1ull << sch::self), __ATOMIC_SEQ_CST);
            sch::since_progress = 0;
        }
    };
    template <class F> auto call(F f) -> decltype(f()) {
        In in;
        return f();
    }
    static void fill(Block &b) {
        World::spans(b.usable, [&](u64 x, u64 y) { World::fill_range((unsigned char *) b.p, x, y, b.seed); });
    }
    static void verify(const Block &b, const char *what, u64 upto = ~0ull) {
        u64 n = b.usable;
        World::spans(n, [&](u64 x, u64 y) {
            if(x >= upto) return;
            if(y > upto) y = upto;
            i64 k = World::check_range((const unsigned char *) b.p, x, y, b.seed);
            CHECK(k < 0, "byte %lld of a live block of %llu bytes changed (%s)", (long long) k, (unsigned long long) n, what);
        });
    }
    void add(void *vp, u64 req, int zone, int t) {
        CHECK(vp != NULL, "allocation of %llu bytes failed although memory is available", (unsigned long long) req);
        Block b;
        b.p = (u64) vp;
        b.req = req;
        b.zone = zone;
        b.by = t;
        CHECK(b.p % 8 == 0, "allocation is not 8-byte aligned");
        b.usable = call([&] { return iso_chunksz(vp); });
        CHECK(b.usable >= req && b.usable < (1ull << 32), "usable size %llu for a request of %llu", (unsigned long long) b.usable, (unsigned long long) req);
        b.big = b.usable > SMALL_MAX;
        {
            L l(&mu);
            b.seed = ++seedc * 0x9E3779B97F4A7C15ull;
            u64 hi = b.p + b.usable;
            auto it = iv.lower_bound(b.p);
            if(it != iv.end()) CHECK(it->first >= hi, "new block [%#llx,+%llu) overlaps a live block at %#llx", (unsigned long long) b.p, (unsigned long long) b.usable, (unsigned long long) it->first);
            if(it != iv.begin()) {
                --it;
                CHECK(it->second <= b.p, "new block [%#llx,+%llu) overlaps the live block [%#llx,%#llx)", (unsigned long long) b.p, (unsigned long long) b.usable, (unsigned long long) it->first, (unsigned long long) it->second);
            }
            iv[b.p] = hi;
            if(!seen.insert(b.p).second) cls(C_REUSE);
            total += b.usable;
            if(b.big) cls(C_BIG);
            if(zone >= 0) cls(C_ZONE);
        }
        fill(b); // before it can be taken by another thread
        L l(&mu);
        live.push_back(b);
    }
    bool take(i64 a, Block &b, int t) {
        L l(&mu);
        if(live.empty()) return false;
        size_t k = (u64) a % live.size();
        b = live[k];
        live[k] = live.back();
        live.pop_back();
        if(b.by != t) freed_cross++, cls(C_CROSS);
        return true;
    }
    void gone(const Block &b) { // its memory is about to be released
        L l(&mu);
        iv.erase(b.p);
        total -= b.usable;
        if(b.zone >= 0) zones[b.zone].live--, zones[b.zone].frees++;
    }
    void put_back(const Block &b) {
        L l(&mu);
        live.push_back(b);
    }
    int use_zone(i64 a) {
        L l(&mu);
        std::vector<int> v;
        for(size_t i = 0; i < zones.size(); i++)
            if(zones[i].alive) v.push_back((int) i);
        if(v.empty()) return -1;
        int z = v[(u64) a % v.size()];
        zones[z].users++;
        return z;
    }
    void leave_zone(int z) {
        L l(&mu);
        zones[z].users--;
    }
    bool room(u64 n) {
        L l(&mu);
        return total + n < (48ull << 20);
    }
    void run_op(const Op &o, int t) {
        u64 n = o.a < 1 ? 1 : (u64) o.a;
        switch(o.k) {
            case INIT: call([&] { iso_alloc_initialize(); return 0; }); break;
            case ALLOC:
                if(room(n)) add(call([&] { return iso_alloc(n); }), n, -1, t);
                break;
            case CALLOC: {
                if(!room(n)) break;
                unsigned char *p = (unsigned char *) call([&] { return iso_calloc(1, n); });
                CHECK(p != NULL, "calloc failed");
                for(u64 i = 0; i < n; i += (n > 4096 && i > 64 && i + 64 < n ? 97 : 1)) CHECK(p[i] == 0, "byte %llu of calloc memory is not zero", (unsigned long long) i);
                add(p, n, -1, t);
                break;
            }
            case STRDUP: {
                char s[200];
                u64 l = n % 190;
                for(u64 i = 0; i < l; i++) s[i] = (char) ('a' + (i * 7 + n) % 26);
                s[l] = 0;
                char *p = call([&] { return iso_strdup(s); });
                CHECK(p != NULL && strcmp(p, s) == 0, "string duplicate differs");
                add(p, l + 1, -1, t);
                break;
            }
            case REALLOC: {
                Block b;
                u64 m = o.b < 1 ? 1 : (u64) o.b;
                if(!room(m) || !take(o.a, b, t)) break;
                verify(b, "before a resize");
                if(b.zone >= 0) { // the zone must outlive the call
                    L l(&mu);
                    zones[b.zone].users++;
                    zones[b.zone].inflight++;
                }
                gone(b);
                void *p = call([&] { return iso_realloc((void *) b.p, m); });
                if(b.zone >= 0) {
                    L l(&mu);
                    zones[b.zone].users--;
                    zones[b.zone].inflight--;
                }
                CHECK(p != NULL, "resize failed");
                Block q = b;
                q.p = (u64) p;
                verify(q, "after a resize", b.usable < m ? b.usable : m);
                add(p, m, -1, t);
                break;
            }
            case FREE:
            case FREE_SIZE:
            case FREE_PERM:
            case FREE_ZONE: {
                Block b;
                if(!take(o.a, b, t)) break;
                verify(b, "before it is freed");
                void *h = NULL;
                bool perm = o.k == FREE_ZONE && (o.b & 60) == 0;
                if(b.zone >= 0) { // the zone must outlive the call
                    L l(&mu);
                    h = zones[b.zone].h;
                    zones[b.zone].users++;
                    zones[b.zone].inflight++;
                    if(o.k == FREE_PERM || perm) zones[b.zone].perm++;
                }
                gone(b);
                void *p = (void *) b.p;
                call([&] {
                    if(o.k == FREE_PERM) iso_free_permanently(p);
                    else if(o.k == FREE_SIZE) iso_free_size(p, (o.b & 1) || b.big ? b.usable : b.req);
                    else if(o.k == FREE_ZONE && h) {
                        void *q = o.b & 2 ? iso_alloc_tag_ptr(p, h) : p;
                        if(perm) iso_free_from_zone_permanently(q, h);
                        else iso_free_from_zone(q, h);
                    }
                    else iso_free(p);
                    return 0;
                });
                if(b.zone >= 0) {
                    L l(&mu);
                    zones[b.zone].users--;
                    zones[b.zone].inflight--;
                }
                break;
            }
            case CHUNKSZ: {
                Block b;
                if(!take(o.a, b, t)) break;
                u64 s = call([&] { return iso_chunksz((void *) b.p); });
                CHECK(s == b.usable, "the usable size of a live block changed from %llu to %llu", (unsigned long long) b.usable, (unsigned long long) s);
                put_back(b);
                break;
            }
            case LOOK: {
                Block b;
                if(!take(o.a, b, t)) break;
                verify(b, "while others work");
                b.seed += 77;
                fill(b);
                put_back(b);
                break;
            }
            case NEWZONE: {
                {
                    L l(&mu);
                    int k = 0;
                    for(auto &z : zones) k += z.alive;
                    if(k >= 6 || zones.size() > 60) break;
                }
                if(n > SMALL_MAX) n = SMALL_MAX;
                Zn z;
                z.h = call([&] { return iso_alloc_new_zone(n); });
                CHECK(z.h != NULL, "creating a zone failed");
                z.req = n;
                z.count = call([&] { return iso_zone_chunk_count(z.h); });
                CHECK(z.count > 0 && z.count * ((n + 31) / 32 * 32) <= ZONE_BYTES, "zone for %llu bytes holds %llu chunks", (unsigned long long) n, (unsigned long long) z.count);
                L l(&mu);
                for(auto &q : zones) CHECK(!q.alive || q.h != z.h, "two live zones share a handle");
                zones.push_back(z);
                break;
            }
            case NAMEZONE: {
                int z = use_zone(o.a);
                if(z < 0) break;
                char name[] = "a zone";
                call([&] { return iso_alloc_name_zone(zones[z].h, name); });
                leave_zone(z);
                break;
            }
            case TAGS: {
                Block b;
                if(!take(o.a, b, t)) break;
                if(b.zone >= 0) {
                    void *h;
                    {
                        L l(&mu);
                        h = zones[b.zone].h;
                        zones[b.zone].users++;
                    }
                    void *p = (void *) b.p;
                    int g = call([&] { return iso_alloc_get_mem_tag(p, h); });
                    u64 q = (u64) call([&] { return iso_alloc_tag_ptr(p, h); });
                    CHECK(q == (MEMORY_TAGGING ? (u64) g << 56 | b.p : b.p), "the tag of %#llx is %#x but the tagged pointer is %#llx", (unsigned long long) b.p, g, (unsigned long long) q);
                    CHECK(MEMORY_TAGGING || g == 0, "a tag in a build without tags");
                    u64 u = (u64) call([&] { return iso_alloc_untag_ptr((void *) q, h); });
                    CHECK(u == b.p, "tagging and untagging %#llx gives %#llx", (unsigned long long) b.p, (unsigned long long) u);
                    call([&] { iso_alloc_verify_ptr_tag((void *) q, h); return 0; });
                    CHECK(b.tag < 0 || b.tag == g, "the tag of a live chunk changed from %#x to %#x", b.tag, g);
                    b.tag = g;
                    cls(C_TAGS);
                    L l(&mu);
                    zones[b.zone].users--;
                }
                put_back(b);
                break;
            }
            case RARRAY: {
                Block b;
                u64 m = 1 + (u64) o.b % 60, q = 1 + (u64) o.b / 60 % 40;
                if(!room(m * q) || !take(o.a, b, t)) break;
                verify(b, "before a resize");
                if(b.zone >= 0) { // the zone must outlive the call
                    L l(&mu);
                    zones[b.zone].users++;
                    zones[b.zone].inflight++;
                }
                gone(b);
                void *p = call([&] { return iso_reallocarray((void *) b.p, m, q); });
                if(b.zone >= 0) {
                    L l(&mu);
                    zones[b.zone].users--;
                    zones[b.zone].inflight--;
                }
                CHECK(p != NULL, "resize failed");
                Block r = b;
                r.p = (u64) p;
                verify(r, "after a resize", b.usable < m * q ? b.usable : m * q);
                add(p, m * q, -1, t);
                break;
            }
            case ZSTR:
            case ZTAGGED:
            case ZALLOC: {
                int z = use_zone(o.a);
                if(z < 0) break;
                u64 req, count;
                void *h;
                {
                    L l(&mu);
                    req = zones[z].req, h = zones[z].h, count = zones[z].count;
                    zones[z].inflight++;
                }
                if(room(req)) {
                    char s[64];
                    u64 sl = (u64) o.b % (req < 64 ? req : 64);
                    for(u64 i = 0; i < sl; i++) s[i] = (char) ('A' + (i * 5 + (u64) o.b) % 26);
                    s[sl] = 0;
                    void *p = call([&]() -> void * {
                        if(o.k == ZALLOC) return iso_alloc_from_zone(h);
                        if(o.k == ZSTR) return o.b & 1 ? iso_strdup_from_zone(h, s) : iso_strndup_from_zone(h, s, sl + 3);
                        void *q = iso_alloc_from_zone_tagged(h);
                        if(q == NULL) return NULL;
                        void *u = iso_alloc_untag_ptr(q, h);
                        CHECK((u64) u == ((u64) q & 0xffffffffffffffull) || !MEMORY_TAGGING, "untagging %p gives %p", q, u);
                        return u;
                    });
                    if(p && o.k == ZSTR) CHECK(strcmp((char *) p, s) == 0, "string duplicate differs");
                    if(p == NULL) {
                        L l(&mu);
                        cls(C_REFUSED);
                        const Zn &q = zones[z];
                        u64 maybe = q.live + q.inflight + (q.frees < 70 ? q.frees : 70) + q.perm;
                        CHECK(CPU_PIN || maybe >= count, "a zone of %llu byte chunks refused a request with at most %llu of its %llu chunks out", (unsigned long long) req, (unsigned long long) maybe, (unsigned long long) count);
                    } else {
                        {
                            L l(&mu);
                            zones[z].live++;
                        }
                        add(p, req, z, t);
                    }
                }
                L l(&mu);
                zones[z].inflight--;
                zones[z].users--;
                break;
            }
            case DESTROYZONE: {
                void *h = NULL;
                std::vector<Block> dead;
                {
                    L l(&mu);
                    std::vector<int> v;
                    for(size_t i = 0; i < zones.size(); i++)
                        if(zones[i].alive && zones[i].users == 0) v.push_back((int) i);
                    if(v.empty()) break;
                    int z = v[(u64) o.a % v.size()];
                    // Blocks taken by other threads at this moment keep the zone.
                    u64 mine = 0;
                    for(auto &b : live) mine += b.zone == z;
                    if(mine != zones[z].live) break;
                    for(size_t i = 0; i < live.size();)
                        if(live[i].zone == z) {
                            dead.push_back(live[i]);
                            iv.erase(live[i].p);
                            total -= live[i].usable;
                            live[i] = live.back();
                            live.pop_back();
                        } else
                            i++;
                    zones[z].alive = false;
                    zones[z].live = 0;
                    h = zones[z].h;
                }
                for(auto &b : dead) verify(b, "before its zone is destroyed");
                call([&] { iso_alloc_destroy_zone(h); return 0; });
                cls(C_DESTROY);
                break;
            }
            case VERIFY_ALL: call([&] { iso_verify_zones(); return 0; }), cls(C_RETIRE); break;
            case VERIFY_ZONE:
            case ZLEAKS: {
                int z = use_zone(o.a);
                if(z < 0) break;
                void *h;
                {
                    L l(&mu);
                    h = zones[z].h;
                }
                call([&] {
                    if(o.k == VERIFY_ZONE) iso_verify_zone(h);
                    else {
                        iso_alloc_detect_zone_leaks(h);
                        iso_alloc_zone_mem_usage(h);
                    }
                    return 0;
                });
                cls(C_RETIRE);
                leave_zone(z);
                break;
            }
            case LEAKS: call([&] { return iso_alloc_detect_leaks(); }), cls(C_RETIRE); break;
            case USAGE: call([&] { return iso_alloc_mem_usage(); }), cls(C_RETIRE); break;
            case FLUSH: call([&] { iso_flush_caches(); return 0; }); break;
            case ZERO: {
                void *p = call([&] { return iso_alloc(0); });
                (void) p;
#if NO_ZERO_ALLOCATIONS
                call([&] { iso_free(p); return 0; });
#else
                if(p) add(p, 0, -1, t);
#endif
                break;
            }
            case BURST: {
                void *v[100];
                int k = 0;
                for(; k < o.b && k < 100 && room(n * 2); k++) {
                    v[k] = call([&] { return iso_alloc(n); });
                    CHECK(v[k] != NULL, "allocation failed");
                    *(volatile u64 *) v[k] = n ^ (u64) v[k]; // private to this thread until it is freed
                }
                while(k-- > 0) {
                    CHECK(*(volatile u64 *) v[k] == (n ^ (u64) v[k]), "a block changed while its thread held it");
                    call([&] {
                        if(o.b & 1) iso_free(v[k]);
                        else iso_free_size(v[k], n);
                        return 0;
                    });
                }
                break;
            }
            case MOVE: {
                cpu_set_t cs;
                CPU_ZERO(&cs);
                CPU_SET((int) (o.a % 8), &cs);
                sched_setaffinity(0, sizeof cs, &cs);
                break;
            }
        }
    }
    struct Arg {
        Threads *th;
        int t;
        pthread_barrier_t *bar;
    };
    static void *thread_main(void *v) {
        Arg *a = (Arg *) v;
        if(real()) {
            pthread_barrier_wait(a->bar);
            for(auto &o : a->th->prog[a->t]) a->th->run_op(o, a->t);
            return NULL;
        }
        sch::self = a->t;
        while(sem_wait(&sch::go[a->t]) != 0) {}
        for(auto &o : a->th->prog[a->t]) a->th->run_op(o, a->t);
        sch::finish();
        sch::self = -1;
        return NULL;
    }
    void execute(const Case &c) override {
        prog.assign(MAXT, {});
        live.clear(), iv.clear(), zones.clear(), seen.clear();
        live.reserve(8192);
        zones.reserve(128);
        total = 0;
        int T = 0;
        for(auto &o : c.ops) {
            int t = (int) ((u64) o.c % MAXT);
            prog[t].push_back(o);
            if(t + 1 > T) T = t + 1;
        }
        if(T == 0) return;
        iso_alloc_initialize();
        sch::rng = Rng(c.entropy ^ 0x5c4ed);
        sch::nthreads = T;
        sch::mode = (int) sch::rng.below(3);
#if USE_SPINLOCK
        sch::mode %= 2;
#endif
        static const long means[] = {4, 25, 150, 1000, 8000};
        sch::mean = means[sch::rng.below(5)];
        for(int i = 0; i <= MAXT; i++) sem_init(&sch::go[i], 0, 0);
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, NULL, (unsigned) T);
        Arg args[MAXT];
        pthread_t th[MAXT];
        for(int i = 0; i < T; i++) sch::done[i] = false, sch::blocked[i] = NULL;
        sch::countdown = sch::quantum();
        if(!real()) { // one CPU: switching is cheap, and what the library sees of it replays
            cpu_set_t cs;
            CPU_ZERO(&cs);
            CPU_SET((int) ((CPU_PIN ? c.entropy : (u64) getpid()) % (u64) sysconf(_SC_NPROCESSORS_ONLN)), &cs);
            sched_setaffinity(0, sizeof cs, &cs);
            sch::active = true;
        }
        for(int i = 0; i < T; i++) {
            args[i] = Arg{this, i, &bar};
            CHECK(pthread_create(&th[i], NULL, thread_main, &args[i]) == 0, "cannot create a thread");
        }
        if(!real()) {
            sem_post(&sch::go[sch::rng.below((u64) T)]);
            while(sem_wait(&sch::go[MAXT]) != 0) {}
        }
        for(int i = 0; i < T; i++) pthread_join(th[i], NULL);
        sch::active = false;
        // Everything is as a single thread would have left it.
        for(auto &b : live) verify(b, "at the end");
        iso_verify_zones();
        iso_flush_caches();
        iso_verify_zones();
        u64 want = 0;
        for(auto &b : live) want += b.big ? b.usable : 1;
#if LEAK_DETECTOR && !ALLOC_SANITY
        u64 got = iso_alloc_detect_leaks();
        CHECK(got == want, "%llu leaks are reported and %llu blocks and bytes are held", (unsigned long long) got, (unsigned long long) want);
#endif
        for(auto &b : live) {
            if(b.p & 32) iso_free((void *) b.p);
            else iso_free_size((void *) b.p, b.usable);
        }
        iso_flush_caches();
        iso_verify_zones();
#if LEAK_DETECTOR && !ALLOC_SANITY
        got = iso_alloc_detect_leaks();
        CHECK(got == 0, "%llu leaks are reported after everything was freed", (unsigned long long) got);
#endif
        for(auto &z : zones)
            if(z.alive) iso_alloc_destroy_zone(z.h);
        if(sch::preempted_inside) cls(C_INSIDE);
        if(sch::switches > 200) cls(C_SPINS);
        if(real() ? T >= 2 && freed_cross > 0 : sch::preempted_inside >= 5) nontrivial();
    }
};
int main(int argc, char **argv) {
    for(int i = 1; i + 1 < argc; i++)
        if(!strcmp(argv[i], "--extra")) profile = argv[i + 1];
    Threads h;
    return run_main(h, argc, argv);
}
