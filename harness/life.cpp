// life.cpp - C36: initialise, use, destroy, and again.
// Histories of several life cycles with leftovers of every kind.  The library's mappings are counted at
// the calls it makes of the operating system, so that what destroying gives back can be compared exactly.
#define PBT_MAIN 1
#include "world.hpp"
#include <thread>
using namespace pbt;
using namespace world;

// -- the memory the library holds of the system ---------------------------------------------------------
struct Held {
    std::map<u64, u64> m; // lo -> hi
    u64 calls = 0;
    void put(u64 lo, u64 hi) {
        drop(lo, hi);
        m[lo] = hi;
    }
    void drop(u64 lo, u64 hi) {
        auto it = m.upper_bound(lo);
        if(it != m.begin()) --it;
        while(it != m.end() && it->first < hi) {
            u64 a = it->first, b = it->second;
            if(b <= lo) {
                ++it;
                continue;
            }
            it = m.erase(it);
            if(a < lo) m[a] = lo;
            if(b > hi) it = m.insert({hi, b}).first;
        }
    }
    u64 bytes() const {
        u64 n = 0;
        for(auto &x : m) n += x.second - x.first;
        return n;
    }
    bool has(u64 p) const {
        auto it = m.upper_bound(p);
        return it != m.begin() && (--it)->second > p;
    }
};
static Held *held() {
    static Held *h = new Held; // the library may start before the harness
    return h;
}
static u64 page_up(u64 n) { return (n + 4095) & ~4095ull; }
extern "C" {
void *hk_mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) {
    if(flags & MAP_HUGETLB) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *r = mmap(p, n, prot, flags, fd, off);
    held()->calls++;
    if(r != MAP_FAILED) held()->put((u64) r, (u64) r + page_up(n));
    return r;
}
int hk_munmap(void *p, size_t n) {
    int r = munmap(p, n);
    held()->calls++;
    if(r == 0) held()->drop((u64) p, (u64) p + page_up(n));
    return r;
}
}

// -- an allocation before any constructor ----------------------------------------------------------------
#if AUTO_CTOR_DTOR
struct Early {
    void *p;
    u64 n;
    };
static Early g_early[24];
static int g_nearly;
static bool g_early_ok = true;
static void early(int argc, char **argv, char **envp) {
    u64 s = 7;
    for(int i = 1; i < argc; i++)
        for(char *c = argv[i]; *c; c++) s = s * 31 + (unsigned char) *c;
    for(int i = 0; i < 24; i++) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        u64 n = (s >> 33) % (i % 4 == 3 ? 300000 : 3000) + 1;
        int how = (int) ((s >> 20) % 3);
        void *p = how == 0 ? iso_alloc(n) : how == 1 ? iso_calloc(1, n) : iso_realloc(NULL, n);
        if(!p) {
            g_early_ok = false;
            continue;
        }
        if(how == 1)
            for(u64 k = 0; k < n; k++)
                if(((unsigned char *) p)[k]) g_early_ok = false;
        memset(p, 0x40 + i, n);
        g_early[g_nearly++] = Early{p, n};
    }
}
__attribute__((section(".preinit_array"), used)) static void (*early_entry)(int, char **, char **) = early;
static void early_check(const char *when) {
    CHECK(g_early_ok, "an allocation before the constructor failed or was not zeroed");
    for(int i = 0; i < g_nearly; i++) {
        unsigned char *p = (unsigned char *) g_early[i].p;
        CHECK(iso_chunksz(p) >= g_early[i].n, "a block of before the constructor is smaller than requested %s", when);
        for(u64 k = 0; k < g_early[i].n; k++) CHECK(p[k] == p[0] && p[0] >= 0x40 && p[0] < 0x60, "a block allocated before the constructor lost its contents %s", when);
    }
}
#endif

enum K { SPEC, ALLOC, BIG, CALLOC, REALLOC, ZERO, NEWZONE, ZALLOC, STRDUP, FREE, FREESIZE, FREEPERM, DESTROYZONE, FLUSH, PROTECT, VERIFY, CHURN, THREAD, REINIT, DESTROY, NK };
static const char *NAMES[] = {"spec", "alloc", "big", "calloc", "realloc", "zero", "newzone", "zalloc", "strdup", "free", "freesize", "freeperm", "destroyzone", "flush", "protect", "verify", "churn", "thread", "reinit", "destroy"};
enum C { C_CYCLES, C_LEFT_SMALL, C_LEFT_BIG, C_LEFT_ZONE, C_FREE_BIG, C_PENDING, C_REINIT, C_FIRST_ALLOC, C_EMPTY, C_THREAD, C_AT_EXIT, C_GAVE_BACK, C_KEPT, C_PERM, C_USED_AFTER, NC };
static const char *CNAMES[] = {"second_or_later_cycle", "small_blocks_left", "large_blocks_left", "private_zones_left", "free_large_blocks_left", "pending_frees_left", "initialized_again", "initialized_by_first_allocation", "destroyed_unused",
                               "thread_used_it", "destroyed_at_exit", "memory_given_back", "memory_kept", "permanent_frees_left", "used_after_destroy"};

static World *g_w;
static bool g_up;      // initialized
static bool g_exiting; // a case that ends with the automatic destructor

struct Life : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "the allocator was destroyed with blocks, zones or pending frees left over, or it was initialized again while in use"; }
    int timeout_s() const override { return 120; }
    Case generate(Rng &r, u64) override {
        Case c;
        c.ops.push_back(Op{SPEC, (i64) r.below(2), (i64) r.below(1000), 0});
        int cycles = r.chance(1, 6) ? (int) r.range(5, 14) : (int) r.range(1, 4);
        int churn = r.chance(1, 4) ? 1 : 0;
        for(int y = 0; y < cycles; y++) {
            int n = cycles > 4 ? (int) r.below(12) : (int) r.below(r.chance(1, 3) ? 6 : 60);
            for(int i = 0; i < n; i++) {
                int k = 1 + r.weighted({9, 7, 3, 4, 2, 4, 7, 2, 9, 5, 2, 2, 2, 1, 2, churn ? 2 : 0, 2, 4});
                if(k == CHURN) churn = 0;
                i64 a = (i64) r.below(1u << 30);
                if(k == ALLOC || k == NEWZONE) a = r.chance(1, 2) ? (i64) r.below(600) : (i64) r.below(65537);
                if(k == BIG) a = r.chance(1, 4) ? 4194304 - 4096 + (i64) r.below(8192) : 65537 + (i64) r.below(600000);
                if(k == CALLOC) a = (i64) r.below(r.chance(1, 3) ? 200000 : 3000);
                c.ops.push_back(Op{k, a, k == REALLOC ? 1 + (i64) r.below(r.chance(1, 3) ? 300000 : 5000) : (i64) r.below(1000), (i64) r.below(1000)});
            }
            if(y + 1 < cycles || r.chance(1, 2)) c.ops.push_back(Op{DESTROY, (i64) r.below(1000), (i64) r.below(1000), 0});
        }
        return c;
    }

    // ---- state between cycles ----
    struct Fresh {
        u64 leaks, usage, held;
    };
    Fresh fresh{0, 0, 0};
    bool have_fresh = false;
    std::vector<std::pair<u64, u64>> given; // blocks handed out in this cycle
    std::vector<std::pair<u64, u64>> reserved;
    int cycle = 0;

    void initialized(u64 entropy) {
        delete g_w;
        g_w = new World(entropy + (u64) cycle * 77);
        g_w->f.guards = true;
        g_w->f.perm = true;
        g_w->f.leaks = !ALLOC_SANITY;
#if CPU_PIN
        g_w->f.pinned = true;
#endif
        given.clear();
        g_up = true;
        if(cycle) cls(C_CYCLES);
    }
    void fresh_check() {
        Fresh now{iso_alloc_detect_leaks(), iso_alloc_mem_usage(), held()->bytes()};
#if AUTO_CTOR_DTOR
        if(cycle == 0) return; // blocks of before the constructor
#endif
        CHECK(now.leaks == 0, "the leak report says %llu right after the initialization of cycle %d", (unsigned long long) now.leaks, cycle);
        if(have_fresh) {
            CHECK(now.usage == fresh.usage, "memory in use right after initialization %d is %llu, after the first one it was %llu", cycle, (unsigned long long) now.usage, (unsigned long long) fresh.usage);
        } else
            fresh = now;
        have_fresh = true;
    }
    void up(u64 entropy, i64 how) {
        if(g_up) return;
        u64 before = held()->bytes();
#if AUTO_CTOR_DTOR && ISO_DTOR_CLEANUP
        if(how & 1) { // by the first allocation
            static const u64 SIZES[] = {1, 32, 200, 1024, 4000, 65536, 65537, 300000, 0};
            u64 n = SIZES[(u64) how / 2 % 9];
            int by = n ? (int) (how / 18 % 3) : 0;
            void *p = by == 0 ? iso_alloc(n) : by == 1 ? iso_calloc(1, n) : iso_realloc(NULL, n);
            initialized(entropy);
            cls(C_FIRST_ALLOC);
            CHECK(p != NULL || n == 0, "the first allocation of a cycle failed");
            if(n) {
                if(by == 1)
                    for(u64 k = 0; k < n; k++) CHECK(((unsigned char *) p)[k] == 0, "the first allocation of a cycle is not zeroed");
                note(g_w->add(p, n, -1, true, by != 1));
            } else if(p)
                iso_free(p);
            cycle++;
            return;
        }
#endif
        (void) before;
        iso_alloc_initialize();
        initialized(entropy);
        fresh_check();
        cycle++;
    }
    void note(int id) {
        const Slot &s = g_w->slots[id];
        if(given.size() < 3000) given.push_back({s.p, s.p + s.usable});
    }
    void down(bool call) {
        World &w = *g_w;
        bool left = !w.live.empty() || !w.pending.empty() || w.zone_count();
        u64 small = 0, big = 0, freebig = 0;
        for(int id : w.live) (w.slots[id].big ? big : small)++;
        for(auto &b : w.bigfree) {
            bool again = false;
            for(int id : w.live) again |= w.slots[id].p < b.first + b.second && w.slots[id].p + w.slots[id].usable > b.first;
            freebig += !again;
        }
        if(small) cls(C_LEFT_SMALL);
        if(big) cls(C_LEFT_BIG);
        if(freebig) cls(C_FREE_BIG);
        if(w.zone_count()) cls(C_LEFT_ZONE);
        if(!w.pending.empty()) cls(C_PENDING);
        if(!w.perm.empty()) cls(C_PERM);
        if(w.allocs == 0) cls(C_EMPTY);
        if(left) nontrivial();
        w.verify_all_slots();
        if(call) {
            iso_alloc_destroy();
            destroyed();
        }
    }
    // What holds after the allocator was destroyed.
    void destroyed() {
        World &w = *g_w;
#if ISO_DTOR_CLEANUP
        for(int id : w.live) {
            const Slot &s = w.slots[id];
            gone(s.p, s.usable, "a block that was in use");
        }
        for(auto &q : w.pending) gone(q.lo, q.hi - q.lo, "a block pending to be freed");
        for(auto &b : given)
            if(!w.perm.count(b.first) || b.second - b.first <= SMALL_MAX) gone(b.first, b.second - b.first, "a block of the destroyed allocator");
        // Permanently freed large blocks keep their addresses, without access, so that they are never used again.
        for(auto &b : w.perm)
            if(b.second - b.first > SMALL_MAX) reserved.push_back(b);
        u64 keep = 0;
        Held rem;
        rem.m = held()->m;
        for(auto &b : reserved) {
            CHECK(!readable((void *) b.first) && !readable((void *) (b.second - 1)), "a permanently freed block is accessible");
            rem.drop(b.first - PAGE * BIG_ZONE_GUARD, b.second + PAGE * BIG_ZONE_GUARD);
            keep += PAGE * (1 + 2 * BIG_ZONE_META_DATA_GUARD);
        }
        std::string rest;
        for(auto &x : rem.m) {
            char t[80];
            snprintf(t, sizeof t, " [%#llx,+%llu)", (unsigned long long) x.first, (unsigned long long) (x.second - x.first));
            if(rest.size() < 400) rest += t;
        }
        CHECK(rem.bytes() <= keep, "destroying left %llu bytes mapped:%s", (unsigned long long) rem.bytes(), rest.c_str());
        cls(C_GAVE_BACK);
        g_up = false;
#else
        w.pending_flushed();
        w.verify_all_slots();
        for(int id : w.live) {
            const Slot &s = w.slots[id];
            CHECK(writable((void *) s.p) && writable((void *) (s.p + s.usable - 1)), "a block in use cannot be written after the allocator was destroyed without cleanup");
        }
        cls(C_KEPT);
#endif
    }
    void gone(u64 p, u64 n, const char *what) {
        for(auto &b : reserved)
            if(p >= b.first && p < b.second) return;
        if(held()->has(p) || held()->has(p + n - 1)) fail("%s of %llu bytes is still mapped after cleanup", what, (unsigned long long) n);
    }

    void execute(const Case &c) override {
        if(c.ops.empty() || c.ops[0].k != SPEC) return;
        g_up = false;
        cycle = 0;
        have_fresh = false;
        reserved.clear();
#if AUTO_CTOR_DTOR
        early_check("at the start");
        initialized(c.entropy);
        for(int i = 0; i < g_nearly; i++) note(g_w->add(g_early[i].p, g_early[i].n, -1, true, false));
        cycle = 1;
#else
        CHECK(held()->bytes() == 0, "the library holds memory before it was initialized");
#endif
        bool after = false;
        for(size_t i = 1; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            up(c.entropy, o.b);
            World &w = *g_w;
            if(after && o.k != DESTROY) cls(C_USED_AFTER);
            switch(o.k) {
                case ALLOC:
                case BIG: {
                    u64 n = (u64) o.a + 1;
                    note(w.add(iso_alloc(n), n, -1));
                    break;
                }
                case CALLOC: {
                    u64 n = 1 + (u64) o.a;
                    unsigned char *p = (unsigned char *) iso_calloc(1, n);
                    CHECK(p, "calloc failed");
                    for(u64 k = 0; k < n; k++) CHECK(p[k] == 0, "byte %llu of calloc(1, %llu) is not zero", (unsigned long long) k, (unsigned long long) n);
                    note(w.add(p, n, -1, true, false));
                    break;
                }
                case REALLOC: {
                    int id = w.pick_live(o.a);
                    if(id < 0) break;
                    note(w.realloc_(id, 1 + (u64) o.b));
                    break;
                }
                case ZERO: {
#if !NO_ZERO_ALLOCATIONS
                    note(w.add(iso_alloc(0), 0, -1)); // a block like others
                    break;
#endif
                    void *p = iso_alloc(0);
                    if(!p) break;
                    void *q = iso_alloc(0);
                    if(o.a & 1) iso_free(p);
                    if(q != p || !(o.a & 1)) iso_free(q);
                    break;
                }
                case NEWZONE: {
                    if(w.zone_count() >= 20) break;
                    w.new_zone((u64) o.a % 65536 + 1);
                    break;
                }
                case ZALLOC: {
                    int zi = w.pick_zone(o.a);
                    if(zi < 0) break;
                    int times = 1 + (int) (o.b % 6);
                    for(int t = 0; t < times && !w.may_refuse(w.zones[zi]); t++) {
                        int id = w.zalloc(zi);
                        if(id >= 0) note(id);
                    }
                    break;
                }
                case STRDUP: {
                    char s[300];
                    size_t n = (size_t) o.a % 290;
                    memset(s, 'a' + (int) (o.b % 26), n);
                    s[n] = 0;
                    char *p = iso_strdup(s);
                    CHECK(p && !memcmp(p, s, n + 1), "a copied string differs");
                    note(w.add(p, n + 1, -1, true, false));
                    break;
                }
                case FREE:
                case FREESIZE:
                case FREEPERM: {
                    int id = w.pick_live(o.a);
                    if(id < 0) break;
                    if(o.k == FREE) w.free_(id);
                    else if(o.k == FREESIZE) w.free_size(id, (int) o.b);
                    else w.free_perm(id);
                    break;
                }
                case DESTROYZONE: {
                    int zi = w.pick_zone(o.a);
                    if(zi >= 0) w.destroy_zone(zi);
                    break;
                }
                case FLUSH: w.flush(); break;
                case PROTECT:
                    iso_alloc_protect_root();
                    iso_alloc_unprotect_root();
                    break;
                case VERIFY:
                    iso_verify_zones();
                    w.verify_all_slots();
                    w.check_leaks();
                    break;
                case CHURN: {
                    u64 n = o.a & 1 ? 30000 + (u64) o.a % 30000 : 65000;
                    std::vector<int> ids;
                    for(int t = 0; t < 200; t++) {
                        ids.push_back(w.add(iso_alloc(n), n, -1));
                        note(ids.back());
                    }
                    for(size_t t = 0; t < ids.size(); t++)
                        if((t + (size_t) o.b) % 3) w.free_any(ids[t], (u64) o.b + t);
                    break;
                }
                case THREAD: {
                    cls(C_THREAD);
                    Rng r((u64) o.a * 1000 + (u64) o.b);
                    std::thread t([&] {
                        for(int k = 0; k < 12; k++) {
                            if(!w.live.empty() && r.chance(1, 3)) w.free_any(w.pick_live((i64) r.below(1u << 30)), r.below(64));
                            else {
                                u64 n = 1 + r.below(r.chance(1, 5) ? 200000 : 2000);
                                note(w.add(iso_alloc(n), n, -1));
                            }
                        }
                    });
                    t.join();
                    break;
                }
                case REINIT: {
                    u64 calls = held()->calls, bytes = held()->bytes();
                    iso_alloc_initialize();
                    CHECK(held()->bytes() == bytes, "initializing again took %lld bytes", (long long) (held()->bytes() - bytes));
                    (void) calls;
                    w.verify_all_slots();
                    w.check_leaks();
                    cls(C_REINIT);
                    if(!w.live.empty()) nontrivial();
                    break;
                }
                case DESTROY:
                    down(true);
#if !ISO_DTOR_CLEANUP
                    after = true;
#endif
                    break;
            }
        }
        at((int) c.ops.size());
        if(g_up) {
            g_w->verify_all_slots();
            g_w->check_fences();
            iso_verify_zones();
            down(!AUTO_CTOR_DTOR || (c.ops[0].b & 3) == 0);
        }
#if AUTO_CTOR_DTOR
        g_exiting = true;
        g_life = this;
        cls(C_AT_EXIT);
        if(!(g_up)) g_w = NULL;
        exit(0); // the destructor destroys it
#endif
    }
    static Life *g_life;
};
Life *Life::g_life;
#if AUTO_CTOR_DTOR
// After the library's destructor.
__attribute__((destructor(101))) static void last() {
    if(!g_exiting) return;
    if(g_w && g_up) {
        Life::g_life->destroyed();
    }
    g_sh->work = 1 + g_sh->work;
    _exit(0);
}
#endif
int main(int argc, char **argv) {
    Life h;
    return run_main(h, argc, argv);
}
