// pin.cpp - C39: with CPU_PIN a zone only serves the processor core that made it.
// The core the caller runs on is what the redirected sched_getcpu() says; the core on which a zone was
// made is known from the library's calls of mmap.
#define PBT_MAIN 1
#include "world.hpp"
#include <mutex>
#include <thread>
using namespace pbt;
using namespace world;

static int g_core;
static thread_local int t_core = -1; // a thread that stays on its core
struct Made {
    u64 hi;
    int core;
};
static std::map<u64, Made> *made() {
    static std::map<u64, Made> *m = new std::map<u64, Made>;
    return m;
}
static u64 g_zones;
static std::mutex g_mu;
static int now_core() { return t_core >= 0 ? t_core : g_core; }
extern "C" {
int hk_sched_getcpu(void) { return now_core(); }
void *hk_mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) {
    if(flags & MAP_HUGETLB) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *r = mmap(p, n, prot, flags, fd, off);
    if(r == MAP_FAILED) return r;
    std::lock_guard<std::mutex> l(g_mu);
    u64 lo = (u64) r, hi = lo + ((n + 4095) & ~4095ull);
    auto it = made()->upper_bound(lo);
    if(it != made()->begin() && std::prev(it)->second.hi >= hi) return r; // within another
    (*made())[lo] = Made{hi, now_core()};
    if(n >= ZONE_BYTES) g_zones++;
    return r;
}
int hk_munmap(void *p, size_t n) {
    int r = munmap(p, n);
    std::lock_guard<std::mutex> l(g_mu);
    if(r == 0) {
        auto it = made()->find((u64) p);
        if(it != made()->end()) made()->erase(it);
    }
    return r;
}
}

enum K { SPEC, ALLOC, ALIKE, FREE, FREESIZE, FREEPERM, NEWZONE, ZALLOC, ZFILL, ZFREE, DESTROYZONE, MOVE, CHURN, ROUND, FLUSH, VERIFY, REALLOC, BIG, THREAD, BOUNDED, NK };
static const char *NAMES[] = {"spec", "alloc", "alike", "free", "freesize", "freeperm", "newzone", "zalloc", "zfill", "zfree", "destroyzone", "move", "churn", "round", "flush", "verify", "realloc", "big", "thread", "bounded"};
enum C { C_OTHER, C_FREED_OTHER, C_PRIV_REFUSED, C_PRIV_SERVED, C_RETIRED, C_HIGH, C_THREAD, C_ALIKE, C_FULL, C_BOUNDED, NC };
static const char *CNAMES[] = {"allocation_on_another_core", "freed_on_another_core", "private_zone_refused_another_core", "private_zone_served_its_core", "zone_made_after_the_start", "core_above_255", "second_thread", "same_size_on_two_cores", "private_zone_filled_again",
                               "bounded_zones"};
struct Pin : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "small blocks were allocated on at least two cores, or a private zone was asked from another core"; }
    int timeout_s() const override { return 120; }
    static i64 core(Rng &r) {
        switch(r.below(6)) {
            case 0: return (i64) r.below(2);
            case 1: return (i64) r.below(1024);
            case 2: return 256 * (i64) r.below(4);
            case 3: return (i64) (255 + r.below(3));
            default: return (i64) r.below(8);
        }
    }
    Case generate(Rng &r, u64) override {
        Case c;
        std::vector<i64> cores;
        int nc = (int) r.range(2, 4);
        for(int i = 0; i < nc; i++) cores.push_back(core(r));
        c.ops.push_back(Op{SPEC, cores[0], 0, 0});
        int n = (int) r.range(2, r.chance(1, 3) ? 150 : 40), heavy = r.chance(1, 4) ? 2 : 0;
        for(int i = 0; i < n; i++) {
            int k = 1 + r.weighted({9, 3, 6, 3, 1, 3, 6, 1, 3, 1, 14, heavy, heavy, 1, 1, 2, 2, 1, 1});
            Op o{k, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
            if(k == CHURN || k == ROUND) heavy = 0;
            if(k == ALLOC || k == NEWZONE) o.a = r.chance(1, 2) ? (i64) r.below(600) : (i64) r.below(65536);
            if(k == REALLOC) o.b = (i64) r.below(r.chance(1, 2) ? 300 : 70000);
            if(k == MOVE || k == THREAD) o.a = r.chance(9, 10) ? cores[r.below(cores.size())] : core(r);
            c.ops.push_back(o);
        }
        return c;
    }
    World *w = NULL;
    std::set<int> cores; // small blocks were allocated there
    std::vector<int> zcore;
    std::vector<u64> zcap;
    std::vector<char> zpure; // only tried on its own core, no permanent frees
    int at_core(u64 p) {
        std::lock_guard<std::mutex> l(g_mu);
        auto it = made()->upper_bound(p);
        CHECK(it != made()->begin() && (--it)->second.hi > p, "a block lies outside of the library's mappings");
        return it->second.core;
    }
    int took(int id, const char *what) {
        const Slot &s = w->slots[id];
        if(s.big) return id;
        int c = at_core(s.p);
        CHECK(c == now_core(), "%s on core %d came from a zone that core %d made", what, now_core(), c);
        cores.insert(c);
        if(cores.size() > 1) {
            cls(C_OTHER);
            nontrivial();
        }
        if(c > 255) cls(C_HIGH);
        return id;
    }
    int pick_in(int zi, u64 x) {
        std::vector<int> v;
        for(int id : w->live)
            if(w->slots[id].zone == zi) v.push_back(id);
        return v.empty() ? -1 : v[x % v.size()];
    }
    void freeing(int id) {
        const Slot &s = w->slots[id];
        if(!s.big && at_core(s.p) != now_core()) cls(C_FREED_OTHER);
    }
    void zalloc(int zi) {
        void *p = iso_alloc_from_zone(w->zones[zi].h);
        if(now_core() != zcore[zi]) {
            CHECK(p == NULL, "a private zone that core %d made served core %d", zcore[zi], now_core());
            cls(C_PRIV_REFUSED);
            nontrivial();
            return;
        }
        if(!p) {
            Zone &z = w->zones[zi];
            CHECK(z.live + z.pending + z.perm >= z.count, "a private zone refused the core that made it, holding %llu of the %llu chunks it advertises", (unsigned long long) z.live, (unsigned long long) z.count);
            return;
        }
        cls(C_PRIV_SERVED);
        took(w->add(p, w->zones[zi].req, zi), "a chunk of a private zone");
    }
    void execute(const Case &c) override {
        if(c.ops.empty() || c.ops[0].k != SPEC) return;
        g_core = (int) (c.ops[0].a & 4095);
        iso_alloc_initialize();
        delete w;
        w = new World(c.entropy);
        w->f.perm = true;
        w->f.pinned = true;
        cores.clear();
        zcore.clear();
        u64 sz_last = 100;
        for(size_t i = 1; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            u64 z0 = g_zones;
            switch(o.k) {
                case ALLOC:
                case ALIKE: {
                    u64 n = o.k == ALIKE ? sz_last : (u64) o.a % SMALL_MAX + 1;
                    if(o.k == ALIKE && cores.size() > 1) cls(C_ALIKE);
                    sz_last = n;
                    void *p = o.b & 1 ? iso_calloc(1, n) : iso_alloc(n);
                    CHECK(p, "allocation of %llu bytes failed on core %d", (unsigned long long) n, now_core());
                    took(w->add(p, n, -1, true, !(o.b & 1)), "a block");
                    break;
                }
                case FREE:
                case FREESIZE:
                case FREEPERM: {
                    int id = w->pick_live(o.a);
                    if(id < 0) break;
                    freeing(id);
                    if(o.k == FREE) w->free_(id);
                    else if(o.k == FREESIZE) w->free_size(id, (int) o.b);
                    else w->free_perm(id);
                    break;
                }
                case NEWZONE: {
                    if(w->zone_count() >= 12) break;
                    int zi = w->new_zone((u64) o.a % SMALL_MAX + 1);
                    if((size_t) zi >= zcore.size()) zcore.resize(zi + 1, -1);
                    zcore[zi] = now_core();
                    break;
                }
                case ZALLOC: {
                    int zi = w->pick_zone(o.a);
                    if(zi < 0) break;
                    for(int t = 0; t <= (int) (o.b % 4); t++) zalloc(zi);
                    break;
                }
                case ZFILL: { // its core gets all of it, whoever frees
                    int zi = w->pick_zone(o.a);
                    if(zi < 0 || w->zones[zi].count > 3000) break;
                    int back = g_core;
                    g_core = zcore[zi];
                    Zone &z = w->zones[zi];
                    for(u64 t = 0; t < z.count + 5 && z.live + z.pending + z.perm < z.count; t++) zalloc(zi);
                    g_core = back;
                    cls(C_FULL);
                    break;
                }
                case ZFREE: {
                    int zi = w->pick_zone(o.a);
                    if(zi < 0) break;
                    for(u64 t = 0; t <= (u64) o.b % 20; t++) {
                        int id = pick_in(zi, (u64) o.c + t);
                        if(id < 0) break;
                        freeing(id);
                        w->free_any(id, (u64) o.c);
                    }
                    break;
                }
                case DESTROYZONE: {
                    int zi = w->pick_zone(o.a);
                    if(zi >= 0) w->destroy_zone(zi);
                    break;
                }
                case MOVE: g_core = (int) (o.a & 4095); break;
                case CHURN: {
                    u64 n = 30000 + (u64) o.a % 35000;
                    std::vector<int> ids;
                    for(int t = 0; t < 160; t++) ids.push_back(took(w->add(iso_alloc(n), n, -1), "a block"));
                    for(size_t t = 0; t < ids.size(); t++)
                        if((t + (size_t) o.b) % 4) w->free_any(ids[t], (u64) o.b + t);
                    break;
                }
                case ROUND: {
                    u64 n = 60000 + (u64) o.a % 5000;
                    int back = g_core;
                    for(int t = 0; t < 1500; t++) {
                        void *p = iso_alloc(n);
                        CHECK(p, "allocation failed");
                        CHECK(at_core((u64) p) == now_core(), "a block on core %d came from a zone that core %d made", now_core(), at_core((u64) p));
                        if(o.b & 1) g_core = (int) (o.c & 7);
                        iso_free(p);
                        g_core = back;
                    }
                    w->flush();
                    break;
                }
                case FLUSH: w->flush(); break;
                case VERIFY: iso_verify_zones(); break;
                case REALLOC: {
                    int id = w->pick_live(o.a);
                    if(id < 0) break;
                    freeing(id);
                    took(w->realloc_(id, 1 + (u64) o.b), "a resized block");
                    break;
                }
                case BIG: {
                    u64 n = SMALL_MAX + 1 + (u64) o.a;
                    w->add(iso_alloc(n), n, -1);
                    break;
                }
                case BOUNDED: { // allocating and freeing on some cores takes a bounded number of zones
                    u64 n = 1 + (u64) o.a % 8000, before = g_zones;
                    int ring[3] = {(int) (o.b & 1023), (int) (o.c & 1023), g_core}, back = g_core;
                    int rounds = 60;
                    for(int t = 0; t < rounds * 3; t++) {
                        g_core = ring[t % 3];
                        void *p = iso_alloc(n);
                        CHECK(p && at_core((u64) p) == g_core, "a block on core %d came from a zone that core %d made", g_core, p ? at_core((u64) p) : -1);
                        g_core = ring[(t + 1) % 3];
                        iso_free(p);
                    }
                    g_core = back;
                    CHECK(g_zones - before <= 6, "allocating and freeing blocks of %llu bytes %d times on 3 cores made %llu zones", (unsigned long long) n, rounds * 3, (unsigned long long) (g_zones - before));
                    cls(C_BOUNDED);
                    w->flush();
                    break;
                }
                case THREAD: {
                    Rng r((u64) o.b * 1000 + (u64) o.c);
                    int core = (int) (o.a & 4095);
                    std::thread t([&] {
                        t_core = core;
                        for(int k = 0; k < 12; k++) {
                            int id = w->pick_live((i64) r.below(1u << 30));
                            if(id >= 0 && r.chance(1, 3)) {
                                freeing(id);
                                w->free_any(id, r.below(64));
                            } else {
                                u64 n = 1 + r.below(3000);
                                took(w->add(iso_alloc(n), n, -1), "a block");
                            }
                        }
                    });
                    t.join();
                    cls(C_THREAD);
                    break;
                }
            }
            if(g_zones != z0) cls(C_RETIRED);
        }
        at((int) c.ops.size());
        w->verify_all_slots();
        iso_verify_zones();
    }
};
int main(int argc, char **argv) {
    Pin h;
    return run_main(h, argc, argv);
}
