// fence.cpp - C38: what the allocator maps is surrounded by inaccessible pages.
// The library's calls of mmap and munmap are recorded; after steps of a history every accessible piece of
// every mapping is compared with the permissions the system reports.
#define PBT_MAIN 1
#include "world.hpp"
#include <thread>
using namespace pbt;
using namespace world;

struct Region {
    u64 lo, hi; // what is left of the mapping
    u64 base;   // the mapping it came from
};
struct Regions {
    std::map<u64, Region> m;
    u64 calls = 0;
    void drop(u64 lo, u64 hi) {
        auto it = m.upper_bound(lo);
        if(it != m.begin()) --it;
        while(it != m.end() && it->first < hi) {
            Region r = it->second;
            if(r.hi <= lo) {
                ++it;
                continue;
            }
            it = m.erase(it);
            if(r.lo < lo) m[r.lo] = Region{r.lo, lo, r.base};
            if(r.hi > hi) it = m.insert({hi, Region{hi, r.hi, r.base}}).first;
        }
    }
    const Region *at(u64 p) const {
        auto it = m.upper_bound(p);
        if(it == m.begin()) return NULL;
        --it;
        return it->second.hi > p ? &it->second : NULL;
    }
};
static Regions *regions() {
    static Regions *r = new Regions;
    return r;
}
static u64 page_up(u64 n) { return (n + 4095) & ~4095ull; }
extern "C" {
void *hk_mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) {
    if(flags & MAP_HUGETLB) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *r = mmap(p, n, prot, flags, fd, off);
    if(r != MAP_FAILED) {
        regions()->calls++;
        u64 lo = (u64) r, hi = lo + page_up(n);
        const Region *in = regions()->at(lo);
        u64 base = in && in->hi >= hi && (flags & MAP_FIXED) ? in->base : lo; // mapped anew within a mapping
        regions()->drop(lo, hi);
        regions()->m[lo] = Region{lo, hi, base};
    }
    return r;
}
int hk_munmap(void *p, size_t n) {
    int r = munmap(p, n);
    if(r == 0) regions()->drop((u64) p, (u64) p + page_up(n));
    return r;
}
}

enum K { ALLOC, BIG, CALLOC, REALLOC, NEWZONE, ZALLOC, FREE, FREESIZE, FREEPERM, DESTROYZONE, FLUSH, PROTECT, VERIFY, CHURN, ROUND, THREAD, MANYZONES, CHECKNOW, NK };
static const char *NAMES[] = {"alloc", "big", "calloc", "realloc", "newzone", "zalloc", "free", "freesize", "freeperm", "destroyzone", "flush", "protect", "verify", "churn", "round", "thread", "manyzones", "check"};
enum C { C_REGIONS, C_ZONE_GONE, C_BIG, C_BIG_FREED, C_BIG_REUSED, C_PRIVATE, C_MANY, C_THREAD, C_PROTECTED, C_REPLACED, NC };
static const char *CNAMES[] = {"over_100_mappings", "zone_destroyed", "large_block", "large_block_freed", "large_block_reused", "private_zone", "over_25_private_zones", "second_thread", "while_protected", "zones_retired"};

struct Fence : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "mappings were made or given back after the initialization, and all mappings were compared after that"; }
    int timeout_s() const override { return 120; }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(1, r.chance(1, 3) ? 12 : 60);
        int churn = r.chance(1, 5), many = r.chance(1, 6);
        for(int i = 0; i < n; i++) {
            int k = r.weighted({8, 8, 2, 4, 6, 6, 9, 3, 2, 4, 2, 2, 1, churn ? 2 : 0, churn ? 2 : 0, 1, many ? 2 : 0, 6});
            if(k == CHURN || k == ROUND) churn = 0;
            if(k == MANYZONES) many = 0;
            i64 a = (i64) r.below(1u << 30);
            if(k == ALLOC || k == NEWZONE) a = r.chance(1, 2) ? (i64) r.below(600) : (i64) r.below(65537);
            if(k == BIG) a = r.chance(1, 4) ? 4194304 - 4096 + (i64) r.below(8192) : 65537 + (i64) r.below(600000);
            if(k == CALLOC) a = (i64) r.below(r.chance(1, 3) ? 200000 : 3000);
            c.ops.push_back(Op{k, a, k == REALLOC ? 1 + (i64) r.below(r.chance(1, 3) ? 300000 : 5000) : (i64) r.below(1000), (i64) r.below(1000)});
        }
        return c;
    }

    World *w = NULL;
    u64 seen_calls = 0;
    bool is_big(u64 lo, u64 hi) const {
        for(int id : w->live)
            if(w->slots[id].big && w->slots[id].p >= lo && w->slots[id].p < hi) return true;
        for(auto &b : w->bigfree)
            if(b.first >= lo && b.first < hi) return true;
        return false;
    }
    void look(const char *when) {
        std::vector<Mapping> ms = maps();
        std::map<u64, const Mapping *> by;
        for(const Mapping &m : ms) by[m.lo] = &m;
        std::map<u64, int> chunks; // small blocks
        auto perm = [&](u64 p) -> const Mapping * {
            auto it = by.upper_bound(p);
            if(it == by.begin()) return NULL;
            --it;
            return it->second->hi > p ? it->second : NULL;
        };
        u64 n = 0;
        for(auto &x : regions()->m) {
            const Region &r = x.second;
            n++;
            for(u64 p = r.lo; p < r.hi;) {
                const Mapping *m = perm(p);
                CHECK(m, "a mapping of the library is gone %s", when);
                u64 e = std::min(m->hi, r.hi);
                if(m->perm[0] == '-' && m->perm[1] == '-' && m->perm[2] == '-') {
                    p = e;
                    continue;
                }
                CHECK(m->perm[2] != 'x', "memory of the allocator is executable %s", when);
                CHECK(m->perm[3] == 'p', "memory of the allocator is shared with other processes %s", when);
                while(e < r.hi && (m = perm(e)) && m->perm[0] != '-') e = std::min(m->hi, r.hi);
                auto fenced = [&](u64 q) {
                    const Region *o = regions()->at(q);
                    const Mapping *g = perm(q);
                    return o && o->base == r.base && g && g->perm[0] == '-' && g->perm[1] == '-';
                };
                bool below = fenced(p - PAGE), above = fenced(e);
                if(!below || !above) CHECK(false, "%llu accessible bytes have no inaccessible page of their own %s them %s", (unsigned long long) (e - p), !below ? "below" : "above", when);
                p = e;
            }
        }
        if(n > 100) cls(C_REGIONS);
        // user memory and the allocator's own data never share one accessible piece
        for(int id : w->live) {
            const Slot &s = w->slots[id];
            const Mapping *m = perm(s.p);
            CHECK(m && regions()->at(s.p), "a block lies outside of all mappings");
            if(s.big) {
                const Region *r = regions()->at(s.p);
                CHECK(r->lo + PAGE == s.p && r->hi == s.p + s.usable + PAGE, "a large block of %llu bytes shares its mapping", (unsigned long long) s.usable);
            } else if(!ALLOC_SANITY || m->hi - m->lo == ZONE_BYTES)
                CHECK(m->hi - m->lo == ZONE_BYTES, "a chunk lies in %llu accessible bytes rather than in a zone of its own", (unsigned long long) (m->hi - m->lo));
        }
        if(regions()->calls != seen_calls) nontrivial();
    }
    void execute(const Case &c) override {
        iso_alloc_initialize();
        delete w;
        w = new World(c.entropy);
        w->f.perm = true;
#if CPU_PIN
        w->f.pinned = true;
#endif
        look("after the initialization");
        seen_calls = regions()->calls;
        u64 last = seen_calls;
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            bool force = false;
            switch(o.k) {
                case ALLOC: w->add(iso_alloc((u64) o.a + 1), (u64) o.a + 1, -1); break;
                case BIG: {
                    u64 n = (u64) o.a + 1;
                    auto was = w->bigfree;
                    u64 b = w->slots[w->add(iso_alloc(n), n, -1)].p;
                    if(n > SMALL_MAX) {
                        cls(C_BIG);
                        for(auto &x : was)
                            if(x.first == b) cls(C_BIG_REUSED);
                    }
                    break;
                }
                case CALLOC: {
                    u64 n = 1 + (u64) o.a;
                    w->add(iso_calloc(1, n), n, -1, true, false);
                    break;
                }
                case REALLOC: {
                    int id = w->pick_live(o.a);
                    if(id >= 0) w->realloc_(id, 1 + (u64) o.b);
                    break;
                }
                case NEWZONE: {
                    if(w->zone_count() >= 20) break;
                    w->new_zone((u64) o.a % 65536 + 1);
                    cls(C_PRIVATE);
                    force = true;
                    break;
                }
                case MANYZONES: {
                    int k = 26 + (int) (o.a % 14);
                    for(int t = 0; t < k; t++) w->new_zone((u64) (o.a >> (t % 14)) % 65536 + 1);
                    cls(C_MANY);
                    force = true;
                    break;
                }
                case ZALLOC: {
                    int zi = w->pick_zone(o.a);
                    if(zi < 0) break;
                    for(int t = 0; t < 1 + (int) (o.b % 6) && !w->may_refuse(w->zones[zi]); t++) w->zalloc(zi);
                    break;
                }
                case FREE:
                case FREESIZE:
                case FREEPERM: {
                    int id = w->pick_live(o.a);
                    if(id < 0) break;
                    if(w->slots[id].big) cls(C_BIG_FREED);
                    if(o.k == FREE) w->free_(id);
                    else if(o.k == FREESIZE) w->free_size(id, (int) o.b);
                    else w->free_perm(id);
                    break;
                }
                case DESTROYZONE: {
                    int zi = w->pick_zone(o.a);
                    if(zi < 0) break;
                    w->destroy_zone(zi);
                    cls(C_ZONE_GONE);
                    force = true;
                    break;
                }
                case FLUSH: w->flush(); break;
                case PROTECT:
                    iso_alloc_protect_root();
                    look("while the root is protected");
                    cls(C_PROTECTED);
                    iso_alloc_unprotect_root();
                    force = true;
                    break;
                case VERIFY: iso_verify_zones(); break;
                case CHURN: {
                    u64 n = o.a & 1 ? 30000 + (u64) o.a % 30000 : 65000;
                    std::vector<int> ids;
                    for(int t = 0; t < 200; t++) ids.push_back(w->add(iso_alloc(n), n, -1));
                    look("after zones were added");
                    for(size_t t = 0; t < ids.size(); t++)
                        if((t + (size_t) o.b) % 3) w->free_any(ids[t], (u64) o.b + t);
                    force = true;
                    break;
                }
                case ROUND: { // until zones are retired
                    u64 n = 60000 + (u64) o.a % 5000, calls = regions()->calls;
                    for(int t = 0; t < 2500; t++) {
                        void *p = iso_alloc(n);
                        CHECK(p, "allocation failed");
                        iso_free(p);
                    }
                    w->flush();
                    if(regions()->calls != calls) cls(C_REPLACED);
                    force = true;
                    break;
                }
                case THREAD: {
                    cls(C_THREAD);
                    Rng r((u64) o.a * 1000 + (u64) o.b);
                    std::thread t([&] {
                        for(int k = 0; k < 8; k++) {
                            u64 n = 1 + r.below(r.chance(1, 5) ? 200000 : 2000);
                            w->add(iso_alloc(n), n, -1);
                        }
                    });
                    t.join();
                    break;
                }
                case CHECKNOW: force = true; break;
            }
            if(force || regions()->calls != last) look("during the history");
            last = regions()->calls;
        }
        at((int) c.ops.size());
        look("at the end");
        w->verify_all_slots();
        iso_verify_zones();
    }
};
int main(int argc, char **argv) {
    Fence h;
    return run_main(h, argc, argv);
}
