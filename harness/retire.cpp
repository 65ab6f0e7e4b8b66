// retire.cpp - C42: memory is replaced when its documented lifetime is over, and not before.
// Zones and large blocks are known from the library's calls of mmap and munmap.
#define PBT_MAIN 1
#include "world.hpp"
using namespace pbt;
using namespace world;

struct Region { // a mapping of the library
    u64 lo, hi;
    bool gone;
    // a zone
    u64 chunk, served, live;
    bool pending, priv, spent;
    // a large block
    u64 uses;
    bool cached;
};
static std::map<u64, Region *> g_areas;
static std::vector<Region *> g_gone;
extern "C" {
void *hk_mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) {
    if(flags & MAP_HUGETLB) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *r = mmap(p, n, prot, flags, fd, off);
    if(r == MAP_FAILED || n <= SMALL_MAX) return r;
    u64 lo = (u64) r, hi = lo + ((n + 4095) & ~4095ull);
    auto it = g_areas.upper_bound(lo);
    if(it != g_areas.begin() && std::prev(it)->second->hi > lo) return r; // over another
    Region *a = new Region();
    a->lo = lo;
    a->hi = hi;
    g_areas[lo] = a;
    return r;
}
int hk_munmap(void *p, size_t n) {
    u64 lo = (u64) p, hi = lo + ((n + 4095) & ~4095ull);
    int r = munmap(p, n);
    if(r != 0) return r;
    for(auto it = g_areas.begin(); it != g_areas.end();) {
        Region *a = it->second;
        if(a->lo < hi && lo < a->hi && hi - lo >= 8192) {
            a->gone = true;
            g_gone.push_back(a);
            it = g_areas.erase(it);
        } else ++it;
    }
    return r;
}
}
static Region *area_of(u64 p) {
    static Region *last;
    if(last && !last->gone && p >= last->lo && p < last->hi) return last;
    auto it = g_areas.upper_bound(p);
    if(it == g_areas.begin()) return nullptr;
    Region *a = std::prev(it)->second;
    if(p >= a->hi) return nullptr;
    return last = a;
}

// The documented values; builds with other values (C45) take them from conf.h.
#ifndef WORLD_CONF_H
#define ZONE_ALLOC_RETIRE 32
#define BIG_ZONE_ALLOC_RETIRE 16
#define BIG_ZONE_MAX_FREE_LIST 64
#endif
static const u64 LIFETIME = ZONE_ALLOC_RETIRE;
static const u64 BIG_LIFETIME = BIG_ZONE_ALLOC_RETIRE;
static const u64 BIG_LIST = BIG_ZONE_MAX_FREE_LIST;
static const u64 BIG_SLACK = 2 * BIG_ZONE_WASTE; // what reuse may waste

enum K { ALLOC, FREE, FREESIZE, PERM, FLUSH, REALLOC, CALLOC, TOLIMIT, CHURN, HOLDCHURN, NEWZONE, ZALLOC, ZFREE, ZCHURN, DESTROY, BIG, BIGCHURN, BIGLOTS, BIGFREE, VERIFY, DRAIN, NK };
static const char *NAMES[] = {"alloc", "free", "freesize", "perm", "flush", "realloc", "calloc", "tolimit", "churn", "holdchurn", "newzone", "zalloc", "zfree", "zchurn", "destroy", "big", "bigchurn", "biglots", "bigfree", "verify", "drain"};
enum C { C_RETIRED, C_EXACT, C_HELD, C_BYFLUSH, C_BYQUAR, C_PRIV_OLD, C_BIG_RETIRED, C_BIG_REUSED, C_BIG_FULL, C_TWICE, C_BYPERM, C_SMALLCHUNK, NC };
static const char *CNAMES[] = {"zone_replaced", "replaced_by_the_first_free_after_its_limit", "in_use_at_its_limit", "replaced_by_a_flush", "replaced_by_a_delayed_free", "private_zone_past_the_limit", "large_block_released_after_its_uses", "large_block_reused",
                               "large_free_list_full", "replacement_replaced", "replaced_by_a_permanent_free", "chunks_of_512_bytes_or_less"};

struct Retire : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "a zone was replaced, a private zone served more than a general one may, or a large block was released"; }
    bool is(const char *m) const { return g_opt.extra == m; }

    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(8, 40);
        // one to three sizes; the smaller, the longer the lifetime
        std::vector<u64> pal;
        static const u64 S[] = {8192, 8192, 8000, 4096, 4096, 4097, 6000, 2048, 2048, 1500, 1024, 700, 512, 300};
        for(int i = 0; i < 3; i++) pal.push_back(S[r.below(14)]);
        bool big = r.chance(1, 3);
        for(int i = 0; i < n; i++) {
            int k = big ? r.weighted({4, 2, 2, 0, 3, 2, 0, 1, 1, 0, 0, 0, 0, 0, 0, 16, 16, 2, 12, 1, 1}) : r.weighted({12, 10, 10, 1, 6, 4, 3, 14, 8, 6, 2, 3, 3, 4, 1, 1, 1, 0, 1, 1, 3});
            Op o{k, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
            if(k <= HOLDCHURN || k == NEWZONE || k == ZCHURN) o.a = (i64) r.pick(pal);
            if(k >= BIG && k <= BIGLOTS) o.a = (i64) (65537 + (r.chance(1, 2) ? r.below(5) * 30000 : r.below(300000)));
            c.ops.push_back(o);
        }
        return c;
    }

    struct Obj {
        u64 p, n;
        Region *a;
        int z; // private zone or -1
        bool big;
    };
    struct PZone {
        void *h;
        u64 size;
        bool alive;
    };
    std::vector<Obj> objs;
    std::vector<PZone> zones;
    std::vector<Obj> quar; // freed and delayed
    std::set<Region *> spent;
    u64 cached, seen;
    bool freed_now; // an effective free happened in this call

    // What may and must be gone after a call; how: how the frees took effect.
    void settle(int how = -1) {
        for(Region *a : g_gone) {
            if(a->priv || a->chunk == 0 || a->spent) continue; // private: by destroying the zone only, checked there
            CHECK(a->live == 0, "the zone of %llu byte chunks at %llx was released with %llu chunks in use", (unsigned long long) a->chunk, (unsigned long long) a->lo, (unsigned long long) a->live);
            // the number of chunks is a multiple of what a word of the bitmap describes
            u64 least = LIFETIME * ((ZONE_BYTES / a->chunk) & ~63ull);
            CHECK(a->served > least, "a zone of %llu byte chunks was replaced after %llu allocations, its lifetime is %llu", (unsigned long long) a->chunk, (unsigned long long) a->served, (unsigned long long) least);
            cls(C_RETIRED);
            if(a->served == least + 1) cls(C_EXACT);
            if(a->chunk <= 512) cls(C_SMALLCHUNK);
            if(how >= 0) cls(how);
            if(++retired > 1) cls(C_TWICE);
            seen++;
        }
        g_gone.clear();
    }
    u64 retired;
    void spend(Region *a) { // after a free that took effect
        if(!a || a->gone || a->priv || a->live) return;
        if(a->chunk <= 8192 && a->served > LIFETIME * (ZONE_BYTES / a->chunk)) {
            // its chunks must not be served again
            a->spent = true;
        }
    }
    void got(u64 p, u64 n, int z, bool keep) {
        CHECK(p != 0, "an allocation of %llu bytes failed", (unsigned long long) n);
        settle();
        Region *a = area_of(p);
        CHECK(a != nullptr, "an allocation of %llu bytes lies in no mapping of the allocator", (unsigned long long) n);
        if(n > SMALL_MAX && z < 0) {
            if(a->chunk == 0) {
                a->uses++;
                if(a->cached) {
                    a->cached = false;
                    cached--;
                    cls(C_BIG_REUSED);
                }
                CHECK(a->uses <= BIG_LIFETIME, "the memory of a large block of %llu bytes is handed out %llu times, its lifetime is %llu", (unsigned long long) n, (unsigned long long) a->uses, (unsigned long long) BIG_LIFETIME);
            } else fail("a large allocation lies in a zone");
            if(keep) objs.push_back(Obj{p, n, a, z, true});
            return;
        }
        if(a->chunk == 0) {
            a->chunk = iso_chunksz((void *) p);
            a->priv = z >= 0;
        }
        CHECK(!a->spent, "a chunk of %llu bytes comes from a zone that was empty after %llu allocations, its lifetime is %llu", (unsigned long long) a->chunk, (unsigned long long) a->served, (unsigned long long) (LIFETIME * (ZONE_BYTES / a->chunk)));
        a->served++;
        a->live++;
        if(keep) objs.push_back(Obj{p, n, a, z, false});
    }
    // The free of o takes effect in the call about to be made.
    void unlive(const Obj &o) {
        if(o.big) return;
        if(o.a->gone) fail("the zone of a live chunk was released");
        if(o.a->live == 0) fail("model: no live chunk");
        o.a->live--;
        touched.insert(o.a);
    }
    std::set<Region *> touched;
    void settle_touched(int how) {
        for(Region *a : touched)
            if(!a->gone) spend(a);
        touched.clear();
        settle(how);
    }
    // All delayed frees take effect (before the call that makes them).
    std::vector<Obj> take_quar() {
        std::vector<Obj> q;
        q.swap(quar);
        for(const Obj &o : q) unlive(o);
        return q;
    }
    void big_before(const Obj &o, bool perm) {
        if(o.big && !perm && o.a->uses >= BIG_LIFETIME) o.a->spent = true;
    }
    void big_after(const Obj &o, bool perm) {
        if(!o.big) return;
        if(perm) {
            o.a->uses = BIG_LIFETIME; // never again
            o.a->spent = true;
            return;
        }
        if(o.a->uses < BIG_LIFETIME && cached < BIG_LIST) {
            CHECK(!o.a->gone, "the memory of a large block was given back after %llu of %llu uses with %llu blocks on the free list", (unsigned long long) o.a->uses, (unsigned long long) BIG_LIFETIME, (unsigned long long) cached);
            o.a->cached = true;
            cached++;
            if(cached == BIG_LIST) cls(C_BIG_FULL);
        } else {
            CHECK(o.a->gone, o.a->uses >= BIG_LIFETIME ? "the memory of a large block was kept after %llu of %llu uses (%llu blocks on the free list)" : "the memory of a large block was kept (%llu of %llu uses) with %llu blocks on the free list",
                  (unsigned long long) o.a->uses, (unsigned long long) BIG_LIFETIME, (unsigned long long) cached);
            seen++;
            cls(C_BIG_RETIRED);
        }
    }
    void run_quar(const std::vector<Obj> &q) {
        for(const Obj &o : q) big_after(o, false);
        settle_touched(C_BYQUAR);
    }
    void release(Obj o, int how) { // 0 delayed, 1 sized, 2 permanent
        if(o.z >= 0) {
            unlive(o);
            if(how == 2) iso_free_from_zone_permanently((void *) o.p, zones[o.z].h);
            else iso_free_from_zone((void *) o.p, zones[o.z].h);
            settle_touched(-1);
            return;
        }
        if(how == 0) {
            std::vector<Obj> q;
            if(quar.size() >= CHUNK_QUARANTINE_SZ) q = take_quar();
            iso_free((void *) o.p);
            run_quar(q);
            quar.push_back(o);
            return;
        }
        unlive(o);
        big_before(o, how == 2);
        if(how == 1) iso_free_size((void *) o.p, o.n);
        else iso_free_permanently((void *) o.p);
        big_after(o, how == 2);
        settle_touched(how == 2 ? C_BYPERM : -1);
    }
    void flush() {
        std::vector<Obj> q = take_quar();
        iso_flush_caches();
        for(const Obj &o : q) big_after(o, false);
        settle_touched(C_BYFLUSH);
    }
    int pick(i64 a, bool priv, bool big) {
        std::vector<int> v;
        for(size_t i = 0; i < objs.size(); i++)
            if((objs[i].z >= 0) == priv && objs[i].big == big) v.push_back((int) i);
        return v.empty() ? -1 : v[(u64) a % v.size()];
    }
    Obj take(int i) {
        Obj o = objs[i];
        objs.erase(objs.begin() + i);
        return o;
    }
    // Allocates and frees at once, n times.
    void churn(u64 size, u64 n) {
        for(u64 k = 0; k < n; k++) {
            void *p = iso_alloc(size);
            if(!g_gone.empty()) settle();
            got((u64) p, size, -1, false);
            Obj o{(u64) p, size, area_of((u64) p), -1, false};
            release(o, 1);
        }
    }
    // Brings the zone that serves the size up to d allocations before its limit.
    void tolimit(u64 size, u64 d) {
        u64 guard = 40 * (ZONE_BYTES / 256);
        for(u64 k = 0; k < guard; k++) {
            void *p = iso_alloc(size);
            got((u64) p, size, -1, false);
            Region *a = area_of((u64) p);
            bool near = a->served + d >= LIFETIME * ((ZONE_BYTES / a->chunk) & ~31ull) && a->served <= LIFETIME * (ZONE_BYTES / a->chunk);
            release(Obj{(u64) p, size, a, -1, false}, 1);
            if(near) return;
        }
    }
    void execute(const Case &c) override {
        World w(c.entropy);
        objs.clear();
        zones.clear();
        quar.clear();
        cached = seen = retired = 0;
        iso_alloc_initialize();
        g_gone.clear();
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            u64 n = o.a < 257 ? 257 : (u64) o.a, b = (u64) o.b;
            u64 sn = n > 8192 ? 257 + n % 7936 : n; // small
            u64 bn = n <= SMALL_MAX ? n + SMALL_MAX + 1 : n;
            if(bn > (1u << 20)) bn = SMALL_MAX + 1 + bn % (1 << 20);
            bool room = objs.size() < 400;
            switch(o.k) {
                case ALLOC:
                    for(u64 k = 0; k < 1 + (b % 3 == 0 ? b / 3 % 20 : 0) && room; k++) got((u64) iso_alloc(sn), sn, -1, true);
                    break;
                case CALLOC:
                    if(room) got((u64) iso_calloc(1, sn), sn, -1, true);
                    break;
                case FREE:
                case FREESIZE:
                case PERM: {
                    int id = pick((i64) b, false, false);
                    if(id >= 0) release(take(id), o.k == FREE ? 0 : o.k == FREESIZE ? 1 : 2);
                    break;
                }
                case DRAIN:
                    for(int id; (id = pick((i64) b, false, false)) >= 0;) release(take(id), b & 1 ? 0 : 1);
                    break;
                case FLUSH: flush(); break;
                case REALLOC: {
                    int id = pick((i64) b, false, false);
                    if(id < 0) break;
                    Obj x = take(id);
                    unlive(x);
                    got((u64) iso_realloc((void *) x.p, sn), sn, -1, true);
                    settle_touched(-1);
                    break;
                }
                case TOLIMIT: tolimit(sn, b % 4); break;
                case CHURN: churn(sn, b % 200 == 0 ? 40 * (ZONE_BYTES / sn) : b % 300); break;
                case HOLDCHURN: { // past the limit with a chunk in use
                    if(!room) break;
                    void *p = iso_alloc(sn);
                    got((u64) p, sn, -1, true);
                    Region *a = area_of((u64) p);
                    tolimit(sn, 0);
                    churn(sn, 1 + b % 40);
                    if(!a->gone && a->served > LIFETIME * (ZONE_BYTES / a->chunk)) cls(C_HELD);
                    break;
                }
                case NEWZONE:
                    if(zones.size() < 6) {
                        void *h = iso_alloc_new_zone(sn);
                        CHECK(h != NULL, "no zone of %llu bytes", (unsigned long long) sn);
                        settle();
                        zones.push_back(PZone{h, sn, true});
                    }
                    break;
                case ZALLOC:
                case ZCHURN: {
                    std::vector<int> v;
                    for(size_t k = 0; k < zones.size(); k++)
                        if(zones[k].alive) v.push_back((int) k);
                    if(v.empty()) break;
                    int z = v[b % v.size()];
                    if(o.k == ZALLOC) {
                        if(room) got((u64) iso_alloc_from_zone(zones[z].h), zones[z].size, z, true);
                        break;
                    }
                    u64 times = 34 * (ZONE_BYTES / zones[z].size);
                    Region *a = nullptr;
                    for(u64 k = 0; k < times; k++) {
                        void *p = iso_alloc_from_zone(zones[z].h);
                        got((u64) p, zones[z].size, z, false);
                        a = area_of((u64) p);
                        release(Obj{(u64) p, zones[z].size, a, z, false}, 1);
                        CHECK(!a->gone, "the memory of a private zone was released after %llu allocations", (unsigned long long) a->served);
                    }
                    if(a) {
                        cls(C_PRIV_OLD);
                        seen++;
                    }
                    break;
                }
                case ZFREE: {
                    int id = pick((i64) b, true, false);
                    if(id >= 0) release(take(id), b & 1 ? 1 : 2);
                    break;
                }
                case DESTROY: {
                    std::vector<int> v;
                    for(size_t k = 0; k < zones.size(); k++)
                        if(zones[k].alive) v.push_back((int) k);
                    if(v.empty()) break;
                    int z = v[b % v.size()];
                    for(size_t k = objs.size(); k-- > 0;)
                        if(objs[k].z == z) objs.erase(objs.begin() + (long) k);
                    zones[z].alive = false;
                    std::vector<Obj> q = take_quar();
                    iso_alloc_destroy_zone(zones[z].h);
                    for(const Obj &x : q) big_after(x, false);
                    settle_touched(C_BYFLUSH);
                    break;
                }
                case BIG:
                    if(room) got((u64) iso_alloc(bn), bn, -1, true);
                    break;
                case BIGCHURN:
                    for(u64 k = 0; k < 1 + b % 40; k++) {
                        void *p = iso_alloc(bn);
                        got((u64) p, bn, -1, true);
                        Obj x = take((int) objs.size() - 1);
                        release(x, (b >> 8) % 8 == 0 ? 0 : 1);
                    }
                    break;
                case BIGLOTS: { // more than the free list can hold
                    size_t first = objs.size();
                    for(u64 k = 0; k < 40 + b % 50 && objs.size() < 600; k++) got((u64) iso_alloc(bn + k * 40000), bn + k * 40000, -1, true);
                    while(objs.size() > first) release(take((int) objs.size() - 1), 1);
                    break;
                }
                case BIGFREE: {
                    int id = pick((i64) b, false, true);
                    if(id >= 0) release(take(id), (b >> 4) % 12 == 0 ? 2 : (b >> 4) % 3 == 0 ? 0 : 1);
                    break;
                }
                case VERIFY: iso_verify_zones(); break;
            }
        }
        at((int) c.ops.size());
        // everything that is still in use still is
        for(const Obj &x : objs) {
            CHECK(!x.a->gone && readable((void *) x.p) && readable((void *) (x.p + x.n - 1)), "a live allocation of %llu bytes is gone", (unsigned long long) x.n);
        }
        if(seen) nontrivial();
    }
};
int main(int argc, char **argv) {
    Retire h;
    return run_main(h, argc, argv);
}
