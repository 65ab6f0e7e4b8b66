// canary.cpp - C37: chunks that are set aside as canaries, and what canaries look like.
// A zone is filled until it refuses; the chunks of its area that were never handed out are the reserved
// ones.  They are watched over a history, and finally the protected bytes of one are changed.
#define PBT_MAIN 1
#include "world.hpp"
using namespace pbt;
using namespace world;

enum K { NEWZONE, FILL, DRAIN, REFILL, GENERAL, VALUES, VERIFY, NOISE, CORRUPT, FREECANARY, NK };
static const char *NAMES[] = {"newzone", "fill", "drain", "refill", "general", "values", "verify", "noise", "corrupt", "free_canary"};
enum C { C_PRIVATE, C_GENERAL, C_NONPOW2, C_REFILLED, C_FIRST, C_LAST, C_BY_VERIFY, C_BY_VERIFY_ZONE, C_BY_ABOVE, C_BY_BELOW, C_BY_SHUTDOWN, C_FREED, C_VALUES, NC };
static const char *CNAMES[] = {"private_zone_filled", "general_zone_filled", "size_not_power_of_2", "refilled", "beginning_changed", "end_changed", "by_check_of_all", "by_check_of_zone", "by_freeing_the_chunk_below",
                               "by_freeing_the_chunk_above", "by_shutdown", "canary_freed", "values_compared"};
#ifndef WORLD_CONF_H
#define CANARY_COUNT_DIV 7 // as documented
#endif
enum { DEFAULT_MAX = 8192 };

struct Area2 {
    void *h = NULL; // private zone
    u64 lo = 0, chunk = 0, count = 0;
    std::vector<char> out;      // handed out now
    std::vector<char> ever;     // ever handed out
    std::set<u64> reserved;     // once full
    bool full = false;
};
struct Canary : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "a zone was filled, and its reserved chunks were known and watched, or one of them was changed or freed and that had to be noticed"; }
    static u64 size(Rng &r) {
        switch(r.below(8)) {
            case 0: return (u64) r.range(1, 64);
            case 1: return (u64) r.range(65, 512);
            case 2: return 1ull << r.range(8, 13);
            case 3: return 8192 - 32 * r.below(8);
            default: return (u64) r.range(500, 8192);
        }
    }
    Case generate(Rng &r, u64) override {
        Case c;
        int nz = (int) r.range(1, 4);
        for(int i = 0; i < nz; i++) c.ops.push_back(Op{NEWZONE, (i64) size(r), 0, 0});
        int n = (int) r.range(3, 25);
        for(int i = 0; i < n; i++) {
            int k = r.weighted({2, 8, 8, 8, 2, 3, 3, 4});
            Op o{k, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
            if(k == NEWZONE) o.a = (i64) size(r);
            if(k == GENERAL) o.a = (i64) (size(r) | 512);
            c.ops.push_back(o);
        }
        if(r.chance(3, 4)) {
            c.ops.push_back(Op{FILL, (i64) r.below(100), 0, 0});
            if(r.chance(1, 3)) c.ops.push_back(Op{GENERAL, (i64) (size(r) | 512), 0, 0});
            if(r.chance(1, 8)) c.ops.push_back(Op{FREECANARY, (i64) r.below(1 << 20), (i64) r.below(1 << 20), r.range(0, 4)});
            else c.ops.push_back(Op{CORRUPT, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below(1 << 30)});
        }
        return c;
    }

    std::vector<Area2> z;
    u64 bytes = 0;
    static Mapping mapping(u64 p) {
        for(const Mapping &m : maps())
            if(p >= m.lo && p < m.hi) return m;
        fail("a chunk lies in no mapping");
        return Mapping();
    }
    void took(Area2 &a, u64 p) {
        if(!a.lo) {
            a.lo = mapping(p).lo;
            a.count = ZONE_BYTES / a.chunk;
            a.out.assign(a.count, 0);
            a.ever.assign(a.count, 0);
        }
        CHECK(p >= a.lo && p + a.chunk <= a.lo + ZONE_BYTES && (p - a.lo) % a.chunk == 0, "a chunk of %llu bytes is not in its zone", (unsigned long long) a.chunk);
        u64 i = (p - a.lo) / a.chunk;
        CHECK(!a.out[i], "a chunk was handed out twice");
        CHECK(!a.full || !a.reserved.count(i), "a reserved chunk of %llu bytes was handed out", (unsigned long long) a.chunk);
        a.out[i] = a.ever[i] = 1;
        ((u64 *) p)[0] = ((u64 *) (p + a.chunk))[-1] = ~0ull;
    }
    // spare chunks, which neither the allocator nor the user uses, are still empty; the others are canaries
    static bool holds(const Area2 &a, u64 i) {
        u64 p = a.lo + i * a.chunk, v = 0, e = 0;
        if(!peek((void *) p, &v, 8) || !peek((void *) (p + a.chunk - 8), &e, 8)) return true;
        if(!v && !e && !a.ever[i]) return false;
        return true;
    }
    void learn(Area2 &a, bool exact) {
        std::set<u64> res;
        for(u64 i = 0; i < a.count; i++)
            if(!a.out[i] && holds(a, i)) res.insert(i);
        if(a.full) {
            CHECK(res == a.reserved, "a zone of %llu byte chunks that held back %zu chunks when it was first full holds back %zu now", (unsigned long long) a.chunk, a.reserved.size(), res.size());
            return;
        }
        CHECK(!res.empty(), "a zone of %llu byte chunks reserved no chunk as a canary", (unsigned long long) a.chunk);
        if(exact) CHECK(res.size() <= (a.count >> CANARY_COUNT_DIV), "a zone of %llu chunks of %llu bytes reserved %zu as canaries", (unsigned long long) a.count, (unsigned long long) a.chunk, res.size());
        a.reserved = res;
        a.full = true;
        nontrivial();
    }
    void fill(Area2 &a) {
        while(a.count == 0 || a.count * a.chunk <= ZONE_BYTES) {
            void *p = iso_alloc_from_zone(a.h);
            if(!p) break;
            took(a, (u64) p);
        }
        if(a.chunk <= DEFAULT_MAX) learn(a, true);
    }
    void drain(Area2 &a, u64 pct, Rng r) {
        if(!a.lo) return;
        for(u64 i = 0; i < a.count; i++)
            if(a.out[i] && r.below(100) < pct) {
                void *p = (void *) (a.lo + i * a.chunk);
                if(!a.h || r.chance(1, 3)) iso_free_size(p, a.chunk);
                else iso_free_from_zone(p, a.h);
                a.out[i] = 0;
            }
    }
    // general memory: an area is full when a new one is mapped for the same size
    void general(u64 n) {
        if(z.size() > 12 || bytes > (60u << 20)) return;
        std::map<u64, Area2> m;
        std::vector<Mapping> before = maps();
        u64 chunk = 0, target = 0;
        for(u64 k = 0; k < 3 * ZONE_BYTES / n + 10; k++) {
            void *p = iso_alloc(n);
            CHECK(p != NULL, "allocation failed");
            u64 us = iso_chunksz(p), lo = 0;
            auto it = m.upper_bound((u64) p);
            if(it != m.begin() && (u64) p < (--it)->second.lo + ZONE_BYTES) lo = it->first;
            if(!lo) {
                lo = mapping((u64) p).lo;
                m[lo].chunk = us;
                if(m.size() > 6) break;
            }
            Area2 &a = m[lo];
            CHECK(a.chunk == us, "chunks of two sizes lie in one zone");
            took(a, (u64) p);
            bytes += us;
            (void) chunk;
            bool fresh = true;
            for(auto &b : before)
                if(b.lo <= lo && b.hi > lo) fresh = false;
            if(fresh && !target) target = lo;                                // made by this call, so its size is that of the request
            else if(target && lo != target && fresh && us == m[target].chunk) { // it is full now
                Area2 t = m[target];
                u64 missing = 0;
                for(char o : t.out) missing += !o;
                if(missing <= t.count / 64 + 1) {
                    learn(t, false);
                    z.push_back(t);
                    cls(C_GENERAL);
                }
                return;
            }
        }
    }
    static u64 first(u64 p) { return *(u64 *) p; }

    // what reserved chunks hold: a zero byte first, and values that do not follow from one another
    void values() {
        std::set<u64> seen, keys;
        u64 n = 0, ones = 0, diff = 0, key0 = 0;
        size_t zones = 0;
        for(Area2 &a : z) {
            if(!a.full || a.reserved.empty()) continue;
            u64 key = 0;
            bool have = false;
            for(u64 i : a.reserved) {
                u64 p = a.lo + i * a.chunk, v, e;
                if(!peek((void *) p, &v, 8) || !peek((void *) (p + a.chunk - 8), &e, 8)) continue;
                CHECK((v & 255) == 0 && (e & 255) == 0, "the canary of a chunk of %llu bytes does not start with a zero byte", (unsigned long long) a.chunk);
                seen.insert(v);
                n++;
                if(!have) key = (v ^ p) & ~255ull, have = true;
            }
            if(!have) continue;
            zones++;
            CHECK(key != 0 && (key >> 48) != 0, "the canaries of a zone follow from the addresses of its chunks");
            if(zones == 1) key0 = key;
            else diff |= key ^ key0;
            keys.insert(key);
            ones |= key;
        }
        CHECK(seen.size() == n, "%llu reserved chunks hold only %zu different values", (unsigned long long) n, seen.size());
        CHECK(keys.size() == zones, "the canaries of %zu zones follow from %zu secrets", zones, keys.size());
        if(zones >= 2) {
            CHECK(__builtin_popcountll(diff) >= 6, "the canary secrets of two zones differ in %d bits only", __builtin_popcountll(diff));
            cls(C_VALUES);
        }
    }
    // a full area with reserved chunks
    Area2 *pick(i64 x) {
        std::vector<Area2 *> v;
        for(Area2 &a : z)
            if(a.full && !a.reserved.empty()) v.push_back(&a);
        return v.empty() ? NULL : v[(u64) x % v.size()];
    }
    void execute(const Case &c) override {
        Rng er(c.entropy);
        iso_alloc_initialize();
        z.clear();
        bytes = 0;
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            auto priv = [&](i64 x) -> Area2 * {
                std::vector<Area2 *> v;
                for(Area2 &a : z)
                    if(a.h) v.push_back(&a);
                return v.empty() ? NULL : v[(u64) x % v.size()];
            };
            switch(o.k) {
                case NEWZONE: {
                    if(z.size() > 12) break;
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(n > DEFAULT_MAX) n = DEFAULT_MAX;
                    Area2 a;
                    a.h = iso_alloc_new_zone(n);
                    CHECK(a.h != NULL, "no private zone of %llu byte chunks", (unsigned long long) n);
                    void *p = iso_alloc_from_zone(a.h);
                    CHECK(p != NULL, "a new private zone refused its first chunk");
                    a.chunk = iso_chunksz(p);
                    if(a.chunk & (a.chunk - 1)) cls(C_NONPOW2);
                    took(a, (u64) p);
                    z.push_back(a);
                    break;
                }
                case FILL: {
                    Area2 *a = priv(o.a);
                    if(!a) break;
                    bool was = a->full;
                    fill(*a);
                    cls(was ? C_REFILLED : C_PRIVATE);
                    break;
                }
                case DRAIN: {
                    Area2 *a = priv(o.a);
                    if(a) drain(*a, (u64) o.b % 101, Rng((u64) o.c));
                    break;
                }
                case REFILL: {
                    Area2 *a = priv(o.a);
                    if(!a || !a->lo) break;
                    Rng rr((u64) o.c);
                    for(int k = 0; k < 600; k++) {
                        if(rr.chance(1, 2)) {
                            void *p = iso_alloc_from_zone(a->h);
                            if(p) took(*a, (u64) p);
                        } else {
                            u64 j = rr.below(a->count);
                            if(!a->out[j]) continue;
                            iso_free_from_zone((void *) (a->lo + j * a->chunk), a->h);
                            a->out[j] = 0;
                        }
                    }
                    break;
                }
                case GENERAL: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(n < 256) n = 256;
                    if(n > DEFAULT_MAX) n = DEFAULT_MAX;
                    general(n);
                    break;
                }
                case VALUES: values(); break;
                case VERIFY: iso_verify_zones(); break;
                case NOISE: {
                    u64 n = 1 + (u64) o.a % 20000;
                    void *p = iso_alloc(n);
                    CHECK(p != NULL, "allocation failed");
                    if(o.b & 1) iso_free(p);
                    if(o.b & 2) iso_flush_caches();
                    break;
                }
                case CORRUPT: {
                    Area2 *a = pick(o.a);
                    if(!a) break;
                    auto it = a->reserved.begin();
                    std::advance(it, (u64) o.b % a->reserved.size());
                    u64 j = *it, p = a->lo + j * a->chunk;
                    Rng rr((u64) o.c);
                    int pos = (int) rr.below(8), len = (int) rr.range(1, 8);
                    bool end = rr.chance(1, 2);
                    int how = (int) rr.below(5);
                    if(how == 3 && (j + 1 >= a->count || !a->out[j + 1])) how = 0;
                    if(how == 2 && (j == 0 || !a->out[j - 1])) how = 0;
                    if(how == 1 && !a->h) how = 0;
                    for(int k = pos; k < 8 && k < pos + len; k++) ((unsigned char *) (end ? p + a->chunk - 8 : p))[k] ^= (unsigned char) (1 + rr.below(255));
                    cls(end ? C_LAST : C_FIRST);
                    for(int s : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP}) expect_signal(s);
                    nontrivial();
                    switch(how) {
                        case 0:
                            cls(C_BY_VERIFY);
                            iso_verify_zones();
                            break;
                        case 1:
                            cls(C_BY_VERIFY_ZONE);
                            iso_verify_zone(a->h);
                            break;
                        case 2:
                        case 3: {
                            cls(how == 2 ? C_BY_ABOVE : C_BY_BELOW);
                            void *q = (void *) (how == 2 ? p - a->chunk : p + a->chunk);
                            if(rr.chance(1, 2)) iso_free_size(q, a->chunk);
                            else if(a->h) iso_free_from_zone(q, a->h);
                            else iso_free_permanently(q);
                            break;
                        }
                        default: cls(C_BY_SHUTDOWN); iso_alloc_destroy();
                    }
                    expect_none();
                    fail("a changed byte in the %s of a reserved chunk of %llu bytes went unnoticed by %s", end ? "end" : "beginning", (unsigned long long) a->chunk,
                         how == 0   ? "the check of all zones"
                         : how == 1 ? "the check of its zone"
                         : how == 2 ? "the free of the chunk below"
                         : how == 3 ? "the free of the chunk above"
                                    : "the shutdown");
                    break;
                }
                case FREECANARY: {
                    Area2 *a = pick(o.a);
                    if(!a) break;
                    auto it = a->reserved.begin();
                    std::advance(it, (u64) o.b % a->reserved.size());
                    void *p = (void *) (a->lo + *it * a->chunk);
                    cls(C_FREED);
                    for(int s : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP}) expect_signal(s);
                    nontrivial();
                    switch(o.c) {
                        case 0: iso_free(p); break;
                        case 1: iso_free_size(p, a->chunk); break;
                        case 2: iso_free_permanently(p); break;
                        case 3:
                            if(a->h) {
                                iso_free_from_zone(p, a->h);
                                break;
                            }
                            // fall through
                        default: iso_free(p);
                    }
                    iso_flush_caches();
                    expect_none();
                    fail("a reserved chunk was freed");
                }
            }
        }
        at((int) c.ops.size());
        values();
        iso_verify_zones();
        (void) er;
    }
};
int main(int argc, char **argv) {
    Canary h;
    return run_main(h, argc, argv);
}
