// world.hpp - the reference model of a program that uses isoalloc correctly.
//
// The model keeps every live block with the pattern written into it, the private zones with what they
// hold, the frees that are still waiting in the quarantine and the permanently freed blocks.  Every
// call is made through a method that compares what the allocator did with what the model allows.
#pragma once
#include "api.hpp"
#include "pbt.hpp"
#ifdef WORLD_CONF_H
#include "conf.h"
#endif

// The documented values; builds with other values (C45) take them from conf.h.
#ifndef WORLD_CONF_H
#define CHUNK_QUARANTINE_SZ 64
#define SMALL_SIZE_MAX 65536
#define BIG_ZONE_WASTE 8192
#define SMALLEST_CHUNK_SZ 32
#endif
#ifndef SZ_ALIGNMENT
#define SZ_ALIGNMENT 32
#endif

namespace world {
using namespace pbt;

static const u64 SMALL_MAX = SMALL_SIZE_MAX;
static const u64 PAGE = 4096;
static const u64 ZONE_BYTES = 4194304;
static const u64 SMALLEST = SMALLEST_CHUNK_SZ < SZ_ALIGNMENT ? SZ_ALIGNMENT : SMALLEST_CHUNK_SZ;
static inline u64 round32(u64 n) { return n < SMALLEST ? SMALLEST : (n + SZ_ALIGNMENT - 1) & ~(u64) (SZ_ALIGNMENT - 1); }

struct Flags {
    bool quarantine = false; // C16: pending frees are not handed out
    bool perm = false;       // C15: permanently freed blocks are not handed out
    bool leaks = false;      // C21: reports equal the model
    bool areas = false;      // C13/C22: zone areas
    bool waste = false;      // C22: waste limit
    bool strict = false;     // C22: strong size isolation
    bool capacity = false;   // C14: exact refill capacity
    bool inaccessible = false; // C14: destroyed zones are unmapped
    bool pinned = false;     // zones may refuse because of the processor they belong to
    bool guards = false;     // C19: zone areas are fenced
    bool moved = false;      // C05: resizing always gives a new block
    bool big = false;        // C18: page alignment, waste, reuse of big blocks
};

struct Slot {
    u64 p = 0, req = 0, usable = 0, seed = 0;
    int zone = -1;
    bool big = false, live = false;
    int pos = 0; // index in `live`
    bool inzonelist = false;
};
struct Zone {
    void *h = NULL;
    u64 req = 0, chunk = 0, count = 0;
    bool alive = false;
    u64 live = 0, pending = 0, perm = 0;
    u64 cap = 0; // observed at exhaustion
    u64 lo = 0, hi = 0;
    u64 max_out = 0;
};
struct Area {
    u64 lo, hi, chunk;
    int zone; // -1 general
};

struct World {
    Flags f;
    std::vector<Slot> slots;
    std::vector<int> live; // slot numbers
    std::vector<Zone> zones;
    std::map<u64, int> iv; // lo -> slot
    struct Pend {
        u64 lo, hi;
        int zone;
        bool big;
    };
    std::vector<Pend> pending;
    std::map<u64, u64> perm; // lo -> hi
    std::map<u64, Area> areas; // by lo
    struct Dead {
        u64 lo, hi;
    };
    std::map<u64, u64> bigfree; // C18: freed big blocks (lo -> size)
    Rng r{1};
    u64 next_seed = 1;
    u64 live_bytes = 0, huge_bytes = 0;
    enum : u64 { HUGE_SZ = 64u << 20 }; // blocks from here on are counted apart
    u64 allocs = 0, frees = 0, reused = 0, nulls = 0;
    std::set<u64> seen; // addresses ever handed out (capped)

    explicit World(u64 seed) : r(seed) { slots.reserve(1024); }

    // -- patterns --------------------------------------------------------------------------------
    static inline u64 word(u64 seed, u64 i) { return (seed ^ (i * 0x9E3779B97F4A7C15ull)) * 0xD6E8FEB86659FD93ull + i; }
    static void fill_range(unsigned char *b, u64 from, u64 to, u64 seed) {
        u64 i = from;
        for(; i < to && (i & 7); i++) b[i] = (unsigned char) (word(seed, i >> 3) >> ((i & 7) * 8));
        for(; i + 8 <= to; i += 8) {
            u64 w = word(seed, i >> 3);
            memcpy(b + i, &w, 8);
        }
        for(; i < to; i++) b[i] = (unsigned char) (word(seed, i >> 3) >> ((i & 7) * 8));
    }
    static i64 check_range(const unsigned char *b, u64 from, u64 to, u64 seed) {
        u64 i = from;
        for(; i < to && (i & 7); i++)
            if(b[i] != (unsigned char) (word(seed, i >> 3) >> ((i & 7) * 8))) return (i64) i;
        for(; i + 8 <= to; i += 8) {
            u64 w = word(seed, i >> 3), v;
            memcpy(&v, b + i, 8);
            if(v != w) {
                for(u64 k = 0; k < 8; k++)
                    if(b[i + k] != (unsigned char) (w >> (k * 8))) return (i64) (i + k);
            }
        }
        for(; i < to; i++)
            if(b[i] != (unsigned char) (word(seed, i >> 3) >> ((i & 7) * 8))) return (i64) i;
        return -1;
    }
    // Large blocks are touched at both ends and on pages in between.
    template <class F> static void spans(u64 n, F fn) {
        if(n <= 131072) {
            fn((u64) 0, n);
            return;
        }
        fn((u64) 0, (u64) 512);
        u64 step = (n / 24) & ~(PAGE - 1);
        if(step < PAGE) step = PAGE;
        for(u64 o = step; o + PAGE < n; o += step) fn(o, o + 16);
        fn(n - 512, n);
    }
    void fill(Slot &s) {
        s.seed = mix(next_seed++);
        unsigned char *b = (unsigned char *) s.p;
        spans(s.usable, [&](u64 a, u64 e) { fill_range(b, a, e, s.seed); });
    }
    void verify_upto(const Slot &s, const unsigned char *b, u64 n, const char *what) {
        spans(s.usable, [&](u64 a, u64 e) {
            if(a >= n) return;
            i64 bad = check_range(b, a, e < n ? e : n, s.seed);
            CHECK(bad < 0, "%s: byte %lld of a block of %llu bytes (requested %llu) changed", what, (long long) bad,
                  (unsigned long long) s.usable, (unsigned long long) s.req);
        });
    }
    void verify(const Slot &s, const char *what = "contents of a live block") {
        verify_upto(s, (const unsigned char *) s.p, s.usable, what);
    }
    void verify_all_slots() {
        for(int i : live) verify(slots[i]);
    }

    // -- areas (C13, C22) ------------------------------------------------------------------------
    void note_area(const Slot &s) {
        if(s.big) return;
        auto it = areas.upper_bound(s.p);
        if(it != areas.begin()) {
            --it;
            if(s.p < it->second.hi) {
                Area &a = it->second;
                CHECK(a.chunk == s.usable, "a %llu byte chunk was handed out in the area of %llu byte chunks",
                      (unsigned long long) s.usable, (unsigned long long) a.chunk);
                CHECK((s.p - a.lo) % a.chunk == 0, "chunk is not at a multiple of %llu in its area", (unsigned long long) a.chunk);
                CHECK(s.p + s.usable <= a.hi, "chunk reaches beyond its area");
                CHECK(a.zone == s.zone, "a chunk %s was handed out in the area of %s",
                      s.zone < 0 ? "of a general request" : "of a private zone request", a.zone < 0 ? "a general zone" : "another zone");
                return;
            }
        }
        for(const Mapping &m : maps()) {
            if(s.p < m.lo || s.p >= m.hi) continue;
            CHECK(m.perm[0] == 'r' && m.perm[1] == 'w', "chunk lies in memory mapped %s", m.perm);
            Area a{m.lo, m.hi, s.usable, s.zone};
            CHECK((s.p - a.lo) % a.chunk == 0, "chunk of %llu bytes is not at a multiple of its size in its area", (unsigned long long) a.chunk);
            CHECK(s.p + s.usable <= a.hi, "chunk reaches beyond its area");
            if(s.zone >= 0) {
                Zone &z = zones[s.zone];
                CHECK(z.lo == 0 || (z.lo == a.lo && z.hi == a.hi), "a private zone handed out chunks from two areas");
                z.lo = a.lo;
                z.hi = a.hi;
            }
            areas[a.lo] = a;
            return;
        }
        fail("chunk lies in no mapping");
    }

    // -- guard pages (C19) -------------------------------------------------------------------------
    std::set<u64> fenced; // areas seen
    void check_fence(const std::vector<Mapping> &mm, const Slot &s) {
        for(size_t i = 0; i < mm.size(); i++) {
            const Mapping &m = mm[i];
            if(s.p < m.lo || s.p >= m.hi) continue;
            CHECK(s.p + s.usable <= m.hi, "a %llu byte chunk reaches beyond the memory mapped for its zone", (unsigned long long) s.usable);
            CHECK(i > 0 && mm[i - 1].hi == m.lo && mm[i - 1].perm[0] == '-' && mm[i - 1].perm[1] == '-', "there is no guard page below the zone of a %llu byte chunk (%s)", (unsigned long long) s.usable,
                  s.zone < 0 ? "general" : "private");
            CHECK(i + 1 < mm.size() && mm[i + 1].lo == m.hi && mm[i + 1].perm[0] == '-' && mm[i + 1].perm[1] == '-', "there is no guard page above the zone of a %llu byte chunk (%s)",
                  (unsigned long long) s.usable, s.zone < 0 ? "general" : "private");
            CHECK(!readable((void *) (m.lo - 1)) && !writable((void *) (m.lo - 1)), "the byte below a zone is accessible");
            CHECK(!readable((void *) m.hi) && !writable((void *) m.hi), "the byte above a zone is accessible");
            if(fenced.size() < 100000) fenced.insert(m.lo);
            return;
        }
        fail("a chunk lies in no mapping");
    }
    bool fence_new(const Slot &s) { // chunks of areas already looked at need no new look at the map
        auto it = fenced.upper_bound(s.p);
        return it == fenced.begin() || *--it + ZONE_BYTES <= s.p;
    }
    void check_fences() {
        std::vector<Mapping> mm = maps();
        std::map<u64, int> first;
        for(int id : live) {
            const Slot &s = slots[id];
            if(s.big) continue;
            u64 lo = 0;
            for(const Mapping &m : mm)
                if(s.p >= m.lo && s.p < m.hi) lo = m.lo;
            auto it = first.find(lo);
            if(it == first.end()) {
                first[lo] = id;
                check_fence(mm, s);
                continue;
            }
            const Slot &o = slots[it->second];
            CHECK(o.usable == s.usable && o.zone == s.zone, "chunks of two zones (%llu and %llu bytes) lie in one accessible range", (unsigned long long) o.usable, (unsigned long long) s.usable);
        }
    }

    // -- the surroundings of large blocks, and free ones (C18) ---------------------------------------
    void check_big(const Slot &s) {
        (void) s;
#if BIG_ZONE_GUARD
        CHECK(!readable((void *) (s.p - 1)) && !writable((void *) (s.p - 1)), "the byte below a live large block of %llu bytes is accessible", (unsigned long long) s.usable);
        CHECK(!readable((void *) (s.p + s.usable)) && !writable((void *) (s.p + s.usable)), "the byte above a live large block of %llu bytes is accessible", (unsigned long long) s.usable);
#endif
    }
    void check_big_free(u64 lo, u64 hi) {
        (void) lo, (void) hi;
#if PROTECT_FREE_BIG_ZONES
        for(u64 p : {lo, hi - 1, lo + r.below(hi - lo)})
            CHECK(!readable((void *) p) && !writable((void *) p), "byte %llu of a freed large block of %llu bytes is accessible", (unsigned long long) (p - lo), (unsigned long long) (hi - lo));
#endif
    }

    // -- a block was handed out --------------------------------------------------------------------
    int add(void *vp, u64 req, int zone, bool refill = true, bool exact = true) {
        CHECK(vp != NULL, "allocation of %llu bytes failed although memory is available", (unsigned long long) req);
        u64 p = (u64) vp;
        CHECK(p % 8 == 0, "allocation of %llu bytes is not 8-byte aligned: %#llx", (unsigned long long) req, (unsigned long long) p);
        Slot s;
        s.p = p;
        s.req = req;
        s.zone = zone;
        s.usable = iso_chunksz(vp);
        CHECK(s.usable >= req, "usable size %llu is below the requested %llu", (unsigned long long) s.usable, (unsigned long long) req);
        CHECK(s.usable < (1ull << 33), "usable size %llu", (unsigned long long) s.usable);
        s.big = s.usable > SMALL_MAX;
        u64 hi = p + s.usable;
        auto it = iv.lower_bound(p);
        if(it != iv.end())
            CHECK(it->first >= hi, "new block [%#llx,+%llu) overlaps live block [%#llx,+%llu)", (unsigned long long) p,
                  (unsigned long long) s.usable, (unsigned long long) it->first, (unsigned long long) slots[it->second].usable);
        if(it != iv.begin()) {
            --it;
            const Slot &o = slots[it->second];
            CHECK(o.p + o.usable <= p, "new block [%#llx,+%llu) overlaps live block [%#llx,+%llu)", (unsigned long long) p,
                  (unsigned long long) s.usable, (unsigned long long) o.p, (unsigned long long) o.usable);
        }
        if(f.quarantine)
            for(const Pend &q : pending)
                CHECK(q.hi <= p || q.lo >= hi, "a chunk still in the quarantine (%llu pending) was handed out again", (unsigned long long) pending.size());
        if(f.perm) {
            auto pt = perm.lower_bound(p);
            if(pt != perm.end()) CHECK(pt->first >= hi, "a permanently freed block was handed out again");
            if(pt != perm.begin()) {
                --pt;
                CHECK(pt->second <= p, "a permanently freed block was handed out again");
            }
        }
        if(seen.size() < 400000) {
            if(!seen.insert(p).second) reused++;
        }
        if(s.big && f.big && exact) {
            CHECK(p % PAGE == 0, "large block is not page aligned");
            u64 need = (req + PAGE - 1) & ~(PAGE - 1);
            CHECK(s.usable - need <= BIG_ZONE_WASTE * 2, "large block of %llu bytes for a request of %llu", (unsigned long long) s.usable, (unsigned long long) req);
        }
        if(s.big && f.big) check_big(s);
        if(!s.big && f.waste && exact) {
            u64 rr = round32(req);
            if(req > 1024) CHECK(s.usable < rr * 8, "request of %llu bytes was served from a %llu byte chunk", (unsigned long long) req, (unsigned long long) s.usable);
        }
        if(!s.big && f.strict && exact && zone < 0)
            CHECK(s.usable == round32(req), "request of %llu bytes was served from a %llu byte chunk despite strict size isolation", (unsigned long long) req,
                  (unsigned long long) s.usable);
        if(zone >= 0) {
            CHECK(s.usable == zones[zone].chunk, "chunk of %llu bytes from a private zone of %llu", (unsigned long long) s.usable, (unsigned long long) zones[zone].chunk);
            zones[zone].live++;
            u64 out = zones[zone].live + zones[zone].pending + zones[zone].perm;
            if(out > zones[zone].max_out) zones[zone].max_out = out;
        }
        if(f.areas) note_area(s);
        if(f.guards && !s.big && fence_new(s)) check_fence(maps(), s);
        s.live = true;
        slots.push_back(s);
        int id = (int) slots.size() - 1;
        slots[id].pos = (int) live.size();
        live.push_back(id);
        iv[p] = id;
        (s.usable >= HUGE_SZ ? huge_bytes : live_bytes) += s.usable;
        allocs++;
        if(refill) fill(slots[id]);
        return id;
    }
    void forget(int id) {
        Slot &s = slots[id];
        int last = live.back();
        live[s.pos] = last;
        slots[last].pos = s.pos;
        live.pop_back();
        iv.erase(s.p);
        (s.usable >= HUGE_SZ ? huge_bytes : live_bytes) -= s.usable;
        s.live = false;
        if(s.zone >= 0) zones[s.zone].live--;
        frees++;
    }
    int pick_live(i64 a) { return live.empty() ? -1 : live[(u64) a % live.size()]; }
    int pick_zone(i64 a) {
        std::vector<int> v;
        for(size_t i = 0; i < zones.size(); i++)
            if(zones[i].alive) v.push_back((int) i);
        return v.empty() ? -1 : v[(u64) a % v.size()];
    }
    int zone_count() {
        int n = 0;
        for(const Zone &z : zones) n += z.alive;
        return n;
    }

    // -- allocation ----------------------------------------------------------------------------------
    int alloc(u64 n) { return add(iso_alloc(n), n, -1); }
    int calloc_(u64 n, u64 sz) {
        unsigned char *p = (unsigned char *) iso_calloc(n, sz);
        u64 total = n * sz;
        int id = add(p, total, -1, false, false);
        CHECK(slots[id].usable >= total, "calloc area too small");
        for(u64 i = 0; i < total;) {
            if(total - i >= 8 && (i & 7) == 0) {
                u64 w;
                memcpy(&w, p + i, 8);
                if(w == 0) {
                    i += 8;
                    continue;
                }
            }
            CHECK(p[i] == 0, "byte %llu of calloc(%llu, %llu) is %#x", (unsigned long long) i, (unsigned long long) n, (unsigned long long) sz, p[i]);
            i++;
        }
        fill(slots[id]);
        return id;
    }
    // What realloc must do to block id; arr: through iso_reallocarray.
    int realloc_(int id, u64 n, bool arr = false, u64 nm = 1) {
        Slot old = slots[id];
        verify(old);
        // The old block is released inside the call; its address may be part of later results only.
        void *np = arr ? iso_reallocarray((void *) old.p, nm, n / nm) : iso_realloc((void *) old.p, n);
        if(n == 0) {
            CHECK(np == NULL, "realloc to zero returned a pointer");
            forget(id);
            push_pending(old);
            return -1;
        }
        CHECK(np != NULL, "realloc from %llu to %llu failed although memory is available", (unsigned long long) old.req, (unsigned long long) n);
        if(f.moved) CHECK(np != (void *) old.p, "resizing a block of %llu bytes to %llu returned the same block", (unsigned long long) old.req, (unsigned long long) n);
        forget(id);
        u64 keep = old.usable < n ? old.usable : n;
        verify_upto(old, (const unsigned char *) np, keep, "contents after realloc");
        int nid = add(np, n, -1);
#if PERM_FREE_REALLOC
        noted_perm(old);
#else
        note_freed(old);
#endif
        return nid;
    }
    // -- private zones -------------------------------------------------------------------------------
    int new_zone(u64 size) {
        void *h = iso_alloc_new_zone(size);
        CHECK(h != NULL, "creating a zone for %llu byte chunks failed", (unsigned long long) size);
        Zone z;
        z.h = h;
        z.req = size;
        z.chunk = round32(size);
        z.count = iso_zone_chunk_count(h);
        z.alive = true;
        CHECK(z.count >= 1, "zone for %llu byte chunks advertises no chunks", (unsigned long long) size);
        for(const Zone &o : zones) CHECK(!o.alive || o.h != h, "two live zones share a handle");
        zones.push_back(z);
        return (int) zones.size() - 1;
    }
    bool may_refuse(const Zone &z) const {
        if(f.pinned) return true;
        return z.live + z.pending + z.perm >= z.count;
    }
    int zalloc(int zi) {
#if ABORT_ON_NULL
        if(may_refuse(zones[zi])) return -1;
#endif
        void *p = iso_alloc_from_zone(zones[zi].h);
        if(p == NULL) {
            refused(zi);
            return -1;
        }
        return add(p, zones[zi].req, zi);
    }
    void refused(int zi) {
        Zone &z = zones[zi];
        nulls++;
        CHECK(may_refuse(z), "private zone of %llu byte chunks returned null holding %llu (+%llu pending, +%llu permanently freed) of the %llu chunks it advertises",
              (unsigned long long) z.req, (unsigned long long) z.live, (unsigned long long) z.pending, (unsigned long long) z.perm, (unsigned long long) z.count);
        if(f.capacity && !f.pinned) {
            u64 used = z.live + z.pending + z.perm;
            CHECK(z.cap == 0 || z.cap == used, "private zone of %llu byte chunks is exhausted with %llu chunks out, earlier it delivered %llu", (unsigned long long) z.req,
                  (unsigned long long) used, (unsigned long long) z.cap);
            CHECK(used >= z.max_out, "private zone of %llu byte chunks is exhausted with %llu chunks out, earlier it delivered %llu", (unsigned long long) z.req,
                  (unsigned long long) used, (unsigned long long) z.max_out);
            z.cap = used;
        }
    }
    void destroy_zone(int zi) {
        Zone &z = zones[zi];
        std::vector<u64> dead;
        for(size_t i = 0; i < live.size();) {
            int id = live[i];
            if(slots[id].zone == zi) {
                verify(slots[id]);
                if(dead.size() < 64) dead.push_back(slots[id].p);
                forget(id);
            } else
                i++;
        }
        u64 lo = z.lo, hi = z.hi;
        void *h = z.h;
        iso_alloc_destroy_zone(h);
        pending_flushed();
        z.alive = false;
        z.h = NULL;
        if(lo) areas.erase(lo);
        for(auto it = perm.begin(); it != perm.end();) {
            if(lo && it->first >= lo && it->first < hi) it = perm.erase(it);
            else ++it;
        }
        if(f.inaccessible) {
            for(u64 p : dead) {
                CHECK(!readable((void *) p), "a chunk of a destroyed zone is still accessible");
                CHECK(!readable((void *) (p + z.chunk - 1)), "the end of a chunk of a destroyed zone is still accessible");
            }
            if(lo) CHECK(!readable((void *) lo) && !readable((void *) (hi - 1)), "memory of a destroyed zone is still accessible");
        }
    }

    // -- freeing ---------------------------------------------------------------------------------------
    void note_freed(const Slot &s) {
        if(!s.big) return;
        bigfree[s.p] = s.usable;
        if(f.big) check_big_free(s.p, s.p + s.usable);
    }
    void pending_flushed() {
        for(const Pend &q : pending) {
            if(q.zone >= 0) zones[q.zone].pending--;
            if(q.big) bigfree[q.lo] = q.hi - q.lo;
        }
        pending.clear();
    }
    void push_pending(const Slot &s) {
        if(pending.size() >= CHUNK_QUARANTINE_SZ) pending_flushed();
        pending.push_back(Pend{s.p, s.p + s.usable, s.zone, s.big});
        if(s.zone >= 0) zones[s.zone].pending++;
    }
    void free_(int id) {
        Slot s = slots[id];
        verify(s);
        forget(id);
        iso_free((void *) s.p);
        push_pending(s);
    }
    void free_size(int id, int mode) {
        Slot s = slots[id];
        verify(s);
        u64 n = s.req;
        if(mode % 4 == 1) n = s.usable;
        if(mode % 4 == 2 && !s.big) n = 1 + r.below(s.usable);
        if(s.big && n <= SMALL_MAX) n = s.usable;
        forget(id);
        iso_free_size((void *) s.p, n);
        note_freed(s);
    }
    void free_perm(int id) {
        Slot s = slots[id];
        verify(s);
        forget(id);
        iso_free_permanently((void *) s.p);
        noted_perm(s);
    }
    void noted_perm(const Slot &s) {
        if(s.zone >= 0) zones[s.zone].perm++;
        perm[s.p] = s.p + s.usable;
    }
    void free_zone(int id) {
        Slot s = slots[id];
        if(s.zone < 0) {
            free_(id);
            return;
        }
        verify(s);
        forget(id);
        iso_free_from_zone((void *) s.p, zones[s.zone].h);
    }
    void free_zone_perm(int id) {
        Slot s = slots[id];
        if(s.zone < 0) {
            free_perm(id);
            return;
        }
        verify(s);
        forget(id);
        iso_free_from_zone_permanently((void *) s.p, zones[s.zone].h);
        noted_perm(s);
    }
    void flush() {
        iso_flush_caches();
        pending_flushed();
    }
    void free_any(int id, u64 how) {
        switch(how % 8) {
            case 0:
            case 1:
            case 2: free_(id); break;
            case 3:
            case 4: free_size(id, (int) (how / 8)); break;
            case 5: free_zone(id); break;
            default: free_size(id, 0);
        }
    }
    // -- reports ------------------------------------------------------------------------------------------
    void check_leaks() {
        u64 got = iso_alloc_detect_leaks();
        if(!f.leaks) return;
        u64 want = 0;
        for(int id : live) want += slots[id].big ? slots[id].usable : 1;
        for(const Pend &q : pending) want += q.big ? q.hi - q.lo : 1;
        CHECK(got == want, "leak report says %llu, the history says %llu (%zu live, %zu pending)", (unsigned long long) got, (unsigned long long) want, live.size(), pending.size());
    }
    void check_zone_leaks(int zi) {
        u64 got = iso_alloc_detect_zone_leaks(zones[zi].h);
        if(!f.leaks) return;
        u64 want = zones[zi].live + zones[zi].pending;
        CHECK(got == want, "leak report of a zone says %llu, the history says %llu", (unsigned long long) got, (unsigned long long) want);
    }
};

} // namespace world
