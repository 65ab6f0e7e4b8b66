// hist.cpp - histories of correct programs, compared with the model in world.hpp.
//
// --extra selects the profile (which operations are weighted up and which oracles are on):
//   general cycle zones perm quarantine leaks areas strict calloc realloc query strings zero checks big
#define PBT_MAIN 1
#include "world.hpp"
#include <set>
using namespace pbt;
using namespace world;

enum K {
    ALLOC, CALLOC, REALLOC, REALLOCARRAY, FREE, FREE_SIZE, FREE_PERM, FREE_ZONE, FREE_ZONE_PERM, CHUNKSZ, STRDUP, STRNDUP,
    NEWZONE, ZALLOC, DESTROYZONE, ZCOUNT, VERIFY_ALL, VERIFY_ZONE, FLUSH, LEAKS, ZLEAKS, USAGE, FILLZONE, DRAINZONE, BULK,
    FREECLASS, CYCLE, ZERO, NAMEZONE, PROTECT, INIT, CHECKALL, REWRITE, BIGCYCLE, BIGMANY, BADZONE, TOOBIG, HUGEBLOCK, NK
};
static const char *NAMES[] = {"alloc", "calloc", "realloc", "reallocarray", "free", "free_size", "free_perm", "free_zone",
                              "free_zone_perm", "chunksz", "strdup", "strndup", "newzone", "zalloc", "destroyzone", "zcount",
                              "verify_all", "verify_zone", "flush", "leaks", "zleaks", "usage", "fillzone", "drainzone", "bulk",
                              "freeclass", "cycle", "zero", "namezone", "protect", "init", "checkall", "rewrite", "bigcycle", "bigmany", "badzone", "toobig", "hugeblock"};
enum C {
    C_SMALL, C_BIG, C_REUSE, C_ZONE_FULL, C_RETIRED, C_ZEROSZ, C_REALLOC_GROW, C_REALLOC_SHRINK, C_CROSS, C_PERM, C_DESTROY_LIVE,
    C_PENDING_FULL, C_BIG_REUSE, C_CALLOC_DIRTY, C_STR_LONG, C_REFILL, C_ZONE0, C_REPORT, C_CHECK, C_MANYZONES, C_NULL_LEGAL, C_TOOBIG, C_HUGE, C_STR_BIG, C_STR_TIGHT, NC
};
static const char *CNAMES[] = {"small_alloc", "big_alloc", "address_reused", "private_zone_exhausted", "zone_retirement_cycles",
                               "zero_size_request", "realloc_grow", "realloc_shrink", "realloc_cross_small_big", "permanent_free",
                               "destroy_zone_with_live_chunks", "quarantine_overflow", "big_block_reused", "calloc_on_used_memory",
                               "string_over_chunk", "zone_refilled", "zone0_retired_twice", "report_checked", "integrity_check",
                               "over_20_zones", "refused_when_exhausted", "too_large_request", "block_of_16MB_to_4GB", "string_over_65536", "string_ends_at_inaccessible_page"};

static std::string profile;
static bool is(const char *s) { return profile == s; }

struct Hist : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override {
        if(is("cycle")) return "a zone served more allocations than its retirement limit (or was replaced), with live data checked elsewhere";
        if(is("zones")) return "a private zone was filled until it refused, and another zone was live or refilled or destroyed";
        if(is("perm")) return "at least one block was freed permanently and at least 20 later allocations were compared with it";
        if(is("quarantine")) return "a free was pending while later allocations were made and an address came back after a flush";
        if(is("leaks")) return "a report was compared with a history holding live, freed and pending blocks";
        if(is("guard")) return "at least four zone areas, one of them private, were looked at";
        if(is("areas") || is("strict")) return "chunks of at least three sizes or zones were handed out and addresses were reused";
        if(is("calloc")) return "calloc was answered from memory that had been written before";
        if(is("realloc")) return "a block was grown and a block was shrunk with other blocks live, or resizing a live block failed";
        if(is("strings")) return "a string was duplicated into memory that had been written before";
        if(is("zero")) return "a zero-size pointer was passed to a call while other blocks were live";
        if(is("checks")) return "an integrity check, flush or report ran with live and freed blocks present";
        if(is("big")) return "at least one large block was handed out again after a free";
        if(is("mild")) return "at least one address was handed out again and at least 6 blocks were live together";
        return "at least one address was handed out again and at least 16 blocks were live together";
    }
    int timeout_s() const override { return 60; }

    std::vector<u64> palette;
    u64 sz(Rng &r) {
        if(r.chance(5, 8)) return r.pick(palette);
        if(r.chance(1, 12) || (is("big") && r.chance(1, 2))) return gen_big_size(r);
        return gen_small_size(r);
    }
    u64 zsz(Rng &r) {
        switch(r.below(6)) {
            case 0: return gen_small_size(r);
            case 1: return (u64) r.range(SMALL_MAX / 4, SMALL_MAX);
            case 2: return r.pick(palette) > SMALL_MAX ? SMALL_MAX : r.pick(palette);
            case 3: return (u64) r.range(2000, 20000);
            default: return 1ull << r.range(5, 16);
        }
    }
    Case generate(Rng &r, u64 index) override {
        Case c;
        palette.clear();
        int np = (int) r.range(1, 6);
        for(int i = 0; i < np; i++) palette.push_back(r.chance(1, 6) || (is("big") && r.chance(2, 3)) ? gen_big_size(r) : gen_small_size(r));
        std::vector<int> w(NK, 0);
        auto set = [&](std::initializer_list<std::pair<int, int>> l) {
            for(auto &p : l) w[p.first] = p.second;
        };
        set({{ALLOC, 30}, {CALLOC, 6}, {REALLOC, 6}, {REALLOCARRAY, 1}, {FREE, 20}, {FREE_SIZE, 8}, {FREE_PERM, 1}, {FREE_ZONE, 2},
             {FREE_ZONE_PERM, 1}, {CHUNKSZ, 2}, {STRDUP, 2}, {STRNDUP, 2}, {NEWZONE, 1}, {ZALLOC, 6}, {DESTROYZONE, 0}, {ZCOUNT, 1},
             {VERIFY_ALL, 1}, {VERIFY_ZONE, 1}, {FLUSH, 2}, {LEAKS, 0}, {ZLEAKS, 0}, {USAGE, 0}, {FILLZONE, 0}, {DRAINZONE, 0}, {BULK, 2},
             {FREECLASS, 2}, {CYCLE, 0}, {ZERO, 1}, {NAMEZONE, 0}, {PROTECT, 0}, {INIT, 0}, {CHECKALL, 1}, {REWRITE, 2}, {BIGCYCLE, 1}, {BIGMANY, 0}, {TOOBIG, 0}, {HUGEBLOCK, 0}});
        if(r.chance(1, 3)) set({{DESTROYZONE, 1}, {FILLZONE, 1}, {DRAINZONE, 1}});
        if(is("cycle")) set({{CYCLE, 4}, {DESTROYZONE, 2}, {NEWZONE, 3}, {BIGCYCLE, 2}, {BIGMANY, 1}, {FREE_PERM, 0}, {FREE_ZONE_PERM, 0}});
        if(is("zones")) set({{NEWZONE, 6}, {ZALLOC, 40}, {FILLZONE, 8}, {DRAINZONE, 8}, {DESTROYZONE, 3}, {FREE_ZONE, 12}, {FREE_ZONE_PERM, 2}, {ZCOUNT, 3}, {ALLOC, 15}, {STRDUP, 3}, {BULK, 1}, {NAMEZONE, 1}, {BADZONE, 2}});
        if(is("perm")) set({{FREE_PERM, 14}, {FREE_ZONE_PERM, 6}, {FREE, 15}, {FLUSH, 3}, {BULK, 3}, {FILLZONE, 3}, {NEWZONE, 2}, {DRAINZONE, 2}, {ZALLOC, 10}, {VERIFY_ALL, 2}});
        if(is("perm") && PERM_FREE_REALLOC) set({{REALLOC, 14}, {REALLOCARRAY, 4}});
        if(is("quarantine")) set({{FREE, 30}, {FREE_SIZE, 4}, {FLUSH, 3}, {ALLOC, 30}, {FILLZONE, 2}, {DRAINZONE, 2}, {NEWZONE, 2}, {ZALLOC, 14}, {ZLEAKS, 3}, {LEAKS, 1}, {FREE_PERM, 0}});
        if(is("leaks")) set({{LEAKS, 6}, {ZLEAKS, 6}, {USAGE, 1}, {NEWZONE, 2}, {ZALLOC, 14}, {FREE_PERM, 3}, {FREE_ZONE_PERM, 2}, {DESTROYZONE, 1}, {FLUSH, 4}, {FILLZONE, 1}, {BIGMANY, 1}});
        if(is("areas") || is("strict")) set({{NEWZONE, 4}, {ZALLOC, 20}, {DESTROYZONE, 1}, {FILLZONE, 3}, {DRAINZONE, 3}, {BULK, 4}, {BIGCYCLE, 0}, {FLUSH, 3}});
        if(is("guard")) set({{NEWZONE, 8}, {ZALLOC, 20}, {DESTROYZONE, 4}, {FILLZONE, 2}, {BULK, 4}, {CYCLE, r.chance(1, 3) ? 1 : 0}, {CHECKALL, 4}, {FLUSH, 3}});
        if(is("calloc")) set({{CALLOC, 40}, {ALLOC, 15}, {FREE_SIZE, 25}, {REWRITE, 4}});
        if(is("realloc")) set({{REALLOC, 40}, {REALLOCARRAY, 12}, {ALLOC, 12}, {ZALLOC, 4}, {NEWZONE, 1}, {TOOBIG, 4}});
        if(is("query")) set({{CHUNKSZ, 40}, {LEAKS, 2}, {BIGMANY, 2}});
        if(is("strings")) set({{STRDUP, 25}, {STRNDUP, 35}, {FREE_SIZE, 20}, {NEWZONE, 3}});
        if(is("zero")) set({{ZERO, 30}, {ALLOC, 15}});
        if(is("checks")) set({{VERIFY_ALL, 5}, {VERIFY_ZONE, 5}, {FLUSH, 4}, {LEAKS, 2}, {ZLEAKS, 3}, {USAGE, 3}, {NAMEZONE, 1}, {PROTECT, 1}, {INIT, 2}, {BIGMANY, 1}, {DESTROYZONE, 2}, {NEWZONE, 3}, {FILLZONE, 1}, {DRAINZONE, 1}});
        if(is("zero") || is("leaks") || is("checks")) set({{TOOBIG, 1}});
        if((is("general") && r.chance(1, 4)) || is("checks") || is("big") || is("leaks") || is("query") || is("perm") || is("cycle")) set({{HUGEBLOCK, 1}});
        if(is("big")) set({{TOOBIG, 1}, {BIGCYCLE, 4}, {BIGMANY, 2}, {REALLOC, 10}, {CALLOC, 6}, {FREE, 25}, {FREE_SIZE, 15}, {FREE_PERM, 3}, {STRDUP, 0}});
        int n = (int) r.range(20, r.chance(1, 8) ? 1200 : 250);
        if(is("mild")) { // for builds in which every call is slow
            n = (int) r.range(10, 60);
            set({{FILLZONE, 0}, {DRAINZONE, 0}, {DESTROYZONE, 1}, {NEWZONE, 2}, {ZALLOC, 12}, {REALLOC, 8}, {CALLOC, 8}});
        }
        if(is("cycle")) n = (int) r.range(10, 80);
        // Phases: shift the balance between allocating and freeing.
        int phase = 0;
        std::vector<int> ww = w;
        bool many = is("zones") || is("cycle") ? r.chance(1, 3) : !is("mild") && r.chance(1, 30);
        if(many) { // many zones of one size (bitmap buckets, lookup chains)
            u64 s = zsz(r);
            if(r.chance(1, 2)) s = (u64) r.range(SMALL_MAX / 8, SMALL_MAX);
            int k = (int) r.range(10, 45);
            for(int i = 0; i < k; i++) {
                c.ops.push_back(Op{NEWZONE, (i64) s, 0, 0});
                c.ops.push_back(Op{ZALLOC, i, 0, 0});
                if(r.chance(1, 3)) c.ops.push_back(Op{ZALLOC, i, 0, 0});
            }
            if(is("zones") && r.chance(2, 3)) { // what takes the place of destroyed zones must leave the others alone
                int d = (int) r.range(1, k);
                for(int i = 0; i < d; i++) c.ops.push_back(Op{DESTROYZONE, (i64) r.below(1 << 20), 0, (i64) r.below(1 << 16)});
                c.ops.push_back(Op{BULK, (i64) s, (i64) r.range(20, 200), 0});
                if(r.chance(1, 2))
                    for(int i = 0; i < d && i < 12; i++) c.ops.push_back(Op{NEWZONE, (i64) s, 0, 0});
                for(int i = 0; i < 6; i++) c.ops.push_back(Op{r.chance(1, 2) ? FILLZONE : ZALLOC, (i64) r.below(1 << 20), 100, (i64) r.below(64)});
                c.ops.push_back(Op{BULK, (i64) s, (i64) r.range(20, 200), 0});
            }
        }
        bool zone0 = is("cycle") && index % 16 == 5;
        for(int i = 0; i < n; i++) {
            if(i % 40 == 0) {
                phase = (int) r.below(4);
                ww = w;
                if(phase == 1) ww[ALLOC] *= 3, ww[ZALLOC] *= 2;
                if(phase == 2) ww[FREE] *= 3, ww[FREE_SIZE] *= 2, ww[FREECLASS] *= 2;
            }
            Op o{r.weighted(ww), 0, 0, 0};
            switch(o.k) {
                case ALLOC: o.a = (i64) sz(r); break;
                case CALLOC: {
                    u64 t = sz(r);
                    u64 e = (u64) r.range(1, 200);
                    if(r.chance(1, 2)) e = 1;
                    if(e > t) e = t;
                    if(r.chance(1, 3)) {
                        o.a = (i64) e;
                        o.b = (i64) (t / e);
                    } else {
                        o.a = (i64) (t / e);
                        o.b = (i64) e;
                    }
                    break;
                }
                case REALLOC:
                case REALLOCARRAY:
                    o.a = (i64) r.below(1 << 20);
                    o.b = r.chance(1, 20) ? 0 : (i64) sz(r);
                    if(r.chance(1, 12)) o.b = (i64) gen_big_size(r);
                    o.c = r.range(1, 9);
                    break;
                case TOOBIG: // more than the 4 GB the allocator serves
                    o.a = (i64) r.below(1 << 20);
                    o.b = r.chance(1, 3) ? (i64) (4096 * r.range(1, 8)) + 1 : r.chance(1, 2) ? r.range(1, 1ll << 40) : -1 - r.range(0, 9000);
                    o.c = r.chance(2, 3) ? r.range(0, 1) : r.range(2, 4);
                    break;
                case HUGEBLOCK: // up to 4 GB, hardly touched
                    o.a = r.chance(1, 4) ? (i64) ((1ull << r.range(24, 31)) + (u64) r.range(-1, 1) * 4096) : r.chance(1, 8) ? (i64) ((1ull << 32) - r.below(3) * 4096) : r.range(16 << 20, 1ll << 32);
                    o.b = (i64) r.below(4);
                    break;
                case FREE_SIZE: o.a = (i64) r.below(1 << 20), o.b = (i64) r.below(4); break;
                case CHUNKSZ: o.a = (i64) r.below(1 << 20), o.b = r.range(1, 5); break;
                case STRDUP:
                case STRNDUP: {
                    u64 len = r.chance(1, 8) ? (u64) r.range(0, 40000) : r.chance(1, 2) ? (u64) r.range(0, 70) : (u64) r.range(0, 3000);
                    if(r.chance(1, 12)) len = (u64) r.range(SMALL_MAX - 40, SMALL_MAX + 40);
                    else if(is("strings") && r.chance(1, 40)) len = (u64) r.range(SMALL_MAX, r.chance(1, 4) ? 5 << 20 : 300000);
                    else if(r.chance(1, 4)) {
                        len = (1ull << r.range(5, 12)) + (u64) r.range(-2, 2);
                    }
                    o.a = (i64) len;
                    o.b = r.chance(1, 6) ? (i64) (r.chance(1, 3) ? -1 : r.range(0, 1 << 20)) : (i64) len + r.range(-3, 3);
                    if(r.chance(1, 5)) o.b = r.range(0, (i64) len + 1);
                    if(o.b < -1) o.b = 0;
                    o.c = r.chance(1, 3) ? (i64) r.range(1, 100) : 0;
                    break;
                }
                case NEWZONE: o.a = (i64) zsz(r); break;
                case BADZONE: o.a = (i64) r.next() & 0x7fffffffffffffffll, o.b = (i64) r.below(6); break;
                case FILLZONE:
                case DRAINZONE: o.a = (i64) r.below(1 << 20), o.b = r.chance(1, 2) ? 100 : r.range(1, 100), o.c = (i64) r.below(64); break;
                case BULK: {
                    u64 s = r.chance(1, 4) ? sz(r) : r.pick(palette);
                    u64 maxn = ZONE_BYTES / (s < 32 ? 32 : s) + 10;
                    if(s > SMALL_MAX) maxn = 80;
                    u64 nn = r.chance(1, 8) ? (u64) r.range(1, (i64) (maxn * 5 / 4)) : (u64) r.range(1, 600);
                    if(nn > 150000) nn = 150000;
                    if(is("mild")) nn = nn % 12 + 1;
                    if(nn * s > (48u << 20)) nn = (48u << 20) / s + 1;
                    o.a = (i64) s;
                    o.b = (i64) nn;
                    break;
                }
                case FREECLASS: o.a = (i64) r.below(1 << 20), o.b = (i64) r.below(1 << 16), o.c = r.chance(1, 2) ? 100 : r.range(1, 100); break;
                case CYCLE:
                    o.a = (i64) (r.chance(1, 2) ? (u64) (1 << r.range(10, 13)) : (u64) r.range(1500, 16000));
                    o.b = (i64) r.range(1, r.chance(1, 3) ? 3 : 1);
                    o.c = (i64) r.below(4);
                    if(is("cycle") && r.chance(1, 3)) o.c |= 4; // some are freed permanently, others stay live
                    break;
                case BIGCYCLE: o.a = (i64) gen_big_size(r), o.b = r.range(1, is("mild") ? 4 : 40), o.c = (i64) r.below(4); break;
                case BIGMANY: o.a = (i64) gen_big_size(r), o.b = r.range(2, 90), o.c = (i64) r.below(1 << 16); break;
                default: o.a = (i64) r.below(1 << 20), o.b = (i64) r.below(1 << 16), o.c = (i64) r.below(1 << 16);
            }
            c.ops.push_back(o);
            if(zone0 && i == n / 2) c.ops.push_back(Op{CYCLE, 32, 2, (i64) r.below(4)});
        }
        return c;
    }

    void note_size(u64 n) { cls(n > SMALL_MAX ? C_BIG : C_SMALL); }

    void execute(const Case &c) override {
        World w(c.entropy);
        Flags &f = w.f;
        f.quarantine = is("quarantine");
        f.perm = is("perm");
        f.leaks = is("leaks") || is("quarantine");
        f.areas = is("areas") || is("strict");
        f.guards = is("guard");
        f.waste = is("areas");
        f.strict = is("strict");
        f.capacity = is("zones") || is("quarantine");
        f.inaccessible = is("zones");
        f.big = is("big");
        f.moved = is("realloc");
#if CPU_PIN
        f.pinned = true;
        f.capacity = false;
#endif
        iso_alloc_initialize();
        u64 cycles = 0, reports = 0, checks = 0, refills = 0, exhausted = 0, grow = 0, shrink = 0, strs = 0, zeros = 0, callocs_dirty = 0, dests = 0, perm_allocs = 0, toobig = 0;
        u64 maxlive = 0;
        u64 pend_allocs = 0;
        std::set<u64> sizes;
        alignas(4096) static char arena[(6 << 20) + 4096]; // strings end where its last, inaccessible page begins
        char *const arena_end = arena + (6 << 20);
        if(mprotect(arena_end, 4096, PROT_NONE) != 0) return;
        auto room = [&](u64 n) { return w.live_bytes + n < (256ull << 20) && w.live.size() < 300000; };
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            u64 before = w.allocs;
            switch(o.k) {
                case ALLOC: {
                    u64 n = (u64) o.a;
                    if(n == 0) n = 1;
                    if(!room(n)) break;
                    w.alloc(n);
                    note_size(n);
                    sizes.insert(round32(n));
                    break;
                }
                case CALLOC: {
                    u64 n = (u64) o.a, s = (u64) o.b;
                    if(n == 0) n = 1;
                    if(s == 0) s = 1;
                    if(!room(n * round32(s)) || n * round32(s) > (64u << 20)) break;
                    u64 ru = w.reused;
                    w.calloc_(n, s);
                    if(w.reused != ru) callocs_dirty++, cls(C_CALLOC_DIRTY);
                    break;
                }
                case REALLOC:
                case REALLOCARRAY: {
                    int id = w.pick_live(o.a);
                    u64 n = (u64) o.b;
                    u64 nm = o.c ? (u64) o.c : 1;
                    bool arr = o.k == REALLOCARRAY;
                    if(arr) n -= n % nm;
                    if(id >= 0 && w.slots[id].usable >= World::HUGE_SZ) break; // the whole of it would be copied
                    if(id < 0) {
                        if(n == 0) break;
                        void *p = arr ? iso_reallocarray(NULL, nm, n / nm) : iso_realloc(NULL, n);
                        w.add(p, n, -1);
                        break;
                    }
                    if(!room(n)) break;
                    Slot old = w.slots[id];
                    if(n > old.usable) grow++, cls(C_REALLOC_GROW);
                    else if(n && n < old.req) shrink++, cls(C_REALLOC_SHRINK);
                    if(n && (n > SMALL_MAX) != old.big) cls(C_CROSS);
                    w.realloc_(id, n, arr, nm);
#if PERM_FREE_REALLOC
                    if(n) {
                        cls(C_PERM);
                        if(!perm_allocs) perm_allocs = w.allocs;
                        if(is("perm")) check_perm_gone(w, old);
                    }
#endif
                    break;
                }
                case TOOBIG: {
#if !ABORT_ON_NULL
                    int id = w.pick_live(o.a);
                    u64 n = o.b < 0 ? (u64) o.b : (1ull << 32) + (u64) o.b;
                    if(n <= (1ull << 32)) break;
                    cls(C_TOOBIG);
                    if(o.c < 2 && id < 0) break;
                    void *p = NULL;
                    switch(o.c) {
                        case 0: p = iso_realloc((void *) w.slots[id].p, n); break;
                        case 1: p = iso_reallocarray((void *) w.slots[id].p, 1ull << 32, (n >> 32) + 1); break;
                        case 2: p = iso_alloc(n); break;
                        case 3: p = iso_calloc(1, n); break;
                        default: p = iso_calloc(1ull << 32, (n >> 32) + 1); break;
                    }
                    CHECK(p == NULL, "a request of %llu bytes succeeded", (unsigned long long) n);
                    if(o.c < 2) {
                        CHECK(iso_chunksz((void *) w.slots[id].p) == w.slots[id].usable, "a block of %llu bytes changed its size when resizing it failed", (unsigned long long) w.slots[id].req);
                        w.verify(w.slots[id]);
                        toobig++;
                    }
#endif
                    break;
                }
                case HUGEBLOCK: {
                    u64 n = (u64) o.a;
#if SANITIZE_CHUNKS || UAF_PTR_PAGE || EXPERIMENTAL
                    n = (16u << 20) + n % (16u << 20); // every byte is written or read
#endif
                    if(n < 65537 || n > (1ull << 32) || w.huge_bytes + n > (12ull << 30)) break;
                    int id = w.alloc(n);
                    cls(C_HUGE);
                    if(o.b == 0) w.free_size(id, 0);
                    else if(o.b == 1) w.free_(id);
                    break;
                }
                case FREE: {
                    int id = w.pick_live(o.a);
                    if(id >= 0) {
                        if(w.pending.size() >= CHUNK_QUARANTINE_SZ) cls(C_PENDING_FULL);
                        w.free_(id);
                    }
                    break;
                }
                case FREE_SIZE: {
                    int id = w.pick_live(o.a);
                    if(id >= 0) w.free_size(id, (int) o.b);
                    break;
                }
                case FREE_PERM:
                case FREE_ZONE_PERM:
                case FREE_ZONE: {
                    int id = w.pick_live(o.a);
                    if(o.k != FREE_PERM) { // prefer a chunk of a private zone
                        for(int t = 0; t < 20 && id >= 0 && w.slots[id].zone < 0; t++) id = w.pick_live(o.a + t * 7919);
                    }
                    if(id < 0) break;
                    Slot s = w.slots[id];
                    if(o.k == FREE_PERM) w.free_perm(id);
                    else if(o.k == FREE_ZONE) w.free_zone(id);
                    else w.free_zone_perm(id);
                    if(o.k != FREE_ZONE) {
                        cls(C_PERM);
                        if(!perm_allocs) perm_allocs = w.allocs;
                        if(is("perm")) check_perm_gone(w, s);
                    }
                    break;
                }
                case CHUNKSZ: {
                    int id = w.pick_live(o.a);
                    if(id < 0) break;
                    const Slot &s = w.slots[id];
                    for(int k = 0; k < o.b; k++) {
                        u64 n = iso_chunksz((void *) s.p);
                        CHECK(n == s.usable, "usable size was %llu, is now %llu", (unsigned long long) s.usable, (unsigned long long) n);
                    }
                    CHECK(iso_chunksz(NULL) == 0, "usable size of null");
                    break;
                }
                case STRDUP:
                case STRNDUP: {
                    u64 len = (u64) o.a;
                    if(len > (5 << 20)) len = 5 << 20;
                    int z = o.c ? w.pick_zone(o.c) : -1;
                    u64 n = o.k == STRNDUP ? (o.b < 0 ? ~0ull : (u64) o.b) : ~0ull;
                    u64 want = len < n ? len : n;
                    if(z >= 0 && round32(want + 1) > w.zones[z].chunk) z = -1;
#if ABORT_ON_NULL
                    if(z >= 0 && (w.may_refuse(w.zones[z]) || (round32(want + 1) > 1024 && w.zones[z].chunk >= round32(want + 1) * 8))) z = -1;
#endif
                    if(!room(want + 1)) break;
                    Rng sr((u64) o.a * 31 + (u64) o.b + i);
                    const bool bounded = o.k == STRNDUP && n <= len; // the bound decides, not the terminator
                    const bool tight = sr.chance(1, 2);              // nothing behind what may be read is readable
                    char *sbuf = arena_end - (bounded ? (tight ? n : len + 2) : len + 1 + (tight ? 0 : sr.below(40)));
                    for(u64 k = 0; k < len && sbuf + k < arena_end; k++) sbuf[k] = (char) (1 + (len > 100000 && k > 4096 ? k * 2654435761u >> 13 : sr.below(255)) % 255);
                    if(!bounded) {
                        sbuf[len] = 0;
                        for(char *q = sbuf + len + 1; q < arena_end; q++) *q = (char) (1 + sr.below(255));
                    } else if(!tight) sbuf[len] = 'Z', sbuf[len + 1] = 0;
                    if(len > SMALL_MAX) cls(C_STR_BIG);
                    if(tight) cls(C_STR_TIGHT);
                    u64 ru = w.reused;
                    char *p;
                    if(z >= 0) p = o.k == STRDUP ? iso_strdup_from_zone(w.zones[z].h, sbuf) : iso_strndup_from_zone(w.zones[z].h, sbuf, n);
                    else p = o.k == STRDUP ? iso_strdup(sbuf) : iso_strndup(sbuf, n);
                    if(p == NULL && z >= 0) {
                        u64 rr = round32(want + 1);
                        if(rr > 1024 && w.zones[z].chunk >= rr * 8) break; // documented waste limit
                        w.refused(z);
                        cls(C_NULL_LEGAL);
                        break;
                    }
                    // look before the model writes into the block
                    CHECK(p != NULL, "string duplication failed although memory is available");
                    CHECK(p != sbuf, "string duplication returned its argument");
                    u64 us = iso_chunksz(p);
                    CHECK(us >= want + 1, "copy of %llu characters in %llu bytes", (unsigned long long) want, (unsigned long long) us);
                    CHECK(memcmp(p, sbuf, want) == 0, "duplicated string differs from the source (%llu characters, bound %llu)", (unsigned long long) len, (unsigned long long) n);
                    CHECK(p[want] == 0, "duplicated string is not terminated at %llu (source %llu, bound %llu)", (unsigned long long) want, (unsigned long long) len, (unsigned long long) n);
                    w.add(p, want + 1, z);
                    if(w.reused != ru) strs++;
                    if(want > 1000) cls(C_STR_LONG);
                    break;
                }
                case NEWZONE: {
                    if(w.zone_count() >= 60 || w.zones.size() > 120) break;
                    u64 n = (u64) o.a;
                    if(n == 0) n = 1;
                    if(n > SMALL_MAX) n = SMALL_MAX;
                    w.new_zone(n);
                    if(w.zones.size() > 20) cls(C_MANYZONES);
                    break;
                }
                case BADZONE: { // unsupported chunk sizes yield null
                    u64 n = (u64) o.a;
                    if(o.b == 0) n = SMALL_MAX + 1;
                    else if(o.b == 1) n = ~0ull - (n % 64);
                    else if(o.b == 2) n = SMALL_MAX + 1 + n % 100000;
                    else if(o.b == 3) n = (1ull << 32) + n % 70000;
                    else if(n <= SMALL_MAX) n += SMALL_MAX + 1;
                    CHECK(iso_alloc_new_zone(n) == NULL, "a zone for unsupported %llu byte chunks was created", (unsigned long long) n);
                    break;
                }
                case ZALLOC: {
                    int z = w.pick_zone(o.a);
                    if(z < 0) break;
                    if(!room(w.zones[z].chunk)) break;
                    if(w.zalloc(z) < 0) cls(C_NULL_LEGAL);
                    break;
                }
                case DESTROYZONE: {
                    int z = w.pick_zone(o.a);
                    if(z < 0 || dests > 40) break;
                    if(w.zones[z].live) cls(C_DESTROY_LIVE);
                    w.destroy_zone(z);
                    dests++;
                    break;
                }
                case ZCOUNT: {
                    int z = w.pick_zone(o.a);
                    if(z < 0) break;
                    u64 n = iso_zone_chunk_count(w.zones[z].h);
                    CHECK(n == w.zones[z].count, "advertised capacity changed from %llu to %llu", (unsigned long long) w.zones[z].count, (unsigned long long) n);
                    break;
                }
                case VERIFY_ALL:
                    iso_verify_zones();
                    checks++;
                    cls(C_CHECK);
                    break;
                case VERIFY_ZONE: {
                    int z = w.pick_zone(o.a);
                    if(z >= 0) iso_verify_zone(w.zones[z].h);
                    else iso_verify_zone(NULL);
                    checks++;
                    cls(C_CHECK);
                    break;
                }
                case FLUSH:
                    w.flush();
                    checks++;
                    break;
                case LEAKS:
                    w.check_leaks();
                    reports++;
                    cls(C_REPORT);
                    break;
                case ZLEAKS: {
                    int z = w.pick_zone(o.a);
                    if(z >= 0) {
                        w.check_zone_leaks(z);
                        reports++;
                        cls(C_REPORT);
                    }
                    break;
                }
                case USAGE: {
                    u64 u0 = iso_alloc_mem_usage();
                    int z = w.pick_zone(o.a);
                    if(z >= 0) {
                        u64 u = iso_alloc_zone_mem_usage(w.zones[z].h);
                        if(f.leaks) CHECK(u == 4, "usage of one zone reported as %llu megabytes", (unsigned long long) u);
                    }
                    if(f.leaks && w.zones.size() < 40) {
                        // one more zone is four more megabytes (and its bitmap)
                        int nz = w.new_zone(4096);
                        u64 u1 = iso_alloc_mem_usage();
                        CHECK(u1 == u0 + 4 || u1 == u0 + 5, "a new zone changed the usage report from %llu to %llu", (unsigned long long) u0, (unsigned long long) u1);
                        (void) nz;
                        u64 mb = 1 + (u64) o.b % 8;
                        u64 nb = w.bigfree.size();
                        (void) nb;
                        void *p = iso_alloc(mb << 20);
                        int id = w.add(p, mb << 20, -1);
                        u64 u2 = iso_alloc_mem_usage();
                        // a block taken from the free list was already counted
                        bool fromfree = false;
                        for(auto &q : w.bigfree)
                            if(q.first == (u64) p) fromfree = true;
                        u64 add = w.slots[id].usable >> 20;
                        if(fromfree) CHECK((u2 + 1 >= u1 && u2 <= u1 + 1) || (u2 >= u1 + add && u2 <= u1 + add + 1), "handing out a cached large block changed the usage report from %llu to %llu", (unsigned long long) u1, (unsigned long long) u2);
                        else CHECK(u2 >= u1 + add && u2 <= u1 + add + 1, "a new large block of %llu MB changed the usage report from %llu to %llu", (unsigned long long) mb, (unsigned long long) u1, (unsigned long long) u2);
                        w.bigfree.erase((u64) p);
                    }
                    reports++;
                    cls(C_REPORT);
                    break;
                }
                case FILLZONE: {
                    int z = w.pick_zone(o.a);
                    if(z < 0) break;
                    bool had = w.zones[z].cap != 0;
                    u64 lim = w.zones[z].count * (u64) (o.b ? o.b : 1) / 100 + 1;
                    if(o.b >= 100) lim = ~0ull;
                    for(u64 k = 0; k < lim; k++) {
                        if(!room(w.zones[z].chunk)) break;
                        if(w.zalloc(z) < 0) {
                            exhausted++;
                            cls(C_ZONE_FULL);
                            if(had) refills++, cls(C_REFILL);
                            // still null, and nothing else is affected
                            for(int t = 0; t < (ABORT_ON_NULL ? 0 : 3); t++) CHECK(w.f.pinned || iso_alloc_from_zone(w.zones[z].h) == NULL, "exhausted zone handed out a chunk without a free");
                            break;
                        }
                        CHECK(w.zones[z].live < ZONE_BYTES / (SZ_ALIGNMENT < 32 ? SZ_ALIGNMENT : 32) + 10, "zone never exhausted");
                    }
                    break;
                }
                case DRAINZONE: {
                    int z = w.pick_zone(o.a);
                    if(z < 0) break;
                    std::vector<int> ids;
                    for(int id : w.live)
                        if(w.slots[id].zone == z) ids.push_back(id);
                    Rng dr((u64) o.c + 3);
                    if(o.c & 1)
                        for(size_t k = ids.size(); k > 1; k--) std::swap(ids[k - 1], ids[dr.below(k)]);
                    u64 lim = ids.size() * (u64) (o.b ? o.b : 1) / 100 + 1;
                    for(u64 k = 0; k < ids.size() && k < lim; k++) {
                        int m = (int) ((o.c >> 1) & 3);
                        if(m == 0) w.free_(ids[k]);
                        else if(m == 1) w.free_zone(ids[k]);
                        else if(m == 2) w.free_size(ids[k], 0);
                        else w.free_any(ids[k], dr.next());
                    }
                    if(o.c & 32) w.flush();
                    break;
                }
                case BULK: {
                    u64 n = (u64) o.a;
                    if(n == 0) n = 1;
                    for(i64 k = 0; k < o.b; k++) {
                        if(!room(n)) break;
                        w.alloc(n);
                    }
                    sizes.insert(round32(n));
                    note_size(n);
                    break;
                }
                case FREECLASS: {
                    int id = w.pick_live(o.a);
                    if(id < 0) break;
                    u64 us = w.slots[id].usable;
                    std::vector<int> ids;
                    for(int k : w.live)
                        if(w.slots[k].usable == us) ids.push_back(k);
                    Rng dr((u64) o.b + 5);
                    if(o.b & 1)
                        for(size_t k = ids.size(); k > 1; k--) std::swap(ids[k - 1], ids[dr.below(k)]);
                    u64 lim = ids.size() * (u64) (o.c ? o.c : 1) / 100 + 1;
                    for(u64 k = 0; k < ids.size() && k < lim; k++) {
                        if((o.b >> 1) & 1) w.free_size(ids[k], 0);
                        else w.free_any(ids[k], dr.next());
                    }
                    break;
                }
                case CYCLE: {
                    // Push one size class past the lifetime limit after which its zone is replaced.
                    u64 n = (u64) o.a;
                    if(n < 32) n = 32;
                    if(n > 16384) n = 16384;
                    if(o.c & 1) { // nothing of this class stays live
                        std::vector<int> ids;
                        for(int k : w.live)
                            if(w.slots[k].usable == round32(n)) ids.push_back(k);
                        for(int k : ids) w.free_size(k, 0);
                    }
                    if(o.c & 4) {
                        std::vector<int> ids;
                        for(int k = 0; k < 24; k++) ids.push_back(w.alloc(n));
                        for(size_t k = 0; k < ids.size(); k++)
                            if(k % 3 != 2) w.free_perm(ids[k]);
                        cls(C_PERM);
                    }
                    u64 us = 0;
                    u64 total = 0, limit = 1;
                    for(u64 k = 0; k < limit; k++) {
                        void *p = iso_alloc(n);
                        CHECK(p != NULL, "allocation of %llu bytes failed", (unsigned long long) n);
                        if(k == 0) {
                            us = iso_chunksz(p);
                            CHECK(us >= n && us < (1 << 20), "usable size %llu", (unsigned long long) us);
                            limit = (ZONE_BYTES / round32(n)) * 32 * (u64) (o.b < 1 ? 1 : o.b > 3 ? 3 : o.b) + 200;
                        }
                        if((k & 1023) == 0 || k + 100 > limit) {
                            int id = w.add(p, n, -1);
                            if(o.c & 2 && (k & 2047) == 0) w.free_(id);
                            else w.free_size(id, 0);
                        } else {
                            *(volatile u64 *) p = k;
                            *(volatile u64 *) ((u64) p + n - 8) = k;
                            iso_free_size(p, n);
                        }
                        total++;
                    }
                    w.flush();
                    // the class is still served, and correctly
                    for(int k = 0; k < 20; k++) w.alloc(n);
                    cycles++;
                    cls(C_RETIRED);
                    if(n == 32 && o.b >= 2) cls(C_ZONE0);
                    break;
                }
                case ZERO: zero_op(w, o); zeros++; cls(C_ZEROSZ); break;
                case NAMEZONE: {
                    int z = w.pick_zone(o.a);
                    char nm[] = "zone";
                    if(z >= 0) iso_alloc_name_zone(w.zones[z].h, nm);
                    break;
                }
                case PROTECT:
                    iso_alloc_protect_root();
                    iso_alloc_unprotect_root();
                    break;
                case INIT: iso_alloc_initialize(); break;
                case CHECKALL:
                    w.verify_all_slots();
                    if(w.f.guards) w.check_fences();
                    break;
                case REWRITE: {
                    int id = w.pick_live(o.a);
                    if(id >= 0) {
                        w.verify(w.slots[id]);
                        w.fill(w.slots[id]);
                    }
                    break;
                }
                case BIGCYCLE: {
                    u64 n = (u64) o.a;
                    if(n <= SMALL_MAX) n += SMALL_MAX + 1;
                    if(!room(n)) break;
                    for(i64 k = 0; k < o.b && k < 200; k++) {
                        u64 ru = w.reused;
                        int id = w.alloc(n);
                        if(ru != w.reused) cls(C_BIG_REUSE);
                        if(o.c == 1) w.free_(id);
                        else if(o.c == 2 && k % 5 == 4) w.free_perm(id);
                        else w.free_size(id, (int) k % 2);
                    }
                    break;
                }
                case BIGMANY: {
                    u64 n = (u64) o.a;
                    if(n <= SMALL_MAX) n += SMALL_MAX + 1;
                    if(n > (4u << 20)) n = 4u << 20;
                    std::vector<int> ids;
                    Rng br((u64) o.c + 1);
                    for(i64 k = 0; k < o.b && k < 200; k++) {
                        u64 s = n + br.below(3) * 4096;
                        if(!room(s)) break;
                        ids.push_back(w.alloc(s));
                    }
                    for(size_t k = ids.size(); k > 1; k--) std::swap(ids[k - 1], ids[br.below(k)]);
                    size_t keep = ids.size() / 8;
                    for(size_t k = keep; k < ids.size(); k++) {
                        if(o.c & 1) w.free_(ids[k]);
                        else w.free_size(ids[k], 1);
                    }
                    break;
                }
            }
            if(w.live.size() > maxlive) maxlive = w.live.size();
            if(w.allocs != before && !w.pending.empty()) pend_allocs++;
            if((i & 31) == 31) { // spot checks between operations
                for(int k = 0; k < 8 && !w.live.empty(); k++) {
                    const Slot &s = w.slots[w.live[w.r.below(w.live.size())]];
                    w.verify(s);
                    if(is("big") && s.big) w.check_big(s);
                }
            }
        }
        at((int) c.ops.size());
        w.verify_all_slots();
        if(is("leaks")) w.check_leaks();
        if(is("guard")) w.check_fences();
        if(is("big"))
            for(int id : w.live)
                if(w.slots[id].big) w.check_big(w.slots[id]);
        if(is("perm"))
            for(auto &x : w.perm)
                if(x.second - x.first > SMALL_MAX) reserved(x.first, x.second);
        if(is("checks")) {
            iso_verify_zones();
            iso_alloc_destroy();
        } else if(c.entropy % 4 == 0) {
            // Everything can be released, and then nothing is leaked.
            while(!w.live.empty()) w.free_any(w.live[w.r.below(w.live.size())], w.r.next());
            w.flush();
            if(is("leaks")) w.check_leaks();
            w.alloc(100);
        }
        if(w.reused) cls(C_REUSE);
        bool nt;
        if(is("cycle")) nt = cycles > 0 && maxlive > 1;
        else if(is("zones")) nt = exhausted > 0 && (refills || dests || w.zones.size() > 1);
        else if(is("perm")) nt = perm_allocs && w.allocs >= perm_allocs + 20;
        else if(is("quarantine")) nt = pend_allocs > 0 && w.reused > 0;
        else if(is("leaks")) nt = reports > 0 && w.frees > 0 && w.allocs > w.frees;
        else if(is("areas") || is("strict")) nt = sizes.size() + w.zones.size() >= 3 && w.reused > 0;
        else if(is("guard")) nt = w.fenced.size() >= 4 && w.zones.size() >= 1;
        else if(is("calloc")) nt = callocs_dirty > 0;
        else if(is("realloc")) nt = (grow && shrink && maxlive > 1) || toobig;
        else if(is("strings")) nt = strs > 0;
        else if(is("zero")) nt = zeros > 0 && maxlive > 0;
        else if(is("checks")) nt = checks + reports > 0 && w.frees > 0 && maxlive > 1;
        else if(is("big")) nt = w.reused > 0;
        else nt = w.reused > 0 && maxlive >= (is("mild") ? 6 : 16);
        if(nt) nontrivial();
    }

    // C15: what a permanently freed block held is gone.
    void check_perm_gone(World &w, const Slot &s) {
        if(s.big) {
            CHECK(!readable((void *) s.p), "a permanently freed large block is still accessible");
            CHECK(!readable((void *) (s.p + s.usable - 1)), "the end of a permanently freed large block is still accessible");
            CHECK(!readable((void *) (s.p + (s.usable / 2 & ~(PAGE - 1)))), "the middle of a permanently freed large block is still accessible");
            if(is("perm")) reserved(s.p, s.p + s.usable);
            return;
        }
        const unsigned char *b = (const unsigned char *) s.p;
        u64 same = 0, run = 0;
        for(u64 i = 0; i + 8 <= s.usable; i += 8) {
            u64 v;
            memcpy(&v, b + i, 8);
            if(v == World::word(s.seed, i >> 3)) same++, run++;
        }
        (void) run;
        CHECK(same == 0, "%llu words of a permanently freed chunk of %llu bytes survive", (unsigned long long) same, (unsigned long long) s.usable);
        (void) w;
    }

    // The system must not be able to hand the addresses out again either: they stay mapped, without access.
    void reserved(u64 lo, u64 hi) {
        for(const Mapping &m : maps()) {
            if(m.hi <= lo || m.lo >= hi) continue;
            CHECK(m.lo <= lo, "the addresses of a permanently freed large block are free for other mappings");
            CHECK(m.perm[0] == '-' && m.perm[1] == '-', "a permanently freed large block is mapped %s", m.perm);
            lo = m.hi;
        }
        CHECK(lo >= hi, "the addresses of a permanently freed large block are free for other mappings");
    }

    void zero_op(World &w, const Op &o) {
        void *z = iso_alloc(0);
#if NO_ZERO_ALLOCATIONS
        CHECK(z != NULL, "a zero-size request returned null");
        CHECK(!readable(z) && !writable(z), "a zero-size allocation is accessible");
        CHECK(!readable((char *) z + PAGE - 1), "the page of a zero-size allocation is accessible");
        CHECK(!readable((char *) z + (o.c % 4096)), "the page of a zero-size allocation is accessible");
        CHECK(iso_chunksz(z) == 0, "the usable size of a zero-size allocation is %zu", iso_chunksz(z));
        {
            auto it = w.iv.upper_bound((u64) z);
            if(it != w.iv.begin()) {
                --it;
                CHECK(it->first + w.slots[it->second].usable <= (u64) z, "a zero-size allocation lies in a live block");
            }
        }
        switch(o.a % 8) {
            case 0: iso_free(z); break;
            case 1: iso_free_size(z, 0); break;
            case 2: {
                u64 n = 1 + (u64) o.b;
                void *p = iso_realloc(z, n);
                w.add(p, n, -1);
                break;
            }
            case 3: {
                CHECK(iso_realloc(z, 0) == NULL, "realloc(zero-size, 0) returned a pointer");
                void *y = o.b & 1 ? iso_realloc(NULL, 0) : iso_reallocarray(NULL, (size_t) (o.b & 2 ? o.b : 0), 0); // allocates
                CHECK(y != NULL && !readable(y), "realloc(NULL, 0) does not return a zero-size allocation");
                y = iso_calloc(0, (size_t) o.b % 5000);
                CHECK(y != NULL && !readable(y), "calloc of no elements does not return a zero-size allocation");
                iso_free(y);
                break;
            }
            case 4: iso_free_permanently(z); break;
            case 5:
                for(int k = 0; k < 100; k++) iso_free(z);
                iso_free_size(z, 0);
                iso_free(z);
                iso_free_permanently(z);
                iso_free(z);
                break;
            case 6: {
                int id = w.pick_live(o.b); // shrinking to zero is a free
                if(id >= 0) w.realloc_(id, 0);
                break;
            }
            default: {
                void *z2 = iso_alloc(0);
                CHECK(z2 != NULL && !readable(z2), "a second zero-size request is accessible or null");
                iso_free(z2);
                break;
            }
        }
        void *q = iso_calloc(0, (size_t) (o.b % 300));
        if(q != NULL) {
            // may hand out a minimal block; then it is a block like any other
            if(readable(q)) w.add(q, 0, -1, true, false);
            else iso_free(q);
        }
        q = iso_calloc((size_t) (o.c % 100 + 1), 0);
        if(q != NULL) {
            if(readable(q)) w.add(q, 0, -1, true, false);
            else iso_free(q);
        }
        iso_free(NULL);
        iso_free_size(NULL, (size_t) o.b);
        iso_free_permanently(NULL);
        CHECK(!readable(z), "a zero-size allocation became accessible");
#else
        w.add(z, 0, -1);
        (void) o;
#endif
    }
};

int main(int argc, char **argv) {
    for(int i = 1; i + 1 < argc; i++)
        if(!strcmp(argv[i], "--extra")) profile = argv[i + 1];
    if(profile.empty()) profile = "general";
    Hist h;
    return run_main(h, argc, argv);
}
