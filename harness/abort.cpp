// abort.cpp - histories that end in exactly one misuse, which must terminate the process (C08-C11).
//
// --extra: double (C08)  invalid (C09)  edge (C10)  bigmeta (C11)
// The surrounding history is a correct program (world.hpp).  The offending step is made of concrete
// operations chosen by the generator; if the process survives the last detection point, that is the
// violation.
#define PBT_MAIN 1
#include "world.hpp"
using namespace pbt;
using namespace world;

enum K { ALLOC, CALLOC, FREE, FREE_SIZE, NEWZONE, ZALLOC, BULK, FLUSH, REALLOC, FREE_PERM, VERIFY, CYCLE,
         FIRST, BETWEEN, SECOND, INVALID, EDGE, META, DETECT, NK };
static const char *NAMES[] = {"alloc", "calloc", "free", "free_size", "newzone", "zalloc", "bulk", "flush", "realloc", "free_perm", "verify", "cycle",
                              "first_free", "between", "second_free", "invalid_free", "corrupt_edge", "overwrite_meta", "detect"};
enum C { C_SMALL, C_PRIV, C_BIG, C_PERM, C_PENDING2, C_FLUSHED, C_IMMEDIATE, C_EXCLUDED, C_MISALIGN, C_INTERIOR, C_WILD, C_FREECHUNK, C_WRONGZONE, C_SIZE, C_BIGINT,
         C_BEGIN, C_END, C_REALLOC, C_ADJ, C_VZONE, C_VALL, C_DESTROY, C_UP, C_DOWN, C_USED, C_FREELIST, C_NEVER, C_NEXTALLOC, C_NEXTFREE, C_NEXTPRIV, C_TAIL, NC };
static const char *CNAMES[] = {"victim_small", "victim_private", "victim_large", "first_free_permanent", "both_frees_pending", "first_free_flushed", "first_free_immediate", "excluded_reused",
                               "misaligned", "interior", "wild", "free_chunk", "wrong_zone", "size_too_large", "large_interior",
                               "edge_begin", "edge_end", "detect_reallocation", "detect_adjacent_free", "detect_verify_zone", "detect_verify_all", "detect_shutdown",
                               "overwrite_upward", "overwrite_downward", "record_in_use", "record_on_free_list", "never_allocated_chunk", "detect_next_allocation", "detect_next_free", "corrupted_in_private_zone", "behind_the_last_chunk"};
static std::string profile;
static bool is(const char *s) { return profile == s; }
static u64 g_static[64] = {1, 2, 3};

struct Abort : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override {
        return is("double") ? "a block was freed twice (by the generated pair of calls) without being handed out in between, and the process was required to die"
               : is("invalid") ? "one invalid pointer or size was freed, and the process was required to die"
               : is("edge") ? "protected bytes of a freed chunk were changed and a detection point that covers it was reached"
                            : "the record of a large allocation was overwritten linearly and then visited";
    }
    int timeout_s() const override { return 60; }
    u64 vsz(Rng &r) {
        if(is("bigmeta")) return gen_big_size(r) % (1 << 20) + 65537;
        if(r.chance(1, 6) && !is("edge")) return gen_big_size(r);
        return gen_small_size(r);
    }
    Case generate(Rng &r, u64) override {
        Case c;
        std::vector<u64> pal;
        for(int i = 0; i < 3; i++) pal.push_back(vsz(r));
        auto sz = [&]() { return r.chance(2, 3) ? r.pick(pal) : vsz(r); };
        auto hist = [&](int n) {
            for(int i = 0; i < n; i++) {
                int k = r.weighted({26, 4, 14, 8, 2, 10, 2, 2, 4, 2, 1, 0});
                Op o{k, 0, 0, 0};
                if(k == ALLOC || k == CALLOC) o.a = (i64) sz();
                else if(k == NEWZONE) o.a = (i64) (r.chance(1, 3) && pal[0] <= 65536 ? pal[0] : gen_small_size(r));
                else if(k == BULK) {
                    u64 s = sz();
                    o.a = (i64) s;
                    o.b = r.range(1, s > 65536 ? 10 : 300);
                } else {
                    o.a = (i64) r.below(1 << 20);
                    o.b = (i64) sz();
                }
                c.ops.push_back(o);
            }
        };
        hist((int) r.range(0, 60));
        // make sure there is something to misuse, of every kind
        if(r.chance(2, 3)) c.ops.push_back(Op{ALLOC, (i64) r.pick(pal), 0, 0});
        if(r.chance(1, 2)) {
            c.ops.push_back(Op{NEWZONE, (i64) (pal[1] <= 65536 ? pal[1] : 4096), 0, 0});
            for(int i = 0; i < r.range(1, 12); i++) c.ops.push_back(Op{ZALLOC, (i64) r.below(100), 0, 0});
        }
        if(is("bigmeta"))
            for(int i = 0; i < r.range(1, 8); i++) c.ops.push_back(Op{ALLOC, (i64) vsz(r), 0, 0});
        if(is("edge")) c.ops.push_back(Op{BULK, (i64) r.pick(pal), r.range(1, 400), 0});
        auto arg = [&]() { return (i64) r.below(1 << 30); };
        if(is("double")) {
            c.ops.push_back(Op{FIRST, arg(), r.range(0, 6), arg()});
            int nb = r.chance(1, 3) ? 0 : (int) r.range(1, 40);
            for(int i = 0; i < nb; i++) c.ops.push_back(Op{BETWEEN, r.range(0, 5), (i64) (r.chance(1, 2) ? vsz(r) : gen_small_size(r)), arg()});
            if(r.chance(1, 2)) c.ops.push_back(Op{FLUSH, 0, 0, 0});
            if(r.chance(1, 4))
                for(int i = 0; i < 70; i++) c.ops.push_back(Op{BETWEEN, 5, (i64) gen_small_size(r), arg()});
            c.ops.push_back(Op{SECOND, 0, r.range(0, 6), arg()});
            if(r.chance(1, 3))
                for(int i = 0; i < 10; i++) c.ops.push_back(Op{BETWEEN, r.range(0, 5), (i64) gen_small_size(r), arg()});
        } else if(is("invalid")) {
            c.ops.push_back(Op{INVALID, r.range(0, 18), arg(), arg()});
        } else if(is("edge")) {
            c.ops.push_back(Op{FIRST, arg(), r.chance(1, 8) ? 3 : r.range(0, 6), arg()});
            int nb = r.chance(1, 2) ? 0 : (int) r.range(1, 20);
            for(int i = 0; i < nb; i++) c.ops.push_back(Op{BETWEEN, r.range(0, 5), (i64) gen_small_size(r), arg()});
            c.ops.push_back(Op{EDGE, r.range(0, 15), r.range(1, 255), r.range(1, 8)});
            c.ops.push_back(Op{DETECT, r.range(0, 5), arg(), 0});
        } else {
            c.ops.push_back(Op{META, arg(), (i64) r.below(64), arg()});
            c.ops.push_back(Op{DETECT, r.range(0, 7), arg(), 0});
        }
        return c;
    }

    enum { DEATH = 1 };
    static void expect_death() {
        for(int s : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP}) expect_signal(s);
        nontrivial();
    }
    static int excluded() {
        g_sh->excluded = 1;
        _exit(0);
    }
    // how: 0 free, 1 free_size(req), 2 free_from_zone, 3 free_permanently, 4 zone permanently, 5 realloc, 6 realloc to 0
    // returns 1 if the release is pending in the quarantine
    static int raw_free(const Slot &s, World &w, int how) {
        void *p = (void *) s.p;
        void *zh = s.zone >= 0 ? w.zones[s.zone].h : NULL;
        switch(how) {
            case 1: iso_free_size(p, s.big ? s.usable : s.req); return 0;
            case 2:
                if(zh) {
                    iso_free_from_zone(p, zh);
                    return 0;
                }
                break;
            case 3: iso_free_permanently(p); return 0;
            case 4:
                if(zh) {
                    iso_free_from_zone_permanently(p, zh);
                    return 0;
                }
                iso_free_permanently(p);
                return 0;
            case 5: {
                // moves the block elsewhere; the copy is a block of its own
                void *q = iso_realloc(p, 40);
                if(q && q == p) excluded();
                return 0;
            }
            case 6: (void) !iso_realloc(p, 0); return 1;
        }
        iso_free(p);
        return 1;
    }

    void execute(const Case &c) override {
        World w(c.entropy);
        iso_alloc_initialize();
        Slot victim;
        bool have = false, freed = false, dead = false, permfree = false;
        u64 meta_page = 0, ca = 0, cb = 0;
        bool corrupted = false, onlist = false;
        int corrupt_side = 0;
        // 1 if [lo,hi) meets the victim
        auto meets = [&](u64 p, u64 us) { return have && freed && p < victim.p + victim.usable && victim.p < p + us; };
        auto guard_alloc = [&](int id) {
            const Slot &s = w.slots[id];
            if(meets(s.p, s.usable)) excluded();
        };
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            auto room = [&](u64 n) { return w.live_bytes + n < (128ull << 20); };
            switch(o.k) {
                case ALLOC: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(room(n)) guard_alloc(w.alloc(n));
                    break;
                }
                case CALLOC: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(room(n)) guard_alloc(w.calloc_(1, n));
                    break;
                }
                case FREE: {
                    int id = w.pick_live(o.a);
                    if(id >= 0) w.free_(id);
                    break;
                }
                case FREE_SIZE: {
                    int id = w.pick_live(o.a);
                    if(id >= 0) w.free_size(id, 0);
                    break;
                }
                case FREE_PERM: {
                    int id = w.pick_live(o.a);
                    if(id >= 0) w.free_perm(id);
                    break;
                }
                case NEWZONE: {
                    u64 n = (u64) o.a;
                    if(n < 1) n = 1;
                    if(n > SMALL_MAX) n = SMALL_MAX;
                    if(w.zone_count() < 10) w.new_zone(n);
                    break;
                }
                case ZALLOC: {
                    int z = w.pick_zone(o.a);
                    if(z >= 0 && room(w.zones[z].chunk)) {
                        int id = w.zalloc(z);
                        if(id >= 0) guard_alloc(id);
                    }
                    break;
                }
                case BULK: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    for(i64 k = 0; k < o.b && room(n); k++) guard_alloc(w.alloc(n));
                    break;
                }
                case FLUSH: w.flush(); break;
                case VERIFY:
                    if(!corrupted) iso_verify_zones();
                    break;
                case CYCLE: break;
                case REALLOC: {
                    int id = w.pick_live(o.a);
                    u64 n = o.b < 1 ? 1 : (u64) o.b;
                    if(id >= 0 && room(n)) guard_alloc(w.realloc_(id, n));
                    break;
                }
                case FIRST: {
                    if(have || w.live.empty()) break;
                    int id = -1;
                    // bias towards private and large blocks now and then
                    int want = (int) (o.c % 4);
                    for(int t = 0; t < 40; t++) {
                        id = w.pick_live(o.a + t * 7919);
                        const Slot &s = w.slots[id];
                        if(is("edge") && s.big) {
                            id = -1;
                            continue;
                        }
                        if(want == 1 && s.zone < 0) continue;
                        if(want == 2 && !s.big) continue;
                        break;
                    }
                    if(id < 0) break;
                    victim = w.slots[id];
                    w.forget(id);
                    have = freed = true;
                    cls(victim.big ? C_BIG : victim.zone >= 0 ? C_PRIV : C_SMALL);
                    int how = (int) o.b;
                    int pend = raw_free(victim, w, how);
                    if(how == 3 || how == 4) permfree = true, cls(C_PERM);
                    if(pend) w.push_pending(victim);
                    else cls(C_IMMEDIATE);
                    if(is("edge")) {
                        w.flush();
                        cls(C_FLUSHED);
                        // a zone may be retired by this; then there is nothing to corrupt
                    }
                    break;
                }
                case BETWEEN: {
                    if(!have) break;
                    // correct calls that do not hand out the victim (if one does, the case is excluded)
                    switch(o.a) {
                        case 0:
                        case 1: {
                            u64 n = o.b < 1 ? 1 : (u64) o.b;
                            if(!room(n)) break;
                            void *p = iso_alloc(n);
                            CHECK(p != NULL, "allocation failed");
                            u64 us = iso_chunksz(p);
                            if(meets((u64) p, us)) excluded();
                            w.add(p, n, -1);
                            break;
                        }
                        case 2: {
                            int z = w.pick_zone(o.c);
                            if(z < 0) break;
                            void *p = iso_alloc_from_zone(w.zones[z].h);
                            if(p == NULL) break;
                            if(meets((u64) p, w.zones[z].chunk)) excluded();
                            w.add(p, w.zones[z].req, z);
                            break;
                        }
                        case 3: {
                            int id = w.pick_live(o.c);
                            if(id >= 0 && w.pending.size() < 60) w.free_(id);
                            break;
                        }
                        case 4: {
                            int id = w.pick_live(o.c);
                            if(id >= 0) w.free_size(id, 0);
                            break;
                        }
                        default: { // fills the quarantine
                            u64 n = o.b < 1 ? 1 : (u64) o.b;
                            void *p = iso_alloc(n);
                            CHECK(p != NULL, "allocation failed");
                            u64 us = iso_chunksz(p);
                            if(meets((u64) p, us)) excluded();
                            int id = w.add(p, n, -1);
                            w.free_(id);
                        }
                    }
                    break;
                }
                case SECOND: {
                    if(!have) break;
                    bool was_pending = false;
                    for(auto &q : w.pending)
                        if(q.lo == victim.p) was_pending = true;
                    int how = (int) o.b;
                    // realloc reads the old block; a freed large block may be unmapped, which also ends the process
                    if(was_pending) cls(C_PENDING2);
                    expect_death();
                    raw_free(victim, w, how);
                    dead = true;
                    break;
                }
                case INVALID: {
                    invalid(w, o);
                    dead = g_sh->nontrivial;
                    if(dead) {
                        iso_flush_caches();
                        expect_none();
                        fail("the process survived an invalid free (class %lld)", (long long) o.a);
                    }
                    break;
                }
                case EDGE: {
                    if(!have) break;
                    unsigned char *p = (unsigned char *) victim.p;
                    if(!peek(p, NULL, 8)) break; // its zone was replaced
                    // o.a: position in the 16 protected bytes; o.b: change; o.c: run length
                    int len = (int) o.c < 1 ? 1 : (int) o.c;
                    for(int k = 0; k < len && k < 8; k++) {
                        int pos = (int) (o.a & 7) + k;
                        if(pos > 7) break;
                        unsigned char x = (unsigned char) ((o.b + k * 37) & 255);
                        if(x == 0) x = 1;
                        if(o.a < 8) p[pos] ^= x;
                        else p[victim.usable - 8 + pos] ^= x;
                    }
                    corrupt_side = o.a < 8 ? 1 : 2;
                    cls(o.a < 8 ? C_BEGIN : C_END);
                    corrupted = true;
                    break;
                }
                case META: {
                    // large blocks whose record we can find
                    std::vector<int> bigs;
                    for(int id : w.live)
                        if(w.slots[id].big) bigs.push_back(id);
                    if(bigs.empty()) break;
                    int id = bigs[(u64) o.a % bigs.size()];
                    victim = w.slots[id];
                    have = true;
                    if(!find_record(victim.p, meta_page, ca, cb)) break;
                    onlist = (o.c & 1);
                    if(onlist) { // put it on the free list
                        w.free_size(id, 1);
                        // it may have been released altogether
                        u64 a2, b2, m2;
                        if(!find_record(victim.p, m2, a2, b2) || a2 != ca) {
                            have = false;
                            break;
                        }
                        // a reusable record still has its block mapped at the same place
                        cls(C_FREELIST);
                    } else
                        cls(C_USED);
                    unsigned char *pg = (unsigned char *) meta_page;
                    u64 oa = ca - meta_page, ob = cb - meta_page;
                    bool up = (o.c & 2);
                    cls(up ? C_UP : C_DOWN);
                    u64 lo, hi;
                    Rng rr((u64) o.c * 2654435761u + 7);
                    if(up) { // starts at or before the first canary (or inside the record) and runs upward over a canary
                        if(rr.chance(3, 4)) {
                            lo = oa - rr.below(oa + 1 < 256 ? oa + 1 : 256);
                            hi = oa + 1 + rr.below(ob + 8 - oa);
                        } else {
                            lo = oa + 8 + rr.below(ob - oa - 8);
                            hi = ob + 1 + rr.below(8);
                        }
                    } else { // starts at or after the second canary and runs downward
                        u64 room_above = PAGE - (ob + 8);
                        hi = ob + 8 + (room_above ? rr.below(room_above < 256 ? room_above + 1 : 256) : 0);
                        lo = rr.chance(1, 2) ? ob + rr.below(8) : oa + rr.below(ob + 8 - oa);
                    }
                    if(hi > PAGE) hi = PAGE;
                    u64 before_a = 0, before_b = 0, after_a = 0, after_b = 0;
                    memcpy(&before_a, pg + oa, clen);
                    memcpy(&before_b, pg + ob, clen);
                    int pat = (int) (o.b % 4);
                    for(u64 k = lo; k < hi; k++) pg[k] = pat == 0 ? 0x41 : pat == 1 ? 0 : pat == 2 ? 0xff : (unsigned char) rr.next();
                    memcpy(&after_a, pg + oa, clen);
                    memcpy(&after_b, pg + ob, clen);
                    if(after_a == before_a && after_b == before_b) break; // nothing protected changed
                    corrupted = true;
                    break;
                }
                case DETECT: {
                    if(!have || !corrupted) break;
                    if(is("edge")) detect_edge(w, victim, permfree, o, corrupt_side);
                    else detect_meta(w, victim, onlist, o);
                    break;
                }
            }
        }
        at((int) c.ops.size());
        if(dead) {
            iso_flush_caches();
            expect_none();
            fail("the process survived a double free (usable size %llu, %s)", (unsigned long long) victim.usable, victim.big ? "large" : victim.zone >= 0 ? "private" : "small");
        }
    }

    u64 clen = 8; // bytes of the protecting words that are certainly theirs
    bool find_record(u64 p, u64 &page, u64 &a, u64 &b) {
        // the record lies in a page of its own and holds the address of the block
        for(const Mapping &m : maps()) {
            if(!m.anon || m.perm[0] != 'r' || m.perm[1] != 'w') continue;
            if(m.hi - m.lo > PAGE * 64) continue;
            for(u64 pg = m.lo; pg < m.hi; pg += PAGE) {
                unsigned char buf[4096];
                if(!peek((void *) pg, buf, PAGE)) continue;
                for(u64 o = 0; o + 8 <= PAGE; o++) {
                    u64 v;
                    memcpy(&v, buf + o, 8);
                    if(v != p) continue;
                    // bracketed by two equal random words: take the longest common run of bytes around the
                    // address (the record is packed) and drop zeros at its ends, which may be neighbours
                    u64 first = 0, last = 0, len = 0;
                    for(u64 k = o >= 64 ? o - 64 : 0; k + 8 <= o; k++)
                        for(u64 q = o + 8; q + 8 <= PAGE && q < o + 64; q++) {
                            u64 n = 0, x = k, y = q;
                            while(x + n < o && y + n < PAGE && buf[x + n] == buf[y + n]) n++;
                            while(n && buf[x + n - 1] == 0) n--;
                            while(n && buf[x] == 0) x++, y++, n--;
                            if(n > len) first = x, last = y, len = n;
                        }
                    bool ok = len >= 5 && len <= 8;
                    clen = len;
                    if(ok) {
                        page = pg;
                        a = pg + first;
                        b = pg + last;
                        return true;
                    }
                }
            }
        }
        return false;
    }

    void detect_meta(World &w, const Slot &v, bool onlist, const Op &o) {
        std::vector<int> bigs;
        for(int id : w.live)
            if(w.slots[id].big && w.slots[id].p != v.p) bigs.push_back(id);
        expect_death();
        const char *how = "";
        if(!onlist) {
            switch(o.a) {
                case 0: how = "free"; iso_free((void *) v.p); iso_flush_caches(); break;
                case 1: how = "sized free"; iso_free_size((void *) v.p, v.usable); break;
                case 2: how = "permanent free"; iso_free_permanently((void *) v.p); break;
                case 3: how = "verify"; iso_verify_zones(); break;
                case 4: how = "size query"; (void) iso_chunksz((void *) v.p); break;
                case 5: how = "shutdown"; cls(C_DESTROY); iso_alloc_destroy(); break;
                case 6: { // an older block lies behind it in the list
                    int id = -1;
                    for(int k : bigs)
                        if(id < 0 || k < id) id = k;
                    how = "free of an older block";
                    // only the oldest live block is certainly behind every other one
                    if(id >= 0 && all_fresh_order(w, id, v)) {
                        iso_free_size((void *) w.slots[id].p, w.slots[id].usable);
                        break;
                    }
                    how = "verify";
                    iso_verify_zones();
                    break;
                }
                default: how = "realloc"; (void) !iso_realloc((void *) v.p, v.usable + 100000);
            }
        } else {
            switch(o.a) {
                case 3: how = "verify"; iso_verify_zones(); break;
                case 5: how = "shutdown"; cls(C_DESTROY); iso_alloc_destroy(); break;
                default: // the last block freed is the first one looked at
                    how = "allocation";
                    (void) !iso_alloc(v.usable);
            }
        }
        expect_none();
        fail("an overwritten record of a large allocation went unnoticed by: %s", how);
    }
    // blocks never recycled are listed newest first
    static bool all_fresh_order(World &w, int id, const Slot &v) {
        if(w.bigfree.size()) return false;
        for(size_t k = 0; k < w.slots.size(); k++)
            if(w.slots[k].p == v.p) return (int) k > id;
        return false;
    }

    // FUZZ_MODE: the next small allocation, or free that takes effect, of anything at all
    void detect_next(World &w, const Slot &v, const Op &o) {
        Rng r((u64) o.b * 31 + (u64) o.a);
        int id = w.pick_live((i64) r.below(1u << 30)), z = w.pick_zone((i64) r.below(1u << 30));
        int how = (int) r.below(9);
        if(id < 0 && how >= 4) how = 0;
        if(z < 0 && how == 3) how = 1;
        u64 n = gen_small_size(r);
        cls(how < 4 ? C_NEXTALLOC : C_NEXTFREE);
        if(v.zone >= 0) cls(C_NEXTPRIV);
        const char *what = "an allocation";
        Slot f;
        if(id >= 0) f = w.slots[id];
        expect_death();
        switch(how) {
            case 0: (void) !iso_alloc(n); break;
            case 1: (void) !iso_calloc(1, n), what = "a zeroed allocation"; break;
            case 2: (void) !iso_realloc(NULL, n), what = "an allocation by realloc"; break;
            case 3: (void) !iso_alloc_from_zone(w.zones[z].h), what = "an allocation from a private zone"; break;
            case 4: raw_free(f, w, 1), what = "a sized free"; break;
            case 5: raw_free(f, w, 3), what = "a permanent free"; break;
            case 6: raw_free(f, w, 4), what = "a permanent free"; break;
            case 7:
                if(f.zone >= 0) {
                    raw_free(f, w, 2), what = "a free to a private zone";
                    break;
                }
                // fall through
            default:
                raw_free(f, w, 0), what = "a free";
                iso_flush_caches();
        }
        expect_none();
        fail("a corrupted freed chunk of %llu bytes went unnoticed by %s of another chunk", (unsigned long long) v.usable, what);
    }
    void detect_edge(World &w, const Slot &v, bool permfree, const Op &o, int side) {
        (void) side;
        int how = (int) o.a;
#if FUZZ_MODE
        detect_next(w, v, o);
#endif
        if(how == 2 && v.zone < 0) how = 3;
        if(how <= 1) {
            // an adjacent chunk that is live
            Slot n;
            bool ok = false;
            auto it = w.iv.find(v.p + v.usable);
            if(it != w.iv.end() && w.slots[it->second].usable == v.usable && w.slots[it->second].zone == v.zone) n = w.slots[it->second], ok = true;
            auto jt = w.iv.find(v.p - v.usable);
            if(jt != w.iv.end() && w.slots[jt->second].usable == v.usable && w.slots[jt->second].zone == v.zone && (!ok || (o.b & 1))) n = w.slots[jt->second], ok = true;
            if(!ok || !same_area(n.p, v.p)) {
                how = permfree ? 3 : 5;
            } else {
                cls(C_ADJ);
                expect_death();
                raw_free(n, w, (int) (o.b >> 4) % 6);
                iso_flush_caches();
                expect_none();
                fail("a corrupted freed chunk of %llu bytes went unnoticed when its neighbour was freed", (unsigned long long) v.usable);
            }
        }
        if(permfree && how == 5) how = 3;
        switch(how) {
            case 2:
                cls(C_VZONE);
                expect_death();
                iso_verify_zone(w.zones[v.zone].h);
                expect_none();
                fail("a corrupted freed chunk of %llu bytes went unnoticed by the check of its zone", (unsigned long long) v.usable);
            case 4:
                cls(C_DESTROY);
                expect_death();
                iso_alloc_destroy();
                expect_none();
                fail("a corrupted freed chunk of %llu bytes went unnoticed at shutdown", (unsigned long long) v.usable);
            case 5: { // allocate until it would be handed out
                cls(C_REALLOC);
                for(int s : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP}) expect_signal(s);
                u64 lim = ZONE_BYTES / v.usable + 10;
                for(u64 k = 0; k < lim * 2; k++) {
                    void *p = v.zone >= 0 ? iso_alloc_from_zone(w.zones[v.zone].h) : iso_alloc(v.usable);
                    if((u64) p == v.p) {
                        expect_none();
                        fail("a corrupted freed chunk of %llu bytes was handed out", (unsigned long long) v.usable);
                    }
                    if(p == NULL) break;
                }
                nontrivial();
            }
            // fall through: not handed out, so the check must see it
            default:
                cls(C_VALL);
                expect_death();
                iso_verify_zones();
                expect_none();
                fail("a corrupted freed chunk of %llu bytes went unnoticed by the check of all zones", (unsigned long long) v.usable);
        }
    }
    static bool same_area(u64 a, u64 b) {
        for(const Mapping &m : maps())
            if(a >= m.lo && a < m.hi) return b >= m.lo && b < m.hi;
        return false;
    }
    static bool in_zone_area(u64 p, u64 &lo, u64 &hi) {
        for(const Mapping &m : maps())
            if(p >= m.lo && p < m.hi) {
                lo = m.lo;
                hi = m.hi;
                return hi - lo == ZONE_BYTES;
            }
        return false;
    }

    void invalid(World &w, const Op &o) {
        Rng r((u64) o.b * 0x9E3779B97F4A7C15ull + 11);
        int id = w.pick_live(o.b);
        Slot s;
        if(id >= 0) s = w.slots[id];
        auto some = [&](bool big, bool priv) {
            for(int t = 0; t < 200; t++) {
                int k = w.pick_live(o.b + t * 104729);
                if(k < 0) return false;
                if(w.slots[k].big == big && (!priv || w.slots[k].zone >= 0)) {
                    s = w.slots[k];
                    return true;
                }
            }
            return false;
        };
        int how = (int) (o.c % 7);
        auto kill = [&](u64 p, const Slot &as, int cl) {
            cls(cl);
            Slot t = as;
            t.p = p;
            if(t.req == 0) t.req = t.usable = 64;
            expect_death();
            raw_free(t, w, how);
        };
        Slot none;
        none.req = none.usable = 64;
        u64 local[16] = {0};
        switch(o.a) {
            case 0: // misaligned
                if(!some(false, false)) return;
                kill(s.p + 1 + r.below(7), s, C_MISALIGN);
                return;
            case 1:
            case 2: // inside a chunk
                if(!some(false, o.a == 2)) return;
                kill(s.p + 8 + 8 * r.below(s.usable / 8 - 1), s, C_INTERIOR);
                return;
            case 3: // inside a large block
            case 4:
                if(!some(true, false)) return;
                kill(s.p + (o.a == 3 ? 8 + 8 * r.below(s.usable / 8 - 1) : PAGE * (1 + r.below(s.usable / PAGE - 1))), s, C_BIGINT);
                return;
            case 5: { // just past a large block
                if(!some(true, false)) return;
                u64 p = s.p + s.usable + 8 * r.below(3);
                auto it = w.iv.find(p);
                if(it != w.iv.end()) return;
                kill(p, s, C_WILD);
                return;
            }
            case 6: kill((u64) &local[r.below(8)], none, C_WILD); return;
            case 7: kill((u64) &g_static[r.below(32)], none, C_WILD); return;
            case 8: {
                void *q = malloc(4096 + r.below(100000));
                kill(((u64) q + 31) & ~31ull, none, C_WILD);
                return;
            }
            case 9: {
                static const u64 e[] = {8, 4096, 0x10000, 0x7ffffffff000ull, 0xffffffff80000000ull, ~7ull, 0x4242424242424240ull, 0x100000000ull, 1ull << 46};
                u64 p = e[r.below(9)];
                kill(p, none, C_WILD);
                return;
            }
            case 10: { // a chunk of a zone that was never handed out, or is free
                if(!some(false, r.chance(1, 2)) && !some(false, false)) return;
                u64 lo, hi;
                if(!in_zone_area(s.p, lo, hi)) return;
                u64 n = (hi - lo) / s.usable;
                u64 p = 0;
                for(int t = 0; t < 50; t++) {
                    p = lo + s.usable * r.below(n);
                    if(w.iv.find(p) == w.iv.end()) break;
                    p = 0;
                }
                if(p == 0) return;
                Slot t = s;
                if(how == 5 && !readable((void *) p)) how = 0;
                kill(p, t, C_NEVER);
                return;
            }
            case 11: { // the wrong private zone
                if(w.zone_count() < 1) return;
                int z = w.pick_zone(o.c);
                bool ok = false;
                for(int t = 0; t < 200 && !ok; t++) {
                    int k = w.pick_live(o.b + t * 104729);
                    if(k < 0) return;
                    if(w.slots[k].zone != z) s = w.slots[k], ok = true;
                }
                if(!ok) return;
                cls(C_WRONGZONE);
                expect_death();
                if(o.c & 1) iso_free_from_zone((void *) s.p, w.zones[z].h);
                else iso_free_from_zone_permanently((void *) s.p, w.zones[z].h);
                return;
            }
            case 12: // a size larger than the chunk
            case 13: {
                if(!some(o.a == 13, false)) return;
                u64 n = s.usable + 1 + (r.chance(1, 2) ? r.below(64) : r.below(1 << 20));
                if(!s.big && r.chance(1, 4)) n = SMALL_MAX + r.below(100000);
                if(!s.big && n <= s.usable) n = s.usable + 1;
                cls(C_SIZE);
                expect_death();
                iso_free_size((void *) s.p, n);
                return;
            }
            case 14: { // a guard page or the far end of a zone
                if(!some(false, false)) return;
                u64 lo, hi;
                if(!in_zone_area(s.p, lo, hi)) return;
                how = how == 5 ? 0 : how;
                kill(r.chance(1, 2) ? hi + 8 * r.below(512) : lo - 8 - 8 * r.below(511), s, C_WILD);
                return;
            }
            case 16:
            case 17:
            case 18: { // two alike private zones in use: a place behind the last chunk of one, or a chunk of the other
                u64 n = r.chance(1, 3) ? gen_small_size(r) : ZONE_BYTES / ((4ull << (4 + r.below(5))) + 1 + r.below(3)) & ~31ull;
                if(n < 1) n = 1;
                if(n > SMALL_MAX) n = SMALL_MAX;
                int zs[2] = {w.new_zone(n), w.new_zone(n)};
                u64 chunk = w.zones[zs[0]].chunk, most = r.chance(1, 2) ? 3000 : 40;
                for(int z : zs)
                    for(u64 k = 0; k < most && k < w.zones[z].count; k++)
                        if(w.zalloc(z) < 0) break;
                int z = zs[r.below(2)];
                Slot t, other;
                for(const Slot &q : w.slots) {
                    if(q.zone == z && q.p) t = q;
                    if(q.zone >= 0 && q.zone != z && (q.zone == zs[0] || q.zone == zs[1]) && q.p) other = q;
                }
                u64 lo, hi;
                if(!t.p || !other.p) return;
                if(o.a == 18) {
                    how = r.chance(1, 2) ? 2 : 4;
                    Slot f = t;
                    kill(other.p, f, C_WRONGZONE);
                    return;
                }
                if(!in_zone_area(t.p, lo, hi)) return;
                u64 all = (hi - lo) / chunk, have = all - std::min<u64>(all, all % 32 ? all % 32 : 3);
                u64 p = lo + chunk * (have + r.below(all - have));
                if(w.iv.find(p) != w.iv.end()) return;
                if(how == 5 && !readable((void *) p)) how = 0;
                kill(p, t, C_TAIL);
                return;
            }
            default: // one chunk above or below by a multiple that is not the chunk size
                if(!some(false, false)) return;
                {
                    u64 p = s.p + 32 * (1 + r.below(40));
                    if(w.iv.find(p) != w.iv.end()) return;
                    u64 lo, hi;
                    if(!in_zone_area(s.p, lo, hi) || p >= hi) return;
                    kill(p, s, C_FREECHUNK);
                }
                return;
        }
    }
};

int main(int argc, char **argv) {
    for(int i = 1; i + 1 < argc; i++)
        if(!strcmp(argv[i], "--extra")) profile = argv[i + 1];
    Abort h;
    return run_main(h, argc, argv);
}
