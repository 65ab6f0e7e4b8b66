// tags.cpp - C23: software memory tags of private-zone chunks.
#define PBT_MAIN 1
#include "world.hpp"
using namespace pbt;
using namespace world;

enum K { NEWZONE, TALLOC, TFREE, LOOK, FLUSH, ALLOC, FREE, DESTROY, CHURN, FILL, VERIFYALL, CHECKALL, BAD, NK };
static const char *NAMES[] = {"newzone", "talloc", "tfree", "look", "flush", "alloc", "free", "destroy", "churn", "fill", "verify_all", "check_all", "bad"};
enum C { C_TAGGED, C_PLAIN, C_FREE_TAGGED, C_FREE_PLAIN, C_FREE_QUAR, C_FREE_PERM, C_FREE_SIZE, C_NONPOW2, C_WRONG_VERIFY, C_WRONG_FREE, C_STALE, C_UNTAGGED_VERIFY, C_WRONGZONE, C_MISALIGNED, C_REFRESH, NC };
static const char *CNAMES[] = {"allocated_tagged", "allocated_plain", "freed_through_tagged_pointer", "freed_through_plain_pointer", "freed_through_quarantine", "freed_permanently", "freed_sized", "size_not_power_of_2",
                               "verify_wrong_tag", "free_wrong_tag", "verify_stale", "verify_untagged", "wrong_zone", "misaligned", "churn_past_25_percent_of_lifetime"};
static const u64 AM = 0x00ffffffffffffffull;

struct Tags : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "tagged chunks were allocated, freed and looked at in at least one zone, or a mismatching tag was used and had to be noticed"; }

    Case generate(Rng &r, u64) override {
        Case c;
        int nz = (int) r.range(1, 4);
        for(int i = 0; i < nz; i++) c.ops.push_back(Op{NEWZONE, (i64) gen_small_size(r), 0, 0});
        int n = (int) r.range(20, 200);
        for(int i = 0; i < n; i++) {
            int k = r.weighted({1, 40, 25, 12, 3, 4, 3, 1, 1, 1, 1, 2, 0});
            Op o{k, (i64) r.below(1 << 20), (i64) r.below(1 << 20), 0};
            if(k == NEWZONE) o.a = (i64) gen_small_size(r);
            if(k == ALLOC) o.a = (i64) (r.chance(1, 8) ? gen_big_size(r) : gen_small_size(r));
            if(k == CHURN) o.b = r.chance(1, 3) ? 40000 : r.range(50, 1500);
            if(k == TFREE) o.c = r.range(0, 7);
            c.ops.push_back(o);
        }
        if(r.chance(1, 2)) c.ops.push_back(Op{BAD, r.range(0, 6), (i64) r.below(1 << 20), (i64) r.range(1, 255)});
        return c;
    }
    std::map<u64, uint8_t> tag; // live private chunks
    u64 changed, same, stale;
    static uint8_t top(void *p) { return (uint8_t) ((u64) p >> 56); }

    int talloc(World &w, int z, bool tagged) {
        Zone &zn = w.zones[z];
        void *p;
        if(tagged) {
            void *t = iso_alloc_from_zone_tagged(zn.h);
            if(t == NULL) {
                w.refused(z);
                return -1;
            }
            p = (void *) ((u64) t & AM);
            CHECK(iso_alloc_untag_ptr(t, zn.h) == p, "untagging a tagged allocation gives %p for %p", iso_alloc_untag_ptr(t, zn.h), t);
            CHECK(top(t) == iso_alloc_get_mem_tag(p, zn.h), "an allocation is tagged %u, its chunk %u", top(t), iso_alloc_get_mem_tag(p, zn.h));
            iso_alloc_verify_ptr_tag(t, zn.h);
            cls(C_TAGGED);
        } else {
            p = iso_alloc_from_zone(zn.h);
            if(p == NULL) {
                w.refused(z);
                return -1;
            }
            CHECK(top(p) == 0, "a plain allocation returned a tagged pointer");
            cls(C_PLAIN);
        }
        int id = w.add(p, zn.req, z);
        tag[(u64) p] = iso_alloc_get_mem_tag(p, zn.h);
        return id;
    }
    void look(World &w, int id) {
        const Slot &s = w.slots[id];
        void *h = w.zones[s.zone].h;
        void *p = (void *) s.p;
        uint8_t t = iso_alloc_get_mem_tag(p, h);
        CHECK(t == tag[s.p], "the tag of a live chunk of %llu bytes changed from %u to %u", (unsigned long long) s.usable, tag[s.p], t);
        void *tp = iso_alloc_tag_ptr(p, h);
        CHECK(((u64) tp & AM) == s.p && top(tp) == t, "tagging %p with tag %u gives %p", p, t, tp);
        CHECK(iso_alloc_untag_ptr(tp, h) == p, "tagging and untagging %p gives %p", p, iso_alloc_untag_ptr(tp, h));
        iso_alloc_verify_ptr_tag(tp, h);
    }
    int pick_private(World &w, i64 a) {
        for(int t = 0; t < 64; t++) {
            int id = w.pick_live(a + t * 7919);
            if(id < 0) return -1;
            if(w.slots[id].zone >= 0) return id;
        }
        return -1;
    }
    // frees and notes whether the tag changed
    void tfree(World &w, int id, int how) {
        Slot s = w.slots[id];
        w.verify(s);
        void *h = w.zones[s.zone].h, *p = (void *) s.p;
        uint8_t t = tag[s.p];
        void *tp = iso_alloc_tag_ptr(p, h);
        w.forget(id);
        tag.erase(s.p);
        bool now = true;
        switch(how) {
            case 0:
            case 1: iso_free_from_zone(tp, h), cls(C_FREE_TAGGED); break;
            case 2: iso_free_from_zone(p, h), cls(C_FREE_PLAIN); break;
            case 3:
                iso_free(p);
                w.push_pending(s);
                now = false;
                cls(C_FREE_QUAR);
                break;
            case 4: iso_free_size(p, s.req), cls(C_FREE_SIZE); break;
            case 5:
                iso_free_from_zone_permanently(tp, h);
                w.noted_perm(s);
                cls(C_FREE_PERM);
                break;
            case 6:
                iso_free_from_zone_permanently(p, h);
                w.noted_perm(s);
                cls(C_FREE_PERM);
                break;
            default:
                iso_free_permanently(p);
                w.noted_perm(s);
                cls(C_FREE_PERM);
        }
        if(!now) {
            w.flush();
        }
        if(iso_alloc_get_mem_tag(p, h) == t) same++;
        else changed++;
    }
    void execute(const Case &c) override {
        World w(c.entropy);
        iso_alloc_initialize();
        tag.clear();
        changed = same = stale = 0;
        std::set<uint8_t> distinct;
        u64 allocs = 0;
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            auto room = [&](u64 n) { return w.live_bytes + n < (96ull << 20); };
            switch(o.k) {
                case NEWZONE: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(n > SMALL_MAX) n = SMALL_MAX;
                    if(w.zone_count() < 12) w.new_zone(n);
                    if(n & (n - 1)) cls(C_NONPOW2);
                    break;
                }
                case TALLOC: {
                    int z = w.pick_zone(o.a);
                    if(z < 0 || !room(w.zones[z].chunk)) break;
                    int id = talloc(w, z, o.b & 3);
                    if(id >= 0) allocs++, distinct.insert(tag[w.slots[id].p]);
                    break;
                }
                case FILL: {
                    int z = w.pick_zone(o.a);
                    if(z < 0 || w.zones[z].chunk < 512) break;
                    for(int k = 0; k < 9000 && room(w.zones[z].chunk); k++) {
                        int id = talloc(w, z, o.b & 1);
                        if(id < 0) break;
                        allocs++;
                        distinct.insert(tag[w.slots[id].p]);
                    }
                    break;
                }
                case TFREE: {
                    int id = pick_private(w, o.a);
                    if(id >= 0) tfree(w, id, (int) o.c & 7);
                    break;
                }
                case LOOK: {
                    int id = pick_private(w, o.a);
                    if(id >= 0) look(w, id);
                    break;
                }
                case FLUSH: w.flush(); break;
                case ALLOC: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(room(n)) w.alloc(n);
                    break;
                }
                case FREE: {
                    int id = w.pick_live(o.a);
                    if(id >= 0 && w.slots[id].zone < 0) w.free_any(id, (u64) o.b);
                    break;
                }
                case DESTROY: {
                    int z = w.pick_zone(o.a);
                    if(z < 0 || w.zone_count() < 2) break;
                    for(auto it = tag.begin(); it != tag.end();) {
                        auto s = w.iv.find(it->first);
                        if(s != w.iv.end() && w.slots[s->second].zone == z) it = tag.erase(it);
                        else ++it;
                    }
                    w.destroy_zone(z);
                    break;
                }
                case CHURN: { // through the part of a lifetime after which tags may be refreshed
                    int z = w.pick_zone(o.a);
                    if(z < 0) break;
                    u64 lim = (u64) o.b;
                    const u64 chunk = w.zones[z].chunk, count = ZONE_BYTES / chunk;
                    bool whole = false, refreshed = false; // may, did the zone get new tags for all chunks?
                    if(lim > 2000) {
                        w.flush();
                        lim = count * 32 / 3;
                        if(lim > 60000) lim = 60000;
                        else {
                            cls(C_REFRESH);
                            whole = w.zones[z].live == 0;
                        }
                    }
                    u64 base = 0, step = 0;
                    std::vector<uint8_t> others;
                    for(u64 k = 0; k < lim; k++) {
                        void *t = iso_alloc_from_zone_tagged(w.zones[z].h);
                        if(!t) {
                            w.refused(z);
                            break;
                        }
                        void *p = (void *) ((u64) t & AM);
                        if((k & 63) == 0) {
                            iso_alloc_verify_ptr_tag(t, w.zones[z].h);
                            CHECK(iso_alloc_untag_ptr(t, w.zones[z].h) == p, "untagging gives a different pointer");
                        }
                        *(volatile char *) p = 1;
                        if(whole) {
                            if(!base) {
                                for(const Mapping &m : maps())
                                    if((u64) p >= m.lo && (u64) p < m.hi) base = m.lo;
                                step = count > 40 ? count / 40 : 1;
                            }
                            others.clear();
                            for(u64 c = 0; c < count; c += step) others.push_back(iso_alloc_get_mem_tag((void *) (base + c * chunk), w.zones[z].h));
                        }
                        iso_free_from_zone(t, w.zones[z].h);
                        if(whole) { // only the freed chunk, or all, may be tagged anew
                            u64 diff = 0, i = 0;
                            for(u64 c = 0; c < count; c += step, i++)
                                diff += base + c * chunk != (u64) p && others[i] != iso_alloc_get_mem_tag((void *) (base + c * chunk), w.zones[z].h);
                            if(diff > i / 2) refreshed = true;
                            else CHECK(diff == 0, "the free of one chunk changed the tags of %llu of %llu others", (unsigned long long) diff, (unsigned long long) i);
                            if(refreshed && k > lim / 2 && w.r.below(50) == 0) break;
                        }
                        if(iso_alloc_get_mem_tag(p, w.zones[z].h) == top(t)) same++;
                        else changed++;
                    }
                    CHECK(!whole || refreshed || w.may_refuse(w.zones[z]), "an empty zone of %llu chunks kept its tags over more than a quarter of its lifetime", (unsigned long long) count);
                    break;
                }
                case VERIFYALL: iso_verify_zones(); break;
                case CHECKALL:
                    w.verify_all_slots();
                    for(int id : w.live)
                        if(w.slots[id].zone >= 0) look(w, id);
                    break;
                case BAD: bad(w, o); break;
            }
        }
        at((int) c.ops.size());
        w.verify_all_slots();
        for(int id : w.live)
            if(w.slots[id].zone >= 0) look(w, id);
        // 1 in 256 new tags equals the old one
        u64 n = changed + same;
        CHECK(n < 40 || same <= n / 16 + 10, "%llu of %llu freed chunks kept their tag", (unsigned long long) same, (unsigned long long) n);
        CHECK(allocs < 64 || distinct.size() >= 16, "%llu chunks share %zu tags", (unsigned long long) allocs, distinct.size());
        if(n > 0 && allocs > 2) nontrivial();
    }
    static void deadly() {
        for(int s : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGTRAP}) expect_signal(s);
        nontrivial();
    }
    void bad(World &w, const Op &o) {
        int id = pick_private(w, o.b);
        if(id < 0) return;
        Slot s = w.slots[id];
        void *h = w.zones[s.zone].h, *p = (void *) s.p;
        uint8_t t = tag[s.p];
        uint8_t x = (uint8_t) o.c;
        if(x == 0) x = 1;
        void *wrong = (void *) (s.p | ((u64) (uint8_t) (t ^ x) << 56));
        switch(o.a) {
            case 0:
            case 1:
                cls(C_WRONG_VERIFY);
                expect_signal(SIGABRT), nontrivial();
                iso_alloc_verify_ptr_tag(wrong, h);
                expect_none();
                fail("a pointer tagged %u passed the check of a chunk tagged %u", (uint8_t) (t ^ x), t);
            case 2:
                if((uint8_t) (t ^ x) == 0) return; // that is an untagged pointer
                cls(C_WRONG_FREE);
                deadly();
                iso_free_from_zone(wrong, h);
                expect_none();
                fail("a chunk tagged %u was freed through a pointer tagged %u", t, (uint8_t) (t ^ x));
            case 3:
                if((uint8_t) (t ^ x) == 0) return;
                cls(C_WRONG_FREE);
                deadly();
                iso_free_from_zone_permanently(wrong, h);
                expect_none();
                fail("a chunk tagged %u was freed permanently through a pointer tagged %u", t, (uint8_t) (t ^ x));
            case 4: { // dangling tagged pointer
                void *tp = iso_alloc_tag_ptr(p, h);
                tfree(w, id, (int) o.c % 8);
                if(iso_alloc_get_mem_tag(p, h) == top(tp)) return;
                cls(C_STALE);
                expect_signal(SIGABRT), nontrivial();
                iso_alloc_verify_ptr_tag(tp, h);
                expect_none();
                fail("a dangling tagged pointer passed the check");
            }
            case 5:
                if(t == 0) return;
                cls(C_UNTAGGED_VERIFY);
                expect_signal(SIGABRT), nontrivial();
                iso_alloc_verify_ptr_tag(p, h);
                expect_none();
                fail("an untagged pointer passed the check of a chunk tagged %u", t);
            default: {
                // the right tag, in a zone the chunk is not from
                for(size_t z = 0; z < w.zones.size(); z++)
                    if(w.zones[z].alive && (int) z != s.zone) {
                        void *tp = iso_alloc_tag_ptr(p, h);
                        cls(C_WRONGZONE);
                        deadly();
                        iso_alloc_verify_ptr_tag(tp, w.zones[z].h);
                        expect_none();
                        fail("the tag of a chunk was accepted for a zone it is not from");
                    }
            }
        }
    }
};
int main(int argc, char **argv) {
    Tags h;
    return run_main(h, argc, argv);
}
