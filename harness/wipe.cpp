// wipe.cpp - C24: what a released block held is overwritten where the build promises it.
#define PBT_MAIN 1
#include "world.hpp"
using namespace pbt;
using namespace world;

enum K { ALLOC, NEWZONE, ZALLOC, WIPE, WIPEMANY, BIG, FREE, FLUSH, REALLOC, CALLOC, FILL, NK };
static const char *NAMES[] = {"alloc", "newzone", "zalloc", "wipe", "wipe_many", "big", "free", "flush", "realloc", "calloc", "fill"};
enum C { C_FREE, C_SIZE, C_ZONE, C_PERM, C_REALLOC, C_BIGREUSE, C_RETIRED, C_PRIVATE, C_QUARFULL, NC };
static const char *CNAMES[] = {"quarantined_free", "sized_free", "free_from_zone", "permanent_free", "released_by_realloc", "large_block_reused", "memory_gone_afterwards", "private_chunk", "quarantine_filled"};

struct Wipe : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "the memory of a released block that held a known pattern was read after the release took effect"; }
    Case generate(Rng &r, u64) override {
        Case c;
        std::vector<u64> pal;
        for(int i = 0; i < 4; i++) pal.push_back(gen_small_size(r));
        int n = (int) r.range(10, 150);
        for(int i = 0; i < n; i++) {
            int k = r.weighted({25, 2, 12, 25, 3, 6, 6, 2, 4, 2, 1});
            Op o{k, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
            if(k == ALLOC || k == REALLOC || k == CALLOC) o.a = (i64) (r.chance(2, 3) ? r.pick(pal) : gen_small_size(r));
            if(k == NEWZONE) o.a = (i64) gen_small_size(r);
            if(k == WIPE || k == WIPEMANY) o.b = r.range(0, 6);
            if(k == BIG) o.a = (i64) (gen_big_size(r) % (2 << 20) + 65537);
            c.ops.push_back(o);
        }
        return c;
    }
    int poison = -1;
    u64 looked = 0;
    // the chunk was released (permanently: perm) and nothing was allocated since
    void examine(const Slot &s, bool perm, const char *how) {
        unsigned char *b = (unsigned char *) s.p;
        static unsigned char buf[SMALL_MAX * 2];
        if(s.usable > sizeof buf) return;
        if(!peek(b, buf, s.usable)) { // its zone was retired with it
            cls(C_RETIRED);
            return;
        }
        looked++;
        bool must_poison = SANITIZE_CHUNKS;
        if(!perm && !must_poison) return;
        u64 edge = 8; // corruption detection
        for(u64 i = edge; i + 4 <= s.usable - edge; i += 4) {
            u64 v = World::word(s.seed, i >> 3);
            unsigned x, y = (unsigned) (v >> ((i & 7) * 8));
            memcpy(&x, buf + i, 4);
            CHECK(x != y, "bytes %llu to %llu of a chunk of %llu bytes survive its %s", (unsigned long long) i, (unsigned long long) i + 3, (unsigned long long) s.usable, how);
        }
        if(must_poison)
            for(u64 i = edge; i < s.usable - edge; i++) {
                if(poison < 0) {
                    poison = buf[i];
                    CHECK(poison != 0, "released memory is filled with zero");
                }
                CHECK(buf[i] == poison, "byte %llu of a chunk of %llu bytes is %#x after its %s, others are %#x", (unsigned long long) i, (unsigned long long) s.usable, buf[i], how, poison);
            }
    }
    void release(World &w, int id, int how, bool look) {
        Slot s = w.slots[id];
        if(s.zone >= 0) cls(C_PRIVATE);
        w.verify(s);
        const char *what = "free";
        bool perm = false;
        if(s.zone < 0 && (how == 2 || how == 4)) how--;
        switch(how) {
            case 0:
                w.free_(id);
                if(look) w.flush();
                cls(C_FREE);
                break;
            case 1: w.free_size(id, (int) (w.r.next() & 1)), what = "sized free", cls(C_SIZE); break;
            case 2: w.free_zone(id), what = "free from its zone", cls(C_ZONE); break;
            case 3: w.free_perm(id), what = "permanent free", perm = true, cls(C_PERM); break;
            case 4: w.free_zone_perm(id), what = "permanent free from its zone", perm = true, cls(C_PERM); break;
            case 5: {
                int n = w.realloc_(id, s.usable + 1 + w.r.below(100));
                what = "resize to another place";
#if PERM_FREE_REALLOC
                perm = true;
#endif
                cls(C_REALLOC);
                if(w.slots[n].p < s.p + s.usable && s.p < w.slots[n].p + w.slots[n].usable) return;
                break;
            }
            default:
                w.realloc_(id, 0);
                w.flush();
                what = "resize to zero";
        }
        if(look) examine(s, perm, what);
    }
    void execute(const Case &c) override {
        World w(c.entropy);
        iso_alloc_initialize();
        poison = -1;
        looked = 0;
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            auto room = [&](u64 n) { return w.live_bytes + n < (96ull << 20); };
            switch(o.k) {
                case ALLOC:
                case CALLOC: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(!room(n)) break;
                    if(o.k == ALLOC) w.alloc(n);
                    else w.calloc_(1, n);
                    break;
                }
                case NEWZONE: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(n > SMALL_MAX) n = SMALL_MAX;
                    if(w.zone_count() < 8) w.new_zone(n);
                    break;
                }
                case ZALLOC: {
                    int z = w.pick_zone(o.a);
                    if(z >= 0 && room(w.zones[z].chunk)) w.zalloc(z);
                    break;
                }
                case FILL: {
                    int z = w.pick_zone(o.a);
                    if(z < 0 || w.zones[z].chunk < 1024) break;
                    for(int k = 0; k < 4000 && room(w.zones[z].chunk); k++)
                        if(w.zalloc(z) < 0) break;
                    break;
                }
                case WIPE: {
                    int id = w.pick_live(o.a);
                    if(id < 0 || w.slots[id].big) break;
                    release(w, id, (int) o.b, true);
                    break;
                }
                case WIPEMANY: { // several quarantined frees taking effect at once
                    std::vector<Slot> v;
                    w.flush();
                    u64 lim = 1 + (u64) o.c % CHUNK_QUARANTINE_SZ;
                    for(u64 k = 0; k < lim; k++) {
                        int id = w.pick_live(o.a + (i64) k * 31);
                        if(id < 0 || w.slots[id].big) break;
                        v.push_back(w.slots[id]);
                        release(w, id, 0, false);
                    }
                    if(lim == CHUNK_QUARANTINE_SZ) cls(C_QUARFULL);
                    w.flush();
                    for(auto &s : v) examine(s, false, "free");
                    break;
                }
                case BIG: {
                    u64 n = (u64) o.a;
                    if(!room(n * 2)) break;
                    int id = w.alloc(n);
                    Slot s = w.slots[id];
                    if(o.b & 1) w.free_size(id, 0);
                    else {
                        w.free_(id);
                        w.flush();
                    }
                    u64 m = (o.c & 1) ? n : n > 4096 + 65537 ? n - (u64) o.c % 4096 : n;
                    unsigned char *p = (unsigned char *) iso_alloc(m);
                    CHECK(p != NULL, "allocation failed");
                    if((u64) p == s.p) {
                        cls(C_BIGREUSE);
                        looked++;
#if SANITIZE_CHUNKS
                        World::spans(s.usable, [&](u64 a, u64 e) {
                            for(u64 k = (a + 7) & ~7ull; k + 8 <= e; k += 8) {
                                u64 v;
                                memcpy(&v, p + k, 8);
                                CHECK(v != World::word(s.seed, k >> 3), "word %llu of a freed large block is readable by its next owner", (unsigned long long) k);
                            }
                        });
#endif
                    }
                    id = w.add(p, m, -1);
                    if(o.c & 2) w.free_size(id, 0);
                    break;
                }
                case FREE: {
                    int id = w.pick_live(o.a);
                    if(id >= 0) w.free_any(id, (u64) o.b);
                    break;
                }
                case FLUSH: w.flush(); break;
                case REALLOC: {
                    int id = w.pick_live(o.b);
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(id >= 0 && room(n)) w.realloc_(id, n);
                    break;
                }
            }
        }
        at((int) c.ops.size());
        w.verify_all_slots();
        if(looked) nontrivial();
    }
};
int main(int argc, char **argv) {
    Wipe h;
    return run_main(h, argc, argv);
}
