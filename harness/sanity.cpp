// sanity.cpp - C25: page-level sampled allocations.
#define PBT_MAIN 1
#include "world.hpp"
using namespace pbt;
using namespace world;

enum K { ALLOC, CALLOC, REALLOC, ALIGNED, STRDUP, FREE, FREEHOW, NEWZONE, ZALLOC, BURST, LOOK, FLUSH, VERIFYALL, CHECKALL, DESTROY, CORRUPT, TOUCH, NK };
static const char *NAMES[] = {"alloc", "calloc", "realloc", "aligned", "strdup", "free", "free_sample", "newzone", "zalloc", "burst", "look", "flush", "verify_all", "check_all", "destroy", "corrupt", "touch"};
enum C { C_SAMPLE, C_RIGHT, C_LEFT, C_FULL, C_CALLOC, C_STR, C_RFROM, C_RTO, C_FREE0, C_FREE1, C_FREE2, C_FREE3, C_SATURATED, C_CORRUPT, C_TOUCH_AFTER, C_TOUCH_BEFORE, C_TOUCH_FREED, NC };
static const char *CNAMES[] = {"sampled", "placed_at_page_end", "placed_at_page_start", "nearly_a_page", "sampled_calloc", "sampled_string", "resized_from_sample", "resized_to_sample", "sample_freed", "sample_freed_sized",
                               "sample_freed_permanently", "sample_resized_to_zero", "many_samples", "changed_unused_byte", "touched_past_end", "touched_before_start", "touched_freed_sample"};

struct Sanity : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "at least one allocation was a sampled page and was examined"; }

    Case generate(Rng &r, u64) override {
        Case c;
        std::vector<u64> pal;
        for(int i = 0; i < 5; i++) pal.push_back(1 + r.below(r.chance(1, 2) ? 4096 : 300));
        int n = (int) r.range(20, 160);
        for(int i = 0; i < n; i++) {
            int k = r.weighted({40, 5, 8, 3, 4, 14, 14, 1, 8, 2, 6, 2, 1, 2, 1, 0, 0});
            Op o{k, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
            if(k == ALLOC || k == CALLOC || k == REALLOC || k == BURST) o.a = (i64) (r.chance(1, 2) ? r.pick(pal) : r.chance(3, 4) ? 1 + r.below(4200) : r.chance(1, 2) ? gen_small_size(r) : gen_big_size(r) % (1 << 20));
            if(k == NEWZONE) o.a = (i64) (1 + r.below(5000));
            if(k == BURST) o.b = r.chance(1, 20) ? r.range(1000, 4000) : r.range(5, 100);
            c.ops.push_back(o);
        }
        if(r.chance(1, 2)) c.ops.push_back(Op{r.chance(2, 3) ? CORRUPT : TOUCH, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below(1 << 20)});
        return c;
    }
    struct Sample {
        u64 page;
        bool right;
    };
    std::map<u64, Sample> samples; // by address
    std::map<u64, u64> areas;      // zone memory
    u64 looked;
    int unsampled; // allocations since the last sample

    // Classifies a new block by the mapping it lies in.
    void classify(World &w, int id) {
        if(id < 0) return;
        const Slot &s = w.slots[id];
        samples.erase(s.p);
        if(s.usable > 4096) return;
        if(s.zone < 0 && s.req > 0 && s.req <= 4000 && samples.size() < 600) {
            CHECK(unsampled < 120, "not one of 120 allocations was sampled where one in three should be");
            unsampled++;
        }
        auto it = areas.upper_bound(s.p);
        if(it != areas.begin()) {
            --it;
            if(s.p < it->second) return;
        }
        u64 page = s.p & ~(PAGE - 1);
        if(readable((void *) (page - 1)) || readable((void *) (page + PAGE))) { // the memory of a zone
            for(const Mapping &m : maps())
                if(s.p >= m.lo && s.p < m.hi) {
                    CHECK(s.p + s.usable <= m.hi, "an allocation of %llu bytes is only partly mapped", (unsigned long long) s.usable);
                    areas[m.lo] = m.hi;
                    return;
                }
            fail("an allocation is not mapped");
        }
        CHECK(readable((void *) page), "an allocation is not mapped");
        CHECK(s.zone < 0, "a private zone's chunk of %llu bytes is a sampled page", (unsigned long long) s.usable);
        CHECK(s.req < PAGE, "an allocation of %llu bytes is a sampled page", (unsigned long long) s.req);
        Sample sm{page, s.p != page};
        CHECK(s.p + s.usable <= page + PAGE && (sm.right ? s.p + s.usable == page + PAGE : true), "a sample of %llu bytes is at offset %llu of its page", (unsigned long long) s.usable, (unsigned long long) (s.p - page));
        samples[s.p] = sm;
        unsampled = 0;
        cls(C_SAMPLE);
        cls(sm.right ? C_RIGHT : C_LEFT);
        if(s.usable > 3900) cls(C_FULL);
        if(samples.size() > 600) cls(C_SATURATED);
        guards(s, sm);
    }
    void guards(const Slot &s, const Sample &sm) {
        CHECK(!readable((void *) (sm.page - 1)), "memory below a sampled page is accessible");
        CHECK(!readable((void *) (sm.page + PAGE)), "memory above a sampled page is accessible");
        CHECK(iso_chunksz((void *) s.p) == s.usable, "the usable size of a sample changed");
        looked++;
    }
    int pick_sample(World &w, i64 a) {
        std::vector<int> v;
        for(int id : w.live)
            if(samples.count(w.slots[id].p)) v.push_back(id);
        return v.empty() ? -1 : v[(u64) a % v.size()];
    }
    // Frees a sample in one of the possible ways; it is gone at once.
    void free_sample(World &w, int id, int how) {
        Slot s = w.slots[id];
        w.verify(s);
        guards(s, samples[s.p]);
        u64 page = samples[s.p].page;
        w.forget(id);
        samples.erase(s.p);
        switch(how % 4) {
            case 0: iso_free((void *) s.p), cls(C_FREE0); break;
            case 1: iso_free_size((void *) s.p, (how & 4) ? s.usable : s.req ? s.req : 1), cls(C_FREE1); break;
            case 2: iso_free_permanently((void *) s.p), cls(C_FREE2); break;
            default:
                CHECK(iso_realloc((void *) s.p, 0) == NULL, "resizing to zero returned a pointer");
                cls(C_FREE3);
        }
        CHECK(!readable((void *) page), "a freed sample of %llu bytes is still accessible", (unsigned long long) s.usable);
    }
    void execute(const Case &c) override {
        World w(c.entropy);
        iso_alloc_initialize();
        samples.clear();
        areas.clear();
        looked = 0;
        unsampled = 0;
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            auto room = [&](u64 n) { return w.live_bytes + n < (64ull << 20); };
            u64 n = o.a < 1 ? 1 : (u64) o.a;
            switch(o.k) {
                case ALLOC:
                    if(room(n)) classify(w, w.alloc(n));
                    break;
                case CALLOC: {
                    if(!room(n)) break;
                    int id = w.calloc_(1 + (u64) o.b % 4, 1 + n / 4);
                    classify(w, id);
                    if(samples.count(w.slots[id].p)) cls(C_CALLOC);
                    break;
                }
                case REALLOC: {
                    int id = (o.c & 1) ? pick_sample(w, o.b) : w.pick_live(o.b);
                    if(id < 0 || !room(n)) break;
                    u64 old = w.slots[id].p;
                    bool was = samples.count(old) != 0;
                    u64 page = was ? samples[old].page : 0;
                    int nid = w.realloc_(id, n);
                    samples.erase(old);
                    classify(w, nid);
                    if(was) {
                        cls(C_RFROM);
                        if(!samples.count(w.slots[nid].p) || samples[w.slots[nid].p].page != page) CHECK(!readable((void *) page), "a sample that was resized away is still accessible");
                    }
                    if(samples.count(w.slots[nid].p)) cls(C_RTO);
                    break;
                }
                case ALIGNED: {
                    // Through the ordinary call, sizes that are a page or more are never sampled.
                    u64 m = PAGE + (u64) o.b % 3000;
                    if(room(m)) {
                        int id = w.alloc(m);
                        classify(w, id);
                        CHECK(!samples.count(w.slots[id].p), "an allocation of %llu bytes was sampled", (unsigned long long) m);
                    }
                    break;
                }
                case STRDUP: {
                    std::string t((size_t) o.a % 4090, (char) ('a' + o.b % 26));
                    char *q = (o.c & 1) ? iso_strdup(t.c_str()) : iso_strndup(t.c_str(), t.size() + 5);
                    CHECK(q != NULL && strcmp(q, t.c_str()) == 0, "string duplicate of %zu characters differs", t.size());
                    int id = w.add(q, t.size() + 1, -1, true, false);
                    classify(w, id);
                    if(samples.count(w.slots[id].p)) cls(C_STR);
                    break;
                }
                case FREE: {
                    int id = w.pick_live(o.a);
                    if(id < 0) break;
                    if(samples.count(w.slots[id].p)) free_sample(w, id, (int) o.b % 8);
                    else w.free_any(id, (u64) o.b);
                    break;
                }
                case FREEHOW: {
                    int id = pick_sample(w, o.a);
                    if(id >= 0) free_sample(w, id, (int) o.b % 8);
                    break;
                }
                case NEWZONE:
                    if(w.zone_count() < 5) w.new_zone(n);
                    break;
                case ZALLOC: {
                    int z = w.pick_zone(o.a);
                    if(z >= 0 && room(w.zones[z].chunk)) classify(w, w.zalloc(z));
                    break;
                }
                case BURST:
                    if(n > 5000) n = 5000;
                    for(i64 k = 0; k < o.b && room(n); k++) {
                        classify(w, w.alloc(n));
                        if(o.b > 200 && (k & 1)) {
                            int id = w.pick_live(k * 31);
                            if(!samples.count(w.slots[id].p)) w.free_any(id, (u64) k);
                        }
                    }
                    break;
                case LOOK: {
                    int id = pick_sample(w, o.a);
                    if(id < 0) break;
                    guards(w.slots[id], samples[w.slots[id].p]);
                    w.verify(w.slots[id]);
                    break;
                }
                case FLUSH: w.flush(); break;
                case VERIFYALL: iso_verify_zones(); break;
                case CHECKALL: w.verify_all_slots(); break;
                case DESTROY: {
                    int z = w.pick_zone(o.a);
                    if(z >= 0) {
                        w.destroy_zone(z);
                        areas.clear();
                    }
                    break;
                }
                case CORRUPT: {
                    int id = pick_sample(w, o.a);
                    if(id < 0) break;
                    Slot s = w.slots[id];
                    Sample sm = samples[s.p];
                    u64 lo = sm.right ? sm.page : s.p + s.usable, hi = sm.right ? s.p : sm.page + PAGE;
                    if(lo >= hi) break;
                    u64 at_ = (o.b & 1) ? ((o.b & 2) ? lo : hi - 1) : lo + (u64) (o.b >> 2) % (hi - lo);
                    unsigned char *q = (unsigned char *) at_;
                    *q = (unsigned char) (*q ^ (1 + (o.c & 0xff) % 255));
                    cls(C_CORRUPT);
                    nontrivial();
                    expect_signal(SIGABRT);
                    switch((o.c >> 8) % 5) {
                        case 0: iso_free((void *) s.p); break;
                        case 1: iso_free_size((void *) s.p, s.usable); break;
                        case 2: iso_free_permanently((void *) s.p); break;
                        case 3: iso_realloc((void *) s.p, s.usable + 5000); break;
                        default: iso_realloc((void *) s.p, 0);
                    }
                    expect_none();
                    fail("a sample of %llu bytes was freed although byte %llu of its page, outside it, had been changed", (unsigned long long) s.usable, (unsigned long long) (at_ - sm.page));
                }
                case TOUCH: {
                    int id = pick_sample(w, o.a);
                    if(id < 0) break;
                    Slot s = w.slots[id];
                    Sample sm = samples[s.p];
                    volatile unsigned char *q;
                    switch(o.b % 3) {
                        case 0:
                            if(!sm.right) q = (unsigned char *) (sm.page + PAGE);
                            else q = (unsigned char *) (s.p + s.usable);
                            q += (o.c >> 4) % 64;
                            cls(C_TOUCH_AFTER);
                            break;
                        case 1:
                            q = (unsigned char *) (sm.page - 1 - (o.c >> 4) % 64);
                            cls(C_TOUCH_BEFORE);
                            break;
                        default:
                            free_sample(w, id, (int) (o.c >> 4));
                            q = (unsigned char *) s.p;
                            cls(C_TOUCH_FREED);
                    }
                    nontrivial();
                    expect_signal(SIGSEGV);
                    if(o.c & 1) *q = 1;
                    else (void) *q;
                    expect_none();
                    fail("an access outside a sample of %llu bytes did not fault", (unsigned long long) s.usable);
                }
            }
        }
        at((int) c.ops.size());
        w.verify_all_slots();
        if(looked) nontrivial();
    }
};
int main(int argc, char **argv) {
    Sanity h;
    return run_main(h, argc, argv);
}
