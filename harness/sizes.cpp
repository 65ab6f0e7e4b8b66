// sizes.cpp - C04: sizes and products over the whole 64-bit range, for every allocation call.
//
// A request either yields null (terminates, in an ABORT_ON_NULL build) or a block of at least the
// true number of bytes.  Requests that clearly fit must succeed.  Everything live stays intact.
#define PBT_MAIN 1
#include "world.hpp"
using namespace pbt;
using namespace world;

enum K { ALLOC, FREE, FLUSH, NEWZONE, ZALLOC, X_ALLOC, X_CALLOC, X_REALLOC, X_REALLOCARRAY, X_NEWZONE, X_STRZONE, X_STRNDUP, X_ZFULL, CHECKALL, NK };
static const char *NAMES[] = {"alloc", "free", "flush", "newzone", "zalloc", "x_alloc", "x_calloc", "x_realloc", "x_reallocarray", "x_newzone", "x_strdup_zone", "x_strndup", "x_zone_full", "check_all"};
enum C { C_NULL, C_SERVED, C_BIGSERVED, C_WRAP, C_OVERFLOW, C_ABORT, C_TOP, C_NEARMAX, C_GB, NC };
static const char *CNAMES[] = {"refused_with_null", "served", "served_over_1GB", "product_wraps_64bit", "product_over_32bit", "terminated", "size_near_2^64", "size_near_4GB", "size_over_1GB"};
typedef unsigned __int128 u128;

struct Sizes : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "a request above 1 GB, with a product above 2^32, or not fitting its zone was made while other blocks were live"; }
    int timeout_s() const override { return 60; }

    static u64 extreme(Rng &r) {
        switch(r.below(12)) {
            case 0: return ~0ull - r.below(70000);
            case 1: return ~0ull - r.below(64);
            case 2: return (1ull << r.range(31, 63)) + (u64) r.range(-70000, 70000);
            case 3: return (1ull << r.range(31, 63)) + (u64) r.range(-40, 40);
            case 4: return 4294967296ull - r.below(20000);
            case 5: return 4294967296ull + r.below(20000);
            case 6: return r.next();
            case 7: return r.next() >> r.range(0, 40);
            case 8: return (1ull << 63) - 1 + r.below(3);
            case 9: return 0x7ffff000ull + r.below(8192);
            case 10: return 65536 + (u64) r.range(-64, 64);
            default: return 1 + r.below(200000);
        }
    }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(10, 70);
        for(int i = 0; i < n; i++) {
            int k = r.weighted({20, 8, 2, 2, 8, 16, 16, 10, 14, 4, 3, 3, 2, 2});
            Op o{k, 0, 0, 0};
            switch(k) {
                case ALLOC: o.a = (i64) (r.chance(1, 6) ? gen_big_size(r) : gen_small_size(r)); break;
                case NEWZONE: o.a = (i64) gen_small_size(r); break;
                case X_ALLOC: o.a = (i64) extreme(r); break;
                case X_REALLOC:
                    o.a = (i64) r.below(1 << 20);
                    o.b = (i64) extreme(r);
                    break;
                case X_NEWZONE: o.a = (i64) (r.chance(1, 2) ? extreme(r) : 65536 + (u64) r.range(-3, 4000)); break;
                case X_CALLOC:
                case X_REALLOCARRAY: {
                    // products that wrap to something small, that pass 2^32 slightly, or anything
                    u64 a, b;
                    switch(r.below(6)) {
                        case 0: { // a*b = 2^64 + small
                            int sh = (int) r.range(1, 63);
                            a = 1ull << sh;
                            b = (1ull << (64 - sh)) + r.below(4);
                            break;
                        }
                        case 1: { // just over 2^32
                            a = 1 + r.below(1 << 20);
                            b = (4294967296ull + r.below(200000)) / a + r.below(2);
                            break;
                        }
                        case 2:
                            a = extreme(r);
                            b = extreme(r);
                            break;
                        case 3:
                            a = 1 + r.below(64);
                            b = extreme(r);
                            break;
                        case 4: { // odd divisor of 2^64 + k
                            a = (r.next() >> r.range(1, 40)) | 1;
                            b = (u64) ((((u128) 1 << 64) + r.below(5000)) / a) + 1;
                            break;
                        }
                        default:
                            a = 1 + r.below(5000);
                            b = 1 + r.below(500);
                    }
                    if(r.chance(1, 2)) std::swap(a, b);
                    o.a = (i64) a;
                    o.b = (i64) b;
                    o.c = (i64) r.below(1 << 20);
                    break;
                }
                default:
                    o.a = (i64) r.below(1 << 20);
                    o.b = (i64) r.below(200000);
            }
            c.ops.push_back(o);
        }
        return c;
    }

    bool hard = false;
    void note_size(u128 t) {
        if(t > ~0ull) cls(C_WRAP);
        if(t > 0xffffffffull) cls(C_OVERFLOW);
        if(t <= ~0ull && t > ~0ull - 100000) cls(C_TOP);
        if(t > (1ull << 30)) cls(C_GB), hard = true;
        if(t > 4294967296ull - 100000 && t < 4294967296ull + 100000) cls(C_NEARMAX);
    }
    static void may_abort() { expect_signal(SIGABRT); }
    static void begin(bool sure = false) {
        (void) sure;
#if ABORT_ON_NULL
        if(!sure) expect_signal(SIGABRT);
#endif
    }
    // A request for t bytes gave p.  sure: it has to succeed.
    void result(World &w, void *p, u128 t, bool sure, bool exact = true, bool array = false) {
        expect_none();
        if(p == NULL) {
#if ABORT_ON_NULL
            if(!array) fail("a request of %#llx%016llx bytes returned null in a build that aborts instead", (unsigned long long) (u64) (t >> 64), (unsigned long long) (u64) t);
#endif
            CHECK(!sure, "a request of %llu bytes failed", (unsigned long long) (u64) t);
            cls(C_NULL);
            w.nulls++;
            return;
        }
        u64 us = iso_chunksz(p);
        CHECK(us >= t, "a request of %#llx%016llx bytes was served from %llu bytes", (unsigned long long) (u64) (t >> 64), (unsigned long long) (u64) t, (unsigned long long) us);
        cls(us > (1ull << 30) ? C_BIGSERVED : C_SERVED);
        int id = w.add(p, (u64) t, -1, true, exact);
        if(us > (64ull << 20)) w.free_size(id, 0); // too big to keep
    }
    void execute(const Case &c) override {
        World w(c.entropy);
        iso_alloc_initialize();
        hard = false;
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            auto room = [&](u64 n) { return w.live_bytes + n < (192ull << 20); };
            switch(o.k) {
                case ALLOC: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(room(n)) w.alloc(n);
                    break;
                }
                case FREE: {
                    int id = w.pick_live(o.a);
                    if(id >= 0) w.free_any(id, (u64) o.b);
                    break;
                }
                case FLUSH: w.flush(); break;
                case NEWZONE: {
                    u64 n = (u64) o.a;
                    if(n < 1) n = 1;
                    if(n > SMALL_MAX) n = SMALL_MAX;
                    if(w.zone_count() < 8) w.new_zone(n);
                    break;
                }
                case ZALLOC: {
                    int z = w.pick_zone(o.a);
                    if(z >= 0 && room(w.zones[z].chunk)) w.zalloc(z);
                    break;
                }
                case CHECKALL: w.verify_all_slots(); break;
                case X_ALLOC: {
                    u64 n = (u64) o.a;
                    if(n == 0) break;
                    note_size(n);
                    if(n < (192ull << 20) && !room(n)) break;
                    begin(n < (192ull << 20));
                    void *p = iso_alloc(n);
                    result(w, p, n, n < (192ull << 20));
                    break;
                }
                case X_CALLOC: {
                    u64 a = (u64) o.a, b = (u64) o.b;
                    if(a == 0 || b == 0) break;
                    u128 t = (u128) a * b;
                    u128 rt = (u128) a * (((u128) b + 31) & ~(u128) 31);
                    note_size(t);
                    if(rt < (4ull << 30) && rt > (64ull << 20)) break; // zeroing would touch it all
                    if(rt <= (64ull << 20) && !room((u64) rt)) break;
                    begin(rt <= (64ull << 20));
                    void *p = iso_calloc(a, b);
                    result(w, p, t, rt <= (64ull << 20), false, true);
                    break;
                }
                case X_REALLOC: {
                    u64 n = (u64) o.b;
                    if(n == 0) break;
                    note_size(n);
                    if(n < (192ull << 20) && !room(n)) break;
                    int id = w.pick_live(o.a);
                    if(id < 0) break;
                    do_realloc(w, id, n, n, [&](void *q) { return iso_realloc(q, n); });
                    break;
                }
                case X_REALLOCARRAY: {
                    u64 a = (u64) o.a, b = (u64) o.b;
                    if(a == 0 || b == 0) break;
                    u128 t = (u128) a * b;
                    note_size(t);
                    if(t < (192ull << 20) && !room((u64) t)) break;
                    int id = w.pick_live(o.c);
                    if(id < 0) break;
                    do_realloc(w, id, t, t < (192ull << 20) ? (u64) t : ~0ull, [&](void *q) { return iso_reallocarray(q, a, b); }, true);
                    break;
                }
                case X_NEWZONE: {
                    u64 n = (u64) o.a;
                    if(n == 0 || w.zone_count() >= 8) break;
                    if(n <= SMALL_MAX) {
                        w.new_zone(n);
                        break;
                    }
                    begin();
                    may_abort();
                    hard = true;
                    void *h = iso_alloc_new_zone(n);
                    expect_none();
                    CHECK(h == NULL, "a zone for chunks of %llu bytes was created", (unsigned long long) n);
                    cls(C_NULL);
                    break;
                }
                case X_STRZONE: { // a string that does not fit its zone
                    int z = w.pick_zone(o.a);
                    if(z < 0) break;
                    u64 n = w.zones[z].chunk + 1 + (u64) o.b % 3000;
                    std::string s(n, 'x'); // n+1 bytes
                    expect_signal(SIGABRT);
                    hard = true;
                    char *p = (o.b & 1) ? iso_strdup_from_zone(w.zones[z].h, s.c_str()) : iso_strndup_from_zone(w.zones[z].h, s.c_str(), n);
                    expect_none();
                    CHECK(p == NULL, "a string of %llu bytes was put in a zone of %llu byte chunks", (unsigned long long) n, (unsigned long long) w.zones[z].chunk);
                    cls(C_NULL);
                    break;
                }
                case X_STRNDUP: { // a huge limit is only a limit
                    char s[64];
                    size_t l = (size_t) (o.a % 60);
                    memset(s, 'q', l);
                    s[l] = 0;
                    u64 lim = (o.b & 1) ? ~0ull - (u64) (o.b % 100) : (1ull << (o.b % 64));
                    begin(true);
                    char *p = iso_strndup(s, lim);
                    expect_none();
                    CHECK(p != NULL, "strndup with limit %llu failed", (unsigned long long) lim);
                    size_t e = l < lim ? l : lim;
                    CHECK(strlen(p) == e && memcmp(p, s, e) == 0, "strndup with limit %llu copied %zu of %zu bytes", (unsigned long long) lim, strlen(p), e);
                    w.add(p, e + 1, -1);
                    break;
                }
                case X_ZFULL: { // exhaust a private zone: the next request is refused
                    int z = w.pick_zone(o.a);
                    if(z < 0) break;
                    u64 ch = w.zones[z].chunk;
                    if(ch < 1024) break;
                    hard = true;
                    bool refused = false;
                    for(u64 k = 0; k < ZONE_BYTES / ch + 2 && room(ch); k++) {
#if ABORT_ON_NULL
                        expect_signal(SIGABRT);
#endif
                        void *p = iso_alloc_from_zone(w.zones[z].h);
                        expect_none();
                        if(p == NULL) {
#if ABORT_ON_NULL
                            fail("an exhausted zone returned null in a build that aborts instead");
#endif
                            refused = true;
                            cls(C_NULL);
                            break;
                        }
                        w.add(p, w.zones[z].req, z);
                    }
                    if(!refused) CHECK(!room(ch), "a zone handed out more chunks of %llu bytes than fit", (unsigned long long) ch);
                    break;
                }
            }
            if(hard && w.live.size()) nontrivial();
        }
        at((int) c.ops.size());
        w.verify_all_slots();
    }
    template <class F> void do_realloc(World &w, int id, u128 t, u64 sure, F call, bool array = false) {
        Slot s = w.slots[id];
        if(hard && w.live.size()) nontrivial();
        begin(sure < (192ull << 20));
        void *p = call((void *) s.p);
        expect_none();
        if(p == NULL) {
#if ABORT_ON_NULL
            if(!array || t <= 0xffffffffull) // an overflowing iso_reallocarray returns null in every build
                fail("a resize to %#llx%016llx bytes returned null in a build that aborts instead", (unsigned long long) (u64) (t >> 64), (unsigned long long) (u64) t);
#endif
            CHECK(sure >= (192ull << 20), "a resize to %llu bytes failed", (unsigned long long) sure);
            cls(C_NULL);
            w.verify(s, "contents of a block that could not be resized");
            return;
        }
        u64 us = iso_chunksz(p);
        CHECK(us >= t, "a resize to %#llx%016llx bytes was served from %llu bytes", (unsigned long long) (u64) (t >> 64), (unsigned long long) (u64) t, (unsigned long long) us);
        u64 keep = s.usable < us ? s.usable : us;
        if(t < keep) keep = (u64) t;
        w.verify_upto(s, (unsigned char *) p, keep, "contents after a resize");
        w.forget(id);
        cls(us > (1ull << 30) ? C_BIGSERVED : C_SERVED);
        int n = w.add(p, (u64) t, -1, true, false);
        if(us > (64ull << 20)) w.free_size(n, 0);
    }
};
int main(int argc, char **argv) {
    Sizes h;
    return run_main(h, argc, argv);
}
