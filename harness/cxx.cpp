// cxx.cpp - C28: operator new and delete as the library defines them, called directly.
// The library's operators are renamed to hk_<mangled name>, so that the harness keeps its own.
#define PBT_MAIN 1
#include "world.hpp"
#include <new>
using namespace pbt;
using namespace world;

extern "C" {
void *hk__Znwm(size_t);
void *hk__Znam(size_t);
void *hk__ZnwmRKSt9nothrow_t(size_t, const std::nothrow_t &) noexcept;
void *hk__ZnamRKSt9nothrow_t(size_t, const std::nothrow_t &) noexcept;
void *hk__ZnwmSt11align_val_t(size_t, std::align_val_t);
void *hk__ZnamSt11align_val_t(size_t, std::align_val_t);
void *hk__ZnwmSt11align_val_tRKSt9nothrow_t(size_t, std::align_val_t, const std::nothrow_t &) noexcept;
void *hk__ZnamSt11align_val_tRKSt9nothrow_t(size_t, std::align_val_t, const std::nothrow_t &) noexcept;
void hk__ZdlPv(void *) noexcept;
void hk__ZdaPv(void *) noexcept;
void hk__ZdlPvm(void *, size_t) noexcept;
void hk__ZdaPvm(void *, size_t) noexcept;
void hk__ZdlPvRKSt9nothrow_t(void *, const std::nothrow_t &) noexcept;
void hk__ZdaPvRKSt9nothrow_t(void *, const std::nothrow_t &) noexcept;
void hk__ZdlPvSt11align_val_t(void *, std::align_val_t) noexcept;
void hk__ZdaPvSt11align_val_t(void *, std::align_val_t) noexcept;
void hk__ZdlPvSt11align_val_tRKSt9nothrow_t(void *, std::align_val_t, const std::nothrow_t &) noexcept;
void hk__ZdaPvSt11align_val_tRKSt9nothrow_t(void *, std::align_val_t, const std::nothrow_t &) noexcept;
}

enum K { NEW, NEWARR, NEWNT, NEWARRNT, NEWAL, NEWARRAL, NEWALNT, NEWARRALNT, DELETE, DELETE_SIZED, DELETE_OTHER, IMPOSSIBLE, DELNULL, CHECKALL, LEAKS, FLUSH, ISO, NK };
static const char *NAMES[] = {"new", "new[]", "new_nothrow", "new[]_nothrow", "new_aligned", "new[]_aligned", "new_aligned_nothrow", "new[]_aligned_nothrow",
                              "delete", "delete_sized", "delete_nothrow_or_aligned", "impossible", "delete_null", "check_all", "leaks", "flush", "iso_calls"};
enum C { C_ALIGNED, C_OVERPAGE, C_REFUSED, C_BIG, C_SIZED_BIG, C_SIZED_SMALL, C_ZERO, C_HANDLER, C_HANDLER_OTHER, C_HANDLER_HELPED, C_BADALLOC, C_NULL, C_REUSE, NC };
static const char *CNAMES[] = {"alignment_over_32", "alignment_over_a_page", "alignment_refused", "large_block", "sized_delete_of_large", "sized_delete_of_small", "zero_size", "new_handler_called", "handler_threw_its_own", "handler_gave_up_its_place", "bad_alloc", "nothrow_null", "address_reused"};

struct Own : std::bad_alloc {
    int v;
};
static int g_calls, g_mode, g_left;
static void other_handler() { throw std::bad_alloc(); }
static void handler() {
    g_calls++;
    if(g_calls > 100) fail("the new handler is called over and over although it left");
    if(g_mode == 1) {
        Own o;
        o.v = 42;
        throw o;
    }
    if(g_left-- > 0) return; // try again
    if(g_mode == 2) std::set_new_handler(NULL);
    else if(g_mode == 3) std::set_new_handler(other_handler);
    else throw std::bad_alloc();
}

struct Cxx : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "at least three forms of new and two of delete were used and a block was deleted while others were live"; }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(20, 250);
        std::vector<u64> pal;
        for(int i = 0; i < 4; i++) pal.push_back(r.chance(1, 6) ? gen_big_size(r) % 500000 + 1 : gen_small_size(r));
        for(int i = 0; i < n; i++) {
            int k = r.weighted({10, 8, 5, 5, 7, 5, 4, 4, 14, 16, 8, 3, 1, 1, 2, 2, 4});
            u64 s = r.chance(1, 2) ? r.pick(pal) : r.chance(1, 8) ? gen_big_size(r) % 500000 + 1 : gen_small_size(r);
            if(r.chance(1, 6)) s = 65500 + r.below(80); // around the limit between zones and large blocks
            if(r.chance(1, 30)) s = 0;
            Op o{k, (i64) s, (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
            if(k >= NEWAL && k <= NEWARRALNT) o.b = (i64) r.below(r.chance(1, 6) ? 18 : 13);
            c.ops.push_back(o);
        }
        return c;
    }
    struct Blk {
        u64 p, req, usable, seed, align;
        bool big, array, aligned;
    };
    std::vector<Blk> live;
    std::map<u64, u64> iv;
    std::set<u64> seen;
    u64 seedc = 1, total = 0;

    static void fill(const Blk &b) {
        World::spans(b.usable, [&](u64 x, u64 y) { World::fill_range((unsigned char *) b.p, x, y, b.seed); });
    }
    static void verify(const Blk &b) {
        World::spans(b.usable, [&](u64 x, u64 y) {
            i64 k = World::check_range((const unsigned char *) b.p, x, y, b.seed);
            CHECK(k < 0, "byte %lld of a block of %llu bytes (alignment %llu) changed", (long long) k, (unsigned long long) b.req, (unsigned long long) b.align);
        });
    }
    void *make(int k, u64 n, u64 a) {
        std::align_val_t al = (std::align_val_t) a;
        switch(k) {
            case NEW: return hk__Znwm(n);
            case NEWARR: return hk__Znam(n);
            case NEWNT: return hk__ZnwmRKSt9nothrow_t(n, std::nothrow);
            case NEWARRNT: return hk__ZnamRKSt9nothrow_t(n, std::nothrow);
            case NEWAL: return hk__ZnwmSt11align_val_t(n, al);
            case NEWARRAL: return hk__ZnamSt11align_val_t(n, al);
            case NEWALNT: return hk__ZnwmSt11align_val_tRKSt9nothrow_t(n, al, std::nothrow);
            default: return hk__ZnamSt11align_val_tRKSt9nothrow_t(n, al, std::nothrow);
        }
    }
    void destroy(const Blk &b, int k, i64 how) {
        void *p = (void *) b.p;
        std::align_val_t al = (std::align_val_t) b.align;
        if(b.aligned) { // only the aligned forms match
            if(how & 1) b.array ? hk__ZdaPvSt11align_val_tRKSt9nothrow_t(p, al, std::nothrow) : hk__ZdlPvSt11align_val_tRKSt9nothrow_t(p, al, std::nothrow);
            else b.array ? hk__ZdaPvSt11align_val_t(p, al) : hk__ZdlPvSt11align_val_t(p, al);
        } else if(k == DELETE_SIZED) {
            b.array ? hk__ZdaPvm(p, b.req) : hk__ZdlPvm(p, b.req);
            if(b.req) cls(b.big ? C_SIZED_BIG : C_SIZED_SMALL);
        } else if(k == DELETE_OTHER)
            b.array ? hk__ZdaPvRKSt9nothrow_t(p, std::nothrow) : hk__ZdlPvRKSt9nothrow_t(p, std::nothrow);
        else
            b.array ? hk__ZdaPv(p) : hk__ZdlPv(p);
    }
    void add(void *vp, u64 req, u64 align, bool array, bool aligned) {
        Blk b{(u64) vp, req, iso_chunksz(vp), ++seedc * 0x9E3779B97F4A7C15ull, align, false, array, aligned};
        CHECK(b.p % 16 == 0, "new of %llu bytes is not aligned for every type", (unsigned long long) req);
        CHECK(b.p % align == 0, "new of %llu bytes does not honour the alignment %llu", (unsigned long long) req, (unsigned long long) align);
        if(req) CHECK(b.usable >= req && b.usable < (1ull << 32), "new of %llu bytes gives %llu", (unsigned long long) req, (unsigned long long) b.usable);
        b.big = b.usable > SMALL_MAX;
        if(b.usable) {
            auto it = iv.lower_bound(b.p);
            if(it != iv.end()) CHECK(it->first >= b.p + b.usable, "the new block overlaps the live block above it");
            if(it != iv.begin()) {
                --it;
                CHECK(it->second <= b.p, "the new block overlaps the live block below it");
            }
            iv[b.p] = b.p + b.usable;
        } else cls(C_ZERO);
        total += b.usable;
        if(b.big) cls(C_BIG);
        if(align > 32) cls(C_ALIGNED);
        if(align > 4096) cls(C_OVERPAGE);
        if(b.usable && !seen.insert(b.p).second) cls(C_REUSE);
        fill(b);
        live.push_back(b);
    }
    void leaks() {
        u64 want = 0;
        for(auto &b : live) want += !b.usable ? 0 : b.big ? b.usable : 1;
        iso_flush_caches();
        u64 got = iso_alloc_detect_leaks();
        CHECK(got == want, "%llu leaks are reported for %llu blocks and bytes held", (unsigned long long) got, (unsigned long long) want);
    }
    void impossible(const Op &o) {
        static const u64 H[] = {~0ull, ~0ull - 15, ~0ull - 31, ~0ull - 4096, 1ull << 63, (1ull << 63) - 1, 1ull << 47, 1ull << 40, (4ull << 30) + 4096, (1ull << 32) + 1, ~0ull - 32, 0xffffffffffff0000ull};
        u64 n = H[(u64) o.b % (sizeof H / sizeof *H)];
        int k = (int) ((u64) o.c % 8);
        u64 a = 1ull << ((u64) (o.c >> 3) % 13);
        g_calls = 0;
        g_mode = (int) ((u64) (o.c >> 8) % 6); // 4: none, 5: the library's own
        g_left = (int) ((u64) (o.c >> 12) % 4);
        std::new_handler before = std::get_new_handler();
        CHECK(before != NULL, "the library set no new handler");
        if(g_mode < 4) std::set_new_handler(handler);
        else if(g_mode == 4) std::set_new_handler(NULL);
        bool nt = k == NEWNT || k == NEWARRNT || k == NEWALNT || k == NEWARRALNT;
        int got = 0;
        void *p = NULL;
        try {
            p = make(k, n, a);
        } catch(const Own &e) {
            got = e.v == 42 ? 2 : 3;
        } catch(const std::bad_alloc &) {
            got = 1;
        } catch(...) {
            got = 3;
        }
        std::set_new_handler(before);
        CHECK(p == NULL, "%s of %llu bytes succeeded", NAMES[k], (unsigned long long) n);
        CHECK(got != 3, "%s of %llu bytes threw something unknown", NAMES[k], (unsigned long long) n);
        if(nt) {
            CHECK(got == 0, "%s of %llu bytes threw an exception", NAMES[k], (unsigned long long) n);
            cls(C_NULL);
        } else {
            CHECK(got != 0, "%s of %llu bytes returned null instead of throwing", NAMES[k], (unsigned long long) n);
            CHECK(got == (g_mode == 1 ? 2 : 1), "%s of %llu bytes threw the wrong exception", NAMES[k], (unsigned long long) n);
            if(g_mode < 4) CHECK(g_calls > 0, "the new handler was not called by %s of %llu bytes", NAMES[k], (unsigned long long) n);
            if(g_mode == 0 || g_mode == 2 || g_mode == 3) {
                int want = (int) ((u64) (o.c >> 12) % 4) + 1;
                CHECK(g_calls == want, "%s of %llu bytes called the new handler %d times, not %d", NAMES[k], (unsigned long long) n, g_calls, want);
            }
            cls(C_BADALLOC);
            if(g_mode < 4) cls(C_HANDLER);
            if(g_mode == 1) cls(C_HANDLER_OTHER);
            if(g_mode == 2 || g_mode == 3) cls(C_HANDLER_HELPED);
        }
    }
    void execute(const Case &c) override {
        unsigned nused = 0, dused = 0;
        bool among = false;
        for(size_t i = 0; i < c.ops.size(); i++) {
            at((int) i);
            const Op &o = c.ops[i];
            u64 n = o.a < 0 ? 0 : (u64) o.a;
            switch(o.k) {
                case NEW: case NEWARR: case NEWNT: case NEWARRNT: case NEWAL: case NEWARRAL: case NEWALNT: case NEWARRALNT: {
                    if(total + n > (48ull << 20)) break;
                    bool aligned = o.k >= NEWAL;
                    u64 a = aligned ? 1ull << ((u64) o.b % 18) : 1;
                    void *p = NULL;
                    if(a > PAGE) { // honoured or refused
                        try {
                            p = make(o.k, n, a);
                        } catch(const std::bad_alloc &) {
                            CHECK(o.k < NEWALNT, "a non-throwing new threw");
                        }
                        if(!p) {
                            cls(C_REFUSED);
                            break;
                        }
                        if(n == 0) a = PAGE;
                    } else {
                        try {
                            p = make(o.k, n, a);
                        } catch(...) { fail("%s of %llu bytes (alignment %llu) threw although memory is available", NAMES[o.k], (unsigned long long) n, (unsigned long long) a); }
                        CHECK(p != NULL, "%s of %llu bytes (alignment %llu) returned null although memory is available", NAMES[o.k], (unsigned long long) n, (unsigned long long) a);
                    }
                    add(p, n, a, o.k == NEWARR || o.k == NEWARRNT || o.k == NEWARRAL || o.k == NEWARRALNT, aligned);
                    nused |= 1u << o.k;
                    break;
                }
                case DELETE: case DELETE_SIZED: case DELETE_OTHER: {
                    if(live.empty()) break;
                    size_t k = (u64) o.b % live.size();
                    Blk b = live[k];
                    live[k] = live.back();
                    live.pop_back();
                    verify(b);
                    if(b.usable) iv.erase(b.p);
                    total -= b.usable;
                    destroy(b, o.k, o.c);
                    dused |= 1u << (b.aligned ? DELETE_OTHER : o.k);
                    if(!live.empty()) among = true;
                    break;
                }
                case IMPOSSIBLE: impossible(o); break;
                case DELNULL:
                    hk__ZdlPv(NULL), hk__ZdaPv(NULL), hk__ZdlPvm(NULL, n), hk__ZdaPvm(NULL, n), hk__ZdlPvRKSt9nothrow_t(NULL, std::nothrow);
                    hk__ZdaPvRKSt9nothrow_t(NULL, std::nothrow), hk__ZdlPvSt11align_val_t(NULL, (std::align_val_t) 64), hk__ZdaPvSt11align_val_t(NULL, (std::align_val_t) 64);
                    hk__ZdlPvSt11align_val_tRKSt9nothrow_t(NULL, (std::align_val_t) 64, std::nothrow), hk__ZdaPvSt11align_val_tRKSt9nothrow_t(NULL, (std::align_val_t) 64, std::nothrow);
                    break;
                case CHECKALL:
                    for(auto &b : live) verify(b);
                    break;
                case LEAKS: leaks(); break;
                case FLUSH: iso_flush_caches(); break;
                case ISO: { // the same heap
                    if(total + n > (48ull << 20) || n == 0) break;
                    if(o.b & 1 && !live.empty()) {
                        size_t k = (u64) o.c % live.size();
                        if(live[k].aligned || !live[k].usable) break;
                        Blk b = live[k];
                        live[k] = live.back();
                        live.pop_back();
                        verify(b);
                        iv.erase(b.p);
                        total -= b.usable;
                        o.b & 2 ? iso_free((void *) b.p) : iso_free_size((void *) b.p, b.req);
                    } else {
                        void *p = iso_alloc(n);
                        CHECK(p != NULL, "iso_alloc failed");
                        add(p, n, 1, o.b & 2, false);
                    }
                    break;
                }
            }
        }
        for(auto &b : live) verify(b);
        iso_verify_zones();
        leaks();
        while(!live.empty()) {
            Blk b = live.back();
            live.pop_back();
            destroy(b, DELETE_SIZED, (i64) b.seed);
        }
        leaks();
        if(__builtin_popcount(nused) >= 3 && __builtin_popcount(dused) >= 2 && among) nontrivial();
    }
};
int main(int argc, char **argv) {
    Cxx h;
    return run_main(h, argc, argv);
}
