// malloc.cpp - C27: the standard allocation functions, as the library defines them.
// The library is built with its malloc hooks and those symbols are renamed to hk_*, so that the
// harness itself keeps libc's.
#define PBT_MAIN 1
#include "world.hpp"
#include <errno.h>
using namespace pbt;
using namespace world;

extern "C" {
void *hk_malloc(size_t);
void *hk___libc_malloc(size_t);
void hk_free(void *);
void hk___libc_free(void *);
void *hk_calloc(size_t, size_t);
void *hk___libc_calloc(size_t, size_t);
void *hk_realloc(void *, size_t);
void *hk___libc_realloc(void *, size_t);
void *hk_reallocarray(void *, size_t, size_t);
void *hk___libc_reallocarray(void *, size_t, size_t);
int hk_posix_memalign(void **, size_t, size_t);
int hk___posix_memalign(void **, size_t, size_t);
void *hk_aligned_alloc(size_t, size_t);
void *hk_memalign(size_t, size_t);
void *hk___libc_memalign(size_t, size_t);
size_t hk_malloc_usable_size(void *);
extern void *(*hk___malloc_hook)(size_t, const void *);
extern void *(*hk___realloc_hook)(void *, size_t, const void *);
extern void (*hk___free_hook)(void *, const void *);
extern void *(*hk___memalign_hook)(size_t, size_t, const void *);
}

enum K { MALLOC, CALLOC, REALLOC, REALLOCARRAY, FREE, POSIX, ALIGNED, MEMALIGN, USABLE, BADALIGN, HUGE, ZERO, FLUSH, LEAKS, BURST, ISO, NK };
static const char *NAMES[] = {"malloc", "calloc", "realloc", "reallocarray", "free", "posix_memalign", "aligned_alloc", "memalign", "usable_size", "bad_alignment", "huge", "zero", "flush", "leaks", "burst", "iso"};
enum C { C_ALIGNED, C_BIGALIGN, C_OVERPAGE, C_REFUSED, C_ALIGNED_BIG, C_RESIZED_ALIGNED, C_BADALIGN, C_HUGE, C_ZERO, C_BIG, C_CROSS, C_REUSE, NC };
static const char *CNAMES[] = {"alignment_over_32", "alignment_over_1024", "alignment_over_a_page", "alignment_refused", "aligned_large_block", "aligned_block_resized", "bad_alignment", "huge_request", "zero_request", "large_block", "iso_calls", "address_reused"};

struct Malloc : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "at least three different allocating calls of the family succeeded and a block of one was resized or freed while others were live"; }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(20, 260);
        std::vector<u64> pal;
        for(int i = 0; i < 4; i++) pal.push_back(r.chance(1, 6) ? gen_big_size(r) % 500000 + 1 : gen_small_size(r));
        for(int i = 0; i < n; i++) {
            int k = r.weighted({20, 8, 14, 5, 26, 10, 6, 5, 5, 3, 2, 4, 2, 2, 1, 5});
            u64 s = r.chance(1, 2) ? r.pick(pal) : r.chance(1, 8) ? gen_big_size(r) % 500000 + 1 : gen_small_size(r);
            Op o{k, (i64) s, (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
            if(k == POSIX || k == ALIGNED || k == MEMALIGN) {
                o.b = (i64) r.below(r.chance(1, 6) ? 18 : 13); // log2 of the alignment
                if(r.chance(1, 3)) o.a = (i64) r.range(1, 9000);
                if(r.chance(1, 12)) o.a = 0;
            }
            if(k == BURST) o.b = (i64) r.range(10, 600);
            c.ops.push_back(o);
        }
        return c;
    }
    struct Blk {
        u64 p, req, usable, seed, align;
        bool big;
    };
    std::vector<Blk> live;
    std::map<u64, u64> iv;
    std::set<u64> seen;
    u64 seedc = 1, total = 0;
    int kinds = 0;

    static void fill(const Blk &b) {
        World::spans(b.usable, [&](u64 x, u64 y) { World::fill_range((unsigned char *) b.p, x, y, b.seed); });
    }
    static void verify(const Blk &b, u64 p, u64 n, const char *what) {
        World::spans(b.usable, [&](u64 x, u64 y) {
            if(x >= n) return;
            if(y > n) y = n;
            i64 k = World::check_range((const unsigned char *) p, x, y, b.seed);
            CHECK(k < 0, "byte %lld of a block of %llu bytes (alignment %llu) changed (%s)", (long long) k, (unsigned long long) b.req, (unsigned long long) b.align, what);
        });
    }
    void add(void *vp, u64 req, u64 align, const char *what) {
        CHECK(vp != NULL, "%s of %llu bytes returned NULL although memory is available", what, (unsigned long long) req);
        Blk b{(u64) vp, req, 0, ++seedc * 0x9E3779B97F4A7C15ull, align, false};
        u64 natural = 16;
        CHECK(b.p % natural == 0, "%s of %llu bytes is not aligned for every type", what, (unsigned long long) req);
        CHECK(b.p % align == 0, "%s of %llu bytes does not honour the alignment %llu", what, (unsigned long long) req, (unsigned long long) align);
        b.usable = hk_malloc_usable_size(vp);
        CHECK(b.usable >= req && b.usable < (1ull << 32), "%s: usable size %llu of a block of %llu bytes", what, (unsigned long long) b.usable, (unsigned long long) req);
        b.big = b.usable > SMALL_MAX;
        if(b.usable) {
            auto it = iv.lower_bound(b.p);
            if(it != iv.end()) CHECK(it->first >= b.p + b.usable, "%s: the new block overlaps the live block above it", what);
            if(it != iv.begin()) {
                --it;
                CHECK(it->second <= b.p, "%s: the new block overlaps the live block below it", what);
            }
            iv[b.p] = b.p + b.usable;
        }
        total += b.usable;
        if(b.big) cls(C_BIG);
        if(align > 32) cls(C_ALIGNED);
        if(align > 1024) cls(C_BIGALIGN);
        if(align > 4096) cls(C_OVERPAGE);
        if(align > 32 && b.big) cls(C_ALIGNED_BIG);
        if(b.usable && !seen.insert(b.p).second) cls(C_REUSE);
        fill(b);
        live.push_back(b);
    }
    Blk take(i64 a) {
        size_t k = (u64) a % live.size();
        Blk b = live[k];
        live[k] = live.back();
        live.pop_back();
        return b;
    }
    void gone(const Blk &b) {
        if(b.usable) iv.erase(b.p);
        total -= b.usable;
    }
    static void release(void *p, i64 how) {
        switch(how % 3) {
            case 0: hk_free(p); break;
            case 1: hk___libc_free(p); break;
            default: hk___free_hook(p, NULL);
        }
    }
    static void *resize(void *p, u64 n, i64 how) {
        switch(how % 4) {
            case 0: return hk_realloc(p, n);
            case 1: return hk___libc_realloc(p, n);
            case 2: return hk___realloc_hook(p, n, NULL);
            default: return hk_reallocarray(p, 1, n);
        }
    }
    static void *aligned(u64 a, u64 n, i64 how) {
        switch(how % 4) {
            case 0: return hk_aligned_alloc(a, n);
            case 1: return hk_memalign(a, n);
            case 2: return hk___libc_memalign(a, n);
            default: return hk___memalign_hook(a, n, NULL);
        }
    }
    u64 expected_leaks() {
        u64 w = 0;
        for(auto &b : live) w += !b.usable ? 0 : b.big ? b.usable : 1;
        return w;
    }
    void leaks() {
        iso_flush_caches();
        u64 got = iso_alloc_detect_leaks(), want = expected_leaks();
        CHECK(got == want, "%llu leaks are reported for %llu blocks and bytes held", (unsigned long long) got, (unsigned long long) want);
    }
    void execute(const Case &c) override {
        int calls = 0, moved = 0;
        bool used[NK] = {};
        for(size_t i = 0; i < c.ops.size(); i++) {
            at((int) i);
            const Op &o = c.ops[i];
            u64 n = o.a < 0 ? 0 : (u64) o.a;
            bool room = total + n < (48ull << 20);
            switch(o.k) {
                case MALLOC:
                    if(!room) break;
                    if(n == 0) n = 1;
                    add(o.b % 3 == 0 ? hk___libc_malloc(n) : o.b % 3 == 1 ? hk___malloc_hook(n, NULL) : hk_malloc(n), n, 1, "malloc");
                    used[o.k] = true;
                    break;
                case CALLOC: {
                    if(!room || n == 0) break;
                    u64 m = 1 + (u64) o.b % (n > 60 ? 60 : n), s = n / m;
                    if(s == 0) s = 1;
                    unsigned char *p = (unsigned char *) (o.c & 1 ? hk___libc_calloc(m, s) : hk_calloc(m, s));
                    CHECK(p != NULL, "calloc of %llu times %llu returned NULL", (unsigned long long) m, (unsigned long long) s);
                    for(u64 k = 0; k < m * s; k++) CHECK(p[k] == 0, "byte %llu of calloc memory is not zero", (unsigned long long) k);
                    add(p, m * s, 1, "calloc");
                    used[o.k] = true;
                    break;
                }
                case REALLOC: {
                    if(!room) break;
                    if(live.empty() || o.c % 16 == 0) { // as malloc
                        if(n == 0) n = 1;
                        add(resize(NULL, n, o.b), n, 1, "realloc of NULL");
                        break;
                    }
                    Blk b = take(o.b);
                    verify(b, b.p, b.usable, "before realloc");
                    gone(b);
                    if(n == 0) {
                        CHECK(resize((void *) b.p, 0, o.c) == NULL, "realloc to zero returned a pointer");
                        break;
                    }
                    void *p = resize((void *) b.p, n, o.c);
                    CHECK(p != NULL, "realloc failed although memory is available");
                    verify(b, (u64) p, b.usable < n ? b.usable : n, "after realloc");
                    if(b.align > 1) cls(C_RESIZED_ALIGNED);
                    moved++;
                    add(p, n, 1, "realloc");
                    used[o.k] = true;
                    break;
                }
                case REALLOCARRAY: {
                    if(!room || n == 0) break;
                    u64 m = 1 + (u64) o.b % 50, s = n / m + 1;
                    if(live.empty()) break;
                    Blk b = take(o.c);
                    verify(b, b.p, b.usable, "before reallocarray");
                    gone(b);
                    void *p = o.b & 1 ? hk___libc_reallocarray((void *) b.p, m, s) : hk_reallocarray((void *) b.p, m, s);
                    CHECK(p != NULL, "reallocarray failed although memory is available");
                    verify(b, (u64) p, b.usable < m * s ? b.usable : m * s, "after reallocarray");
                    moved++;
                    add(p, m * s, 1, "reallocarray");
                    used[o.k] = true;
                    break;
                }
                case FREE: {
                    if(live.empty() || o.a % 40 == 0) {
                        release(NULL, o.b);
                        break;
                    }
                    Blk b = take(o.b);
                    verify(b, b.p, b.usable, "before free");
                    gone(b);
                    if(live.size()) moved++;
                    if(o.c % 16 == 0) iso_free_size((void *) b.p, b.usable), cls(C_CROSS);
                    else release((void *) b.p, o.c);
                    break;
                }
                case POSIX: {
                    if(!room) break;
                    u64 al = 1ull << (o.b % 18);
                    if(al < sizeof(void *)) al = sizeof(void *);
                    void *p = (void *) 0x1234;
                    int rc = o.c & 1 ? hk___posix_memalign(&p, al, n) : hk_posix_memalign(&p, al, n);
                    if(al > 4096 && rc != 0) {
                        CHECK(rc == ENOMEM, "posix_memalign returned %d", rc);
                        cls(C_REFUSED);
                        break;
                    }
                    CHECK(rc == 0, "posix_memalign(%llu, %llu) returned %d", (unsigned long long) al, (unsigned long long) n, rc);
                    add(p, n, al, "posix_memalign");
                    used[o.k] = true;
                    break;
                }
                case ALIGNED:
                case MEMALIGN: {
                    if(!room) break;
                    u64 al = 1ull << (o.b % 18);
                    void *p = aligned(al, n, o.c);
                    if(p == NULL && al > 4096) {
                        cls(C_REFUSED);
                        break;
                    }
                    if(n == 0) { // a block without bytes, or one like any other
                        CHECK(p != NULL, "an aligned request of zero bytes returned NULL");
                        release(p, o.b);
                        break;
                    }
                    add(p, n, al, "aligned allocation");
                    used[o.k] = true;
                    break;
                }
                case USABLE:
                    CHECK(hk_malloc_usable_size(NULL) == 0, "usable size of NULL is not 0");
                    if(!live.empty()) {
                        const Blk &b = live[(u64) o.b % live.size()];
                        u64 s = hk_malloc_usable_size((void *) b.p);
                        CHECK(s == b.usable, "the usable size changed from %llu to %llu", (unsigned long long) b.usable, (unsigned long long) s);
                        verify(b, b.p, b.usable, "while it was live");
                    }
                    break;
                case BADALIGN: {
                    u64 al = o.b % 5 == 0 ? 0 : o.b % 5 == 1 ? 3 : o.b % 5 == 2 ? (u64) o.c | 1 | 4 : o.b % 5 == 3 ? 24 : 4096 + 8;
                    if((al & (al - 1)) == 0 && al) al = 12;
                    u64 before = iso_alloc_detect_leaks();
                    void *p = NULL;
                    if(o.c & 1) {
                        if(o.c & 2) al = 1u << (o.a % 3); // a power of two smaller than a pointer
                        int rc = hk_posix_memalign(&p, al, n);
                        CHECK(rc == EINVAL, "posix_memalign with the alignment %llu returned %d", (unsigned long long) al, rc);
                    } else {
                        errno = 0;
                        p = aligned(al, n, o.a);
                        CHECK(p == NULL && errno == EINVAL, "an aligned allocation with the alignment %llu returned %p (errno %d)", (unsigned long long) al, p, errno);
                    }
                    CHECK(iso_alloc_detect_leaks() == before, "an invalid alignment was refused but left something allocated");
                    cls(C_BADALIGN);
                    break;
                }
                case HUGE: {
                    u64 h = o.b % 3 == 0 ? ~0ull - (u64) o.c % 5000 : o.b % 3 == 1 ? 1ull << (33 + o.c % 30) : (1ull << 63) + (u64) o.c;
                    void *p = NULL;
                    u64 before = iso_alloc_detect_leaks();
                    switch(o.a % 7) {
                        case 0: p = hk_malloc(h); break;
                        case 1: p = hk_calloc(1, h); break;
                        case 2: p = hk_calloc(h, 8); break;
                        case 3:
                            CHECK(hk_posix_memalign(&p, 64, h) == ENOMEM, "a huge posix_memalign did not return ENOMEM");
                            p = NULL;
                            break;
                        case 4: p = aligned(1ull << (o.c % 13), h, o.c); break;
                        case 5: p = hk_reallocarray(NULL, h, 16); break;
                        default:
                            if(!live.empty()) {
                                const Blk &b = live[(u64) o.c % live.size()];
                                p = hk_realloc((void *) b.p, h);
                                CHECK(p == NULL, "realloc to %llu bytes succeeded", (unsigned long long) h);
                                verify(b, b.p, b.usable, "after a failed realloc");
                            }
                    }
                    CHECK(p == NULL, "a request of %llu bytes succeeded", (unsigned long long) h);
                    CHECK(iso_alloc_detect_leaks() == before, "a refused request left something allocated");
                    cls(C_HUGE);
                    break;
                }
                case ZERO: {
                    void *p = o.b % 4 == 0 ? hk_malloc(0) : o.b % 4 == 1 ? hk_calloc(0, n) : o.b % 4 == 2 ? hk_calloc(n, 0) : hk_realloc(NULL, 0);
                    CHECK(p != NULL, "a zero-size request (kind %d) returned NULL", (int) (o.b % 4));
                    {
                        u64 us = hk_malloc_usable_size(p);
                        if(us) memset(p, 0x5a, us);
                        for(auto &b : live) CHECK((u64) p + (us ? us : 1) <= b.p || (u64) p >= b.p + b.usable, "a zero-size request returned live memory");
                        if(o.c & 1) {
                            p = hk_realloc(p, 0);
                            CHECK(p == NULL, "realloc to zero returned a pointer");
                        } else
                            release(p, o.c >> 1);
                    }
                    cls(C_ZERO);
                    break;
                }
                case FLUSH: iso_flush_caches(); break;
                case LEAKS: leaks(); break;
                case BURST: {
                    static void *v[1000];
                    u64 s = n % 9000 + 1;
                    for(i64 k = 0; k < o.b && k < 1000; k++) {
                        v[k] = k % 7 == 0 ? aligned(1ull << (o.c % 11), s, k) : hk_malloc(s);
                        CHECK(v[k] != NULL, "an allocation in a series failed");
                        memset(v[k], (int) k, s);
                    }
                    for(i64 k = 0; k < o.b && k < 1000; k++) {
                        for(u64 q = 0; q < s; q += 17) CHECK(((unsigned char *) v[k])[q] == (unsigned char) k, "a block of a series changed");
                        release(v[k], k);
                    }
                    break;
                }
                case ISO: // the two interfaces share their memory
                    cls(C_CROSS);
                    if(!room || n == 0) break;
                    if(o.b & 1) add(iso_alloc(n), n, 1, "iso_alloc");
                    else if(!live.empty()) {
                        Blk b = take(o.c);
                        verify(b, b.p, b.usable, "before iso_realloc");
                        gone(b);
                        void *p = iso_realloc((void *) b.p, n);
                        CHECK(p != NULL, "iso_realloc failed");
                        verify(b, (u64) p, b.usable < n ? b.usable : n, "after iso_realloc");
                        add(p, n, 1, "iso_realloc");
                    }
                    break;
            }
        }
        at(-2);
        for(auto &b : live) verify(b, b.p, b.usable, "at the end");
        leaks();
        for(size_t k = 0; k < live.size(); k++) release((void *) live[k].p, (i64) k);
        live.clear();
        iso_verify_zones();
        leaks();
        for(int k = 0; k < NK; k++) calls += used[k];
        if(calls >= 3 && moved) nontrivial();
    }
};
int main(int argc, char **argv) {
    Malloc h;
    return run_main(h, argc, argv);
}
