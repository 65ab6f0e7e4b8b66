// memfn.cpp - C26: the replacement memory functions equal the standard ones and stop overruns.
// The library's memcpy, memmove and memset are reached as hk_* (its objects are linked with those
// symbols renamed), so that the harness itself keeps libc's.
#define PBT_MAIN 1
#include "world.hpp"
using namespace pbt;
using namespace world;

extern "C" {
void *hk_memcpy(void *, const void *, size_t);
void *hk_memmove(void *, const void *, size_t);
void *hk_memset(void *, int, size_t);
}

enum K { INIT, ALLOC, NEWZONE, ZALLOC, FREE, COPY, MOVE, SET, FLUSH, DESTROY, OVER, NK };
static const char *NAMES[] = {"init", "alloc", "newzone", "zalloc", "free", "copy", "move", "set", "flush", "destroy", "overrun"};
enum C { C_PRE, C_TO_CHUNK, C_FROM_CHUNK, C_TO_BIG, C_WITHIN, C_OVERLAP_FWD, C_OVERLAP_BACK, C_LONG, C_EMPTY, C_WHOLE, C_OVER_DEST, C_OVER_SRC, C_OVER_SET, C_OVER_END, C_POST, NC };
static const char *CNAMES[] = {"before_initialisation", "into_a_chunk", "out_of_a_chunk", "large_block", "within_one_block", "overlap_forwards", "overlap_backwards", "longer_than_32", "empty", "whole_block",
                               "overrun_of_destination", "overrun_of_source", "overrun_by_fill", "overrun_to_the_end_of_the_zone", "after_destroy"};

static unsigned char g_buf[2][1 << 16];
static unsigned char g_large[5 << 20];

struct Memfn : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "at least one memory function ran on more than 32 bytes of a chunk, or an overrun had to be stopped"; }

    static i64 pack(u64 b, i64 d) { return (i64) b | (d < 0 ? 0 : d) << 20; }
    static i64 length(Rng &r) {
        switch(r.weighted({3, 4, 4, 4, 3, 2})) {
            case 0: return r.range(0, 8);
            case 1: return r.range(25, 40);
            case 2: return r.range(0, 300);
            case 3: return (i64) (8ull << r.below(14)) + r.range(-2, 2);
            case 4: return 1 << 30; // as much as fits
            default: return r.range(0, 70000);
        }
    }
    Case generate(Rng &r, u64) override {
        Case c;
        int pre = r.chance(1, 3) ? (int) r.range(1, 6) : 0;
        int n = (int) r.range(15, 120);
        bool end = r.chance(1, 2);
        std::vector<u64> pal;
        for(int i = 0; i < 4; i++) pal.push_back(gen_small_size(r));
        for(int i = 0; i < n; i++) {
            int k = i < pre ? r.weighted({0, 0, 0, 0, 0, 3, 3, 3, 0, 0, 0}) : i == pre ? (int) INIT : r.weighted({0, 14, 2, 8, 5, 22, 22, 20, 1, 0, 0});
            Op o{k, (i64) r.below(1 << 20), pack(r.below(1 << 20), length(r)), (i64) r.below(1u << 31)};
            if(k == ALLOC) o.a = (i64) (r.chance(1, 10) ? gen_big_size(r) % (1 << 20) : r.chance(2, 3) ? r.pick(pal) : gen_small_size(r));
            if(k == NEWZONE) o.a = (i64) (r.chance(1, 2) ? r.pick(pal) : gen_small_size(r));
            c.ops.push_back(o);
        }
        if(end) c.ops.push_back(Op{OVER, (i64) gen_small_size(r), pack(r.below(1 << 20), r.range(0, 5)), (i64) r.below(1u << 31)});
        else if(r.chance(1, 4)) {
            c.ops.push_back(Op{DESTROY, 0, 0, 0});
            for(int i = 0; i < 3; i++) c.ops.push_back(Op{(int) r.range(COPY, SET), (i64) r.below(2), pack(r.below(2), length(r)), (i64) r.below(1u << 31)});
        }
        return c;
    }

    // The blocks the functions are used on, with a copy of their contents.
    struct Block {
        unsigned char *p;
        u64 n;
        bool iso, big;
        void *h;
        std::vector<unsigned char> m;
    };
    std::vector<Block> bl;
    void add(unsigned char *p, u64 n, bool iso, bool big, void *h, Rng &r) {
        Block b{p, n, iso, big, h, {}};
        b.m.resize(n);
        u64 s = r.next();
        for(u64 i = 0; i < n; i++) b.m[i] = (unsigned char) (World::word(s, i >> 3) >> ((i & 7) * 8));
        for(u64 i = 0; i < n; i++) p[i] = b.m[i];
        bl.push_back(b);
    }
    void verify(const Block &b, const char *what) {
        for(u64 i = 0; i < b.n; i++) CHECK(b.p[i] == b.m[i], "byte %llu of a block of %llu bytes is %#x and should be %#x after %s", (unsigned long long) i, (unsigned long long) b.n, b.p[i], b.m[i], what);
    }
    void execute(const Case &c) override {
        Rng r(c.entropy);
        bl.clear();
        bool init = false, destroyed = false;
        u64 total = 0;
        std::vector<std::pair<void *, u64>> zones;
        for(int i = 0; i < 2; i++) add(g_buf[i], sizeof g_buf[i], false, false, NULL, r);
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            const u64 ob_ = (u64) o.b & 0xfffff, od_ = (u64) o.b >> 20;
            if(!init && (o.k == ALLOC || o.k == NEWZONE || o.k == ZALLOC || o.k == FREE || o.k == FLUSH || o.k == OVER || o.k == DESTROY)) iso_alloc_initialize(), init = true;
            if(destroyed && o.k != COPY && o.k != MOVE && o.k != SET) continue;
            switch(o.k) {
                case INIT: iso_alloc_initialize(), init = true; break;
                case ALLOC: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a;
                    if(total + n > (6u << 20)) break;
                    unsigned char *p = (unsigned char *) iso_alloc(n);
                    CHECK(p != NULL, "allocation failed");
                    total += n;
                    add(p, n > SMALL_MAX ? n : iso_chunksz(p), true, n > SMALL_MAX, NULL, r);
                    break;
                }
                case NEWZONE: {
                    u64 n = o.a < 1 ? 1 : (u64) o.a > SMALL_MAX ? SMALL_MAX : (u64) o.a;
                    if(zones.size() > 5) break;
                    void *h = iso_alloc_new_zone(n);
                    CHECK(h != NULL, "creating a zone failed");
                    zones.push_back({h, n});
                    break;
                }
                case ZALLOC: {
                    if(zones.empty() || total > (6u << 20)) break;
                    auto &z = zones[(u64) o.a % zones.size()];
                    unsigned char *p = (unsigned char *) iso_alloc_from_zone(z.first);
                    if(p == NULL) break;
                    add(p, iso_chunksz(p), true, false, z.first, r);
                    total += bl.back().n;
                    break;
                }
                case FREE: {
                    if(bl.size() <= 2) break;
                    u64 k = 2 + (u64) o.a % (bl.size() - 2);
                    verify(bl[k], "all that was done");
                    if(bl[k].h) iso_free_from_zone(bl[k].p, bl[k].h);
                    else iso_free(bl[k].p);
                    total -= bl[k].n;
                    bl[k] = bl.back();
                    bl.pop_back();
                    break;
                }
                case FLUSH: iso_flush_caches(); break;
                case DESTROY:
                    for(size_t k = 2; k < bl.size(); k++) verify(bl[k], "all that was done");
                    iso_alloc_destroy();
                    bl.resize(2);
                    destroyed = true;
                    cls(C_POST);
                    break;
                case COPY:
                case MOVE: {
                    u64 nb = destroyed ? 2 : bl.size();
                    u64 d = (u64) o.a % nb, s = ob_ % nb;
                    if(o.k == COPY && d == s) s = (s + 1) % nb;
                    Block &D = bl[d], &S = bl[s];
                    u64 n = od_;
                    if(n > D.n) n = D.n;
                    if(n > S.n) n = S.n;
                    u64 od = 0, os = 0;
                    u64 rd = D.n - n, rs = S.n - n;
                    u64 t = (u64) o.c;
                    od = rd ? ((t & 7) == 0 ? 0 : (t & 7) == 1 ? rd : (t >> 3) % (rd + 1)) : 0;
                    os = rs ? ((t >> 8 & 7) == 0 ? 0 : (t >> 8 & 7) == 1 ? rs : (t >> 11) % (rs + 1)) : 0;
                    if(d == s && (t & 64)) os = od + ((t >> 9) % 65 < 32 ? od + n < D.n ? (t >> 9) % (D.n - od - n + 1) % 64 : 0 : 0);
                    if(init && !destroyed && (D.iso || S.iso) && n > 32) nontrivial();
                    if(!init) cls(C_PRE);
                    if(D.iso) cls(D.big ? C_TO_BIG : C_TO_CHUNK);
                    if(S.iso) cls(S.big ? C_TO_BIG : C_FROM_CHUNK);
                    if(n > 32) cls(C_LONG);
                    if(n == 0) cls(C_EMPTY);
                    if(n && n == D.n) cls(C_WHOLE);
                    if(d == s) {
                        cls(C_WITHIN);
                        if(od < os && os < od + n) cls(C_OVERLAP_FWD);
                        if(os < od && od < os + n) cls(C_OVERLAP_BACK);
                    }
                    std::vector<unsigned char> tmp(S.m.begin() + os, S.m.begin() + os + n);
                    for(u64 k = 0; k < n; k++) D.m[od + k] = tmp[k];
                    void *ret = o.k == COPY ? hk_memcpy(D.p + od, S.p + os, n) : hk_memmove(D.p + od, S.p + os, n);
                    CHECK(ret == D.p + od, "the function returned %p for destination %p", ret, D.p + od);
                    verify(D, o.k == COPY ? "a copy" : "a move");
                    if(S.n <= 8192) verify(S, "being read");
                    break;
                }
                case SET: {
                    u64 nb = destroyed ? 2 : bl.size();
                    Block &D = bl[(u64) o.a % nb];
                    u64 n = od_ > D.n ? D.n : od_, rd = D.n - n, t = (u64) o.c;
                    u64 od = rd ? ((t & 7) == 0 ? 0 : (t & 7) == 1 ? rd : (t >> 3) % (rd + 1)) : 0;
                    int v = (int) ob_ - 1000; // any int: the low byte counts
                    if(init && !destroyed && D.iso && n > 32) nontrivial();
                    if(!init) cls(C_PRE);
                    if(D.iso) cls(D.big ? C_TO_BIG : C_TO_CHUNK);
                    if(n > 32) cls(C_LONG);
                    if(n == 0) cls(C_EMPTY);
                    if(n && n == D.n) cls(C_WHOLE);
                    for(u64 k = 0; k < n; k++) D.m[od + k] = (unsigned char) v;
                    void *ret = hk_memset(D.p + od, v, n);
                    CHECK(ret == D.p + od, "the function returned %p for destination %p", ret, D.p + od);
                    verify(D, "a fill");
                    break;
                }
                case OVER: {
                    // The zone created last is the one the fast lookup knows in its part of the address space.
                    u64 sz = o.a < 1 ? 1 : (u64) o.a;
                    if(sz > SMALL_MAX) sz = SMALL_MAX;
                    void *h = iso_alloc_new_zone(sz);
                    CHECK(h != NULL, "creating a zone failed");
                    u64 cnt = iso_zone_chunk_count(h), want = ob_ % (cnt < 300 ? cnt : 300) + 1;
                    std::vector<unsigned char *> v;
                    for(u64 k = 0; k < want; k++) {
                        unsigned char *p = (unsigned char *) iso_alloc_from_zone(h);
                        if(p == NULL) break;
                        v.push_back(p);
                    }
                    if(v.empty()) break;
                    unsigned char *p = v[(u64) o.c % v.size()];
                    u64 chunk = iso_chunksz(p), lo = 0, hi = 0;
                    for(const Mapping &m : maps())
                        if((u64) p >= m.lo && (u64) p < m.hi) lo = m.lo, hi = m.hi;
                    CHECK(hi > (u64) p, "an allocation is not mapped");
                    if((lo >> 32) != ((u64) p >> 32)) break; // the zone crosses into a part the lookup does not know
                    u64 end = hi - (u64) p;                  // bytes up to the end of the zone
                    if(o.c & 0x10000) p += (u64) (o.c >> 17) % chunk, end = hi - (u64) p;
                    u64 n;
                    switch(od_) {
                        case 0: n = chunk + 1; break;
                        case 1: n = chunk + 1 + (u64) (o.c >> 8) % chunk; break;
                        case 2: n = 2 * chunk; break;
                        case 3: n = end; break;
                        case 4: n = end + 1 + (u64) (o.c >> 8) % 4096; break;
                        default: n = chunk + 1 + (u64) (o.c >> 4) % end;
                    }
                    if(n <= chunk || n > sizeof g_large) n = chunk + 1;
                    if(n >= end) cls(C_OVER_END);
                    nontrivial();
                    expect_signal(SIGABRT);
                    expect_signal(SIGSEGV);
                    switch((o.c >> 3) % 5) {
                        case 0:
                            cls(C_OVER_SRC);
                            hk_memcpy(g_large, p, n);
                            break;
                        case 1:
                            cls(C_OVER_DEST);
                            hk_memcpy(p, g_large, n);
                            break;
                        case 2:
                            cls(C_OVER_SRC);
                            hk_memmove(g_large, p, n);
                            break;
                        case 3:
                            cls(C_OVER_DEST);
                            hk_memmove(p, g_large, n);
                            break;
                        default:
                            cls(C_OVER_SET);
                            hk_memset(p, 0x41, n);
                    }
                    expect_none();
                    fail("an operation on %llu bytes in a chunk of %llu (%llu bytes before the end of its zone) completed", (unsigned long long) n, (unsigned long long) chunk, (unsigned long long) end);
                }
            }
        }
        at((int) c.ops.size());
        for(auto &b : bl) verify(b, "all that was done");
    }
};
int main(int argc, char **argv) {
    Memfn h;
    return run_main(h, argc, argv);
}
