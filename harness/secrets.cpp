// secrets.cpp - C44: what protects the allocator's data depends on fresh entropy, and its records hold no
// plain pointers to what they describe.
// The same history runs in several processes that differ in nothing but what getrandom() returned: every
// mapping the library asks for lies at the same address in all of them. No unpredictable looking word of
// the library's memory, no zone handle and no secret recovered from a freed chunk may occur in two of them.
#define PBT_MAIN 1
#include "api.hpp"
#include "pbt.hpp"
#include <dlfcn.h>
#include <set>
#include <sys/mman.h>
using namespace pbt;

static const int PROCS = 3;
static const u64 SIM_BASE = 0x100000000000ull, SIM_END = 0x500000000000ull;
struct Region {
    u64 lo, hi;
};
struct Sim {
    u64 count = 0;
    std::map<u64, Region> m;
    std::vector<Region> fresh; // made since it was last emptied
    std::vector<u64> hints;
    const Region *at(u64 p) const {
        auto it = m.upper_bound(p);
        if(it == m.begin()) return NULL;
        --it;
        return it->second.hi > p ? &it->second : NULL;
    }
};
static Sim *g_sim;
extern "C" {
void *hk_mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) {
    if((flags & MAP_HUGETLB) || !g_sim) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    u64 hi = ((u64) n + 4095) & ~4095ull;
    if(flags & MAP_FIXED) return mmap(p, n, prot, flags, fd, off);
    g_sim->hints.push_back((u64) p);
    void *r = MAP_FAILED;
    for(int t = 0; t < 50 && r == MAP_FAILED; t++)
        r = mmap((void *) (SIM_BASE + ((mix(++g_sim->count) % (SIM_END - SIM_BASE)) & ~4095ull)), n, prot, flags | MAP_FIXED_NOREPLACE, fd, off);
    if(r == MAP_FAILED) return r;
    g_sim->m[(u64) r] = Region{(u64) r, (u64) r + hi};
    g_sim->fresh.push_back(Region{(u64) r, (u64) r + hi});
    return r;
}
int hk_munmap(void *p, size_t n) {
    int r = munmap(p, n);
    if(r == 0) {
        u64 lo = (u64) p, hi = lo + (((u64) n + 4095) & ~4095ull);
        const Region *o = g_sim->at(lo);
        if(o) {
            Region was = *o;
            g_sim->m.erase(was.lo);
            if(was.lo < lo) g_sim->m[was.lo] = Region{was.lo, lo};
            if(was.hi > hi) g_sim->m[hi] = Region{hi, was.hi};
        }
    }
    return r;
}
}

// looks like the output of a generator: hardly any byte is zero or repeated
static bool random_looking(u64 v) {
    int zero = 0;
    u64 seen[4] = {0, 0, 0, 0};
    int distinct = 0;
    for(int i = 0; i < 8; i++) {
        unsigned b = (v >> (8 * i)) & 255;
        zero += b == 0;
        if(!(seen[b >> 6] >> (b & 63) & 1)) distinct++;
        seen[b >> 6] |= 1ull << (b & 63);
    }
    return distinct >= 7 && zero <= 1;
}

enum KIND { WORD, HANDLE, CHUNK, BLOCK, NKIND };
static const char *KNAME[] = {"a word of the allocator's memory", "the handle of a private zone", "the secret behind a freed chunk's canary", "the secret of a large block's bookkeeping"};
struct Out {
    char msg[300];
    int done, ncls;
    int classes[64];
    u64 n[NKIND];
    u64 nhints, hint_and, hint_or, offsets, noffsets;
    u64 v[NKIND][1 << 16];
};

enum K { ALLOC, BIG, NEWZONE, ZALLOC, FREE, FLUSH, DESTROYZONE, CALLOC, BULK, VERIFY, SCAN, PROTECT, NK };
static const char *NAMES[] = {"alloc", "big", "newzone", "zalloc", "free", "flush", "destroyzone", "calloc", "bulk", "verify", "scan", "protect"};
enum C { C_ZONES, C_HANDLES, C_CHUNKS, C_BLOCKS, C_BIGFREED, C_DESTROYED, C_OFFSETS, C_PROTECTED, C_REMASKED, NC };
static const char *CNAMES[] = {"zone_records_searched", "handles_compared", "chunk_secrets_compared", "bookkeeping_compared", "large_block_on_the_free_list", "zone_destroyed", "over_6_bookkeeping_offsets", "root_protected_meanwhile", "searched_after_frees"};

struct Secrets : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "at least one private zone or large block was made and all the library's memory was compared between the processes"; }
    int timeout_s() const override { return 120; }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(2, r.chance(1, 3) ? 12 : 50);
        int zones = 0, scans = 0;
        for(int i = 0; i < n; i++) {
            int k = r.weighted({8, 6, 5, 6, 9, 2, 3, 2, 1, 1, 2, 1});
            if(k == NEWZONE && ++zones > 8) k = ZALLOC;
            if(k == SCAN && ++scans > 3) k = ALLOC;
            i64 a = (i64) r.below(1u << 20);
            if(k == ALLOC || k == NEWZONE || k == CALLOC || k == BULK) a = r.chance(1, 2) ? (i64) r.below(600) : (i64) r.below(65536);
            if(k == BIG) a = 65537 + (i64) r.below(400000);
            c.ops.push_back(Op{k, a, (i64) r.below(1000), 0});
        }
        return c;
    }

    // -- what one process does ------------------------------------------------------------------------
    struct Blk {
        u64 p, n;
        bool big;
        int zone;
        Region pages, record; // of a large block
    };
    struct Zn {
        void *h;
        u64 size;
        bool alive;
        std::vector<Region> own;
    };
    Out *out;
    std::vector<Blk> live;
    std::vector<Zn> zones;
    std::vector<u64> freed;        // small chunks
    std::vector<Region> bigfree;   // bookkeeping of the large blocks on the free list
    bool any_freed = false;
    [[noreturn]] void bad(const char *fmt, u64 a = 0, u64 b = 0) {
        snprintf(out->msg, sizeof(out->msg), fmt, (unsigned long long) a, (unsigned long long) b);
        _exit(0);
    }
    void note(int c) {
        if(out->ncls < 64) out->classes[out->ncls++] = c;
    }
    void put(int k, u64 v) {
        if(out->n[k] < (1 << 16)) out->v[k][out->n[k]++] = v;
    }
    template <class F> void each_page(F f) {
        static unsigned char buf[4096];
        static unsigned char in[1 << 16];
        for(auto &x : g_sim->m) {
            const Region &r = x.second;
            u64 pages = (r.hi - r.lo) / 4096;
            for(u64 i = 0; i < pages; i += sizeof(in)) {
                u64 k = std::min<u64>(sizeof(in), pages - i);
                if(mincore((void *) (r.lo + i * 4096), k * 4096, in)) continue;
                for(u64 j = 0; j < k; j++)
                    if((in[j] & 1) && peek((void *) (r.lo + (i + j) * 4096), buf, 4096)) f(r, r.lo + (i + j) * 4096, buf);
            }
        }
    }
    void search(bool last) {
        // no record may point into a mapping of a live private zone or of a general zone that has live
        // chunks, nor at the bookkeeping of a large block
        std::map<u64, std::pair<u64, int>> targets; // lo -> hi, kind
        std::set<u64> gone(freed.begin(), freed.end());
        for(const Blk &b : live) {
            if(b.big) {
                if(b.record.lo) targets[b.record.lo] = {b.record.hi, 1};
            } else if(const Region *r = g_sim->at(b.p))
                targets[r->lo] = {r->hi, 0};
        }
        for(const Region &r : bigfree) targets[r.lo] = {r.hi, 1};
        for(const Zn &z : zones)
            if(z.alive)
                for(const Region &r : z.own)
                    if(g_sim->at(r.lo)) targets[r.lo] = {r.hi, 2};
        std::set<u64> user; // mappings of large blocks' own pages
        for(const Blk &b : live)
            if(b.big) user.insert(b.pages.lo);
        std::map<u64, const Blk *> rec;
        for(const Blk &b : live)
            if(b.big && b.record.lo) rec[b.record.lo] = &b;
        std::map<u64, std::map<u64, int>> secrets; // of a zone: how often each was found
        each_page([&](const Region &r, u64 at, const unsigned char *buf) {
            if(user.count(r.lo)) return;
            bool is_record = rec.count(r.lo);
            for(const Region &q : bigfree) is_record = is_record || q.lo == r.lo;
            int step = is_record ? 1 : 8;
            u64 off = ~0ull, w0 = 0;
            for(int i = 0; i + 8 <= 4096; i += step) {
                u64 v;
                memcpy(&v, buf + i, 8);
                if(!v) continue;
#if MASK_PTRS
                if(v >= SIM_BASE && v < SIM_END) {
                    auto it = targets.upper_bound(v);
                    if(it != targets.begin()) {
                        --it;
                        if(v < it->second.first && !gone.count(v) && !(is_record && at <= v && v < at + 4096))
                            bad(it->second.second == 0 ? "the allocator's memory holds a plain pointer into a zone with live chunks (offset %llu)"
                                : it->second.second == 1 ? "the allocator's memory holds a plain pointer to the bookkeeping of a large block (offset %llu)"
                                                         : "the allocator's memory holds a plain pointer into memory of a live private zone (offset %llu)",
                                v - it->first);
                    }
                }
#endif
                (void) w0;
#if !DISABLE_CANARY
                // canary chunks start with the zone's secret, combined with their own address
                if(last && !is_record && r.hi - r.lo >= 1u << 22 && random_looking(v)) {
                    u64 k = (v ^ (at + (u64) i)) >> 8;
                    if(k >> 40) secrets[r.lo][k]++;
                }
#endif
                if(last && random_looking(v)) put(WORD, v);
                if(last && rec.count(r.lo)) {
                    if(v == rec[r.lo]->p && off == ~0ull) off = (at - r.lo) + (u64) i;
                    u64 s = v ^ __builtin_bswap64(rec[r.lo]->p);
                    if(v != rec[r.lo]->p && (v >> 48) && random_looking(v)) put(BLOCK, s >> 12);
                    // a word that follows from the two addresses alone protects nothing
                    if((v >> 48) && (s - at < 4096 || (v ^ rec[r.lo]->p) - at < 4096))
                        bad("the bookkeeping of a large block of %llu bytes holds a word that follows from its addresses", rec[r.lo]->n);
                }
            }
            if(off != ~0ull) {
                out->noffsets++;
                out->offsets |= 1ull << (mix(off) % 64);
            }
        });
        std::map<u64, u64> whose;
        for(auto &z : secrets)
            for(auto &k : z.second) {
                if(k.second < 2) continue;
                if(whose.count(k.first)) bad("two zones have the same canary secret");
                whose[k.first] = z.first;
                put(CHUNK, k.first);
            }
        if(!zones.empty() || !live.empty()) note(C_ZONES);
        if(any_freed) note(C_REMASKED);
#if MASK_PTRS
        // each zone has a mask of its own: no two words differ by what two zones' addresses differ by
        std::vector<u64> bases; // of the largest mapping made for a zone
        for(const Zn &z : zones)
            if(z.alive && bases.size() < 8) {
                u64 b = 0, n = 0;
                for(const Region &r : z.own)
                    if(r.hi - r.lo > n) b = r.lo, n = r.hi - r.lo;
                if(n) bases.push_back(b);
            }
        if(last && bases.size() > 1) {
            std::set<u64> words(out->v[WORD], out->v[WORD] + out->n[WORD]);
            for(size_t i = 0; i < bases.size(); i++)
                for(size_t j = i + 1; j < bases.size(); j++) {
                    u64 d = bases[i] ^ bases[j];
                    for(u64 v : words)
                        if(words.count(v ^ d)) bad("two private zones hide their addresses behind the same mask");
                }
        }
#endif
    }
    void alloc_big(u64 n) {
        std::set<u64> before;
        for(auto &x : g_sim->m) before.insert(x.first);
        g_sim->fresh.clear();
        void *p = iso_alloc(n);
        if(!p) bad("a request of %llu bytes failed", n);
        Blk b{(u64) p, n, true, -1, {0, 0}, {0, 0}};
        const Region *r = g_sim->at((u64) p);
        if(!r) bad("a large block lies outside of all mappings");
        b.pages = *r;
        std::vector<Region> rest;
        for(const Region &x : g_sim->fresh)
            if(x.lo != r->lo) rest.push_back(x);
        if(rest.size() == 1) b.record = rest[0];
        if(g_sim->fresh.empty()) { // reused
            for(auto &k : keep)
                if(k.first == r->lo) {
                    b.record = k.second;
                    for(size_t i = 0; i < bigfree.size(); i++)
                        if(bigfree[i].lo == k.second.lo) {
                            bigfree.erase(bigfree.begin() + (long) i);
                            break;
                        }
                }
        } else if(b.record.lo)
            keep[r->lo] = b.record;
        live.push_back(b);
    }
    std::map<u64, Region> keep;
    void process(const Case &c) {
        for(const Op &o : c.ops) {
            switch(o.k) {
                case ALLOC:
                case CALLOC:
                case BULK: {
                    u64 n = (u64) o.a + 1;
                    if(n > 65535) n = 65535;
                    for(int t = 0; t < (o.k == BULK ? 40 : 1); t++) {
                        void *p = o.k == CALLOC ? iso_calloc(1, n) : iso_alloc(n);
                        if(!p) bad("a request of %llu bytes failed", n);
                        live.push_back(Blk{(u64) p, n, false, -1, {0, 0}, {0, 0}});
                    }
                    break;
                }
                case BIG: alloc_big((u64) o.a); break;
                case NEWZONE: {
                    g_sim->fresh.clear();
                    void *h = iso_alloc_new_zone((u64) o.a % 65536 + 1);
                    if(!h) bad("creating a zone failed");
                    Zn z{h, (u64) o.a % 65536 + 1, true, g_sim->fresh};
#if MASK_PTRS
                    if(g_sim->at((u64) h)) bad("the handle of a private zone is a plain address");
                    put(HANDLE, (u64) h);
#endif
                    zones.push_back(z);
                    break;
                }
                case ZALLOC: {
                    if(zones.empty()) break;
                    size_t zi = (size_t) o.a % zones.size();
                    if(!zones[zi].alive) break;
                    void *p = iso_alloc_from_zone(zones[zi].h);
                    if(p) live.push_back(Blk{(u64) p & 0xffffffffffffffull, zones[zi].size, false, (int) zi, {0, 0}, {0, 0}});
                    break;
                }
                case FREE: {
                    if(live.empty()) break;
                    size_t i = (size_t) o.a % live.size();
                    Blk b = live[i];
                    live.erase(live.begin() + (long) i);
                    if(b.big) {
                        if(b.record.lo) bigfree.push_back(b.record), note(C_BIGFREED);
                    } else
                        freed.push_back(b.p), any_freed = true;
                    iso_free((void *) b.p);
                    break;
                }
                case FLUSH: iso_flush_caches(); break;
                case DESTROYZONE: {
                    if(zones.empty()) break;
                    size_t zi = (size_t) o.a % zones.size();
                    if(!zones[zi].alive) break;
                    for(size_t i = 0; i < live.size();)
                        if(live[i].zone == (int) zi) {
                            freed.push_back(live[i].p);
                            live.erase(live.begin() + (long) i);
                        } else
                            i++;
                    iso_flush_caches();
                    iso_alloc_destroy_zone(zones[zi].h);
                    zones[zi].alive = false;
                    note(C_DESTROYED);
                    break;
                }
                case VERIFY: iso_verify_zones(); break;
                case SCAN: search(false); break;
                case PROTECT:
                    iso_alloc_protect_root();
                    iso_alloc_unprotect_root();
                    note(C_PROTECTED);
                    break;
            }
        }
        iso_flush_caches();
        search(true);
#if !DISABLE_CANARY
        // a freed chunk starts with its zone's secret, combined with its own address
        std::map<u64, u64> by_zone;
        for(u64 p : freed) {
            u64 v;
            const Region *r = g_sim->at(p);
            if(!r || !peek((void *) p, &v, 8) || !random_looking(v ^ p) || !(v >> 48)) continue;
            u64 s = (v ^ p) >> 8;
            if(!s) bad("the canary of a freed chunk is its address");
            auto it = by_zone.find(r->lo);
            if(it != by_zone.end()) continue;
            for(auto &z : by_zone)
                if(z.second == s) bad("two zones have the same canary secret");
            by_zone[r->lo] = s;
            put(CHUNK, s);
        }
#endif
        out->nhints = g_sim->hints.size();
        out->hint_and = ~0ull;
        for(u64 h : g_sim->hints) out->hint_and &= h, out->hint_or |= h;
        out->done = 1;
    }

    void execute(const Case &c) override {
        Out *o = (Out *) mmap(NULL, sizeof(Out) * PROCS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        CHECK(o != MAP_FAILED, "no memory for the results");
        for(int k = 0; k < PROCS; k++) {
            fflush(NULL);
            pid_t pid = fork();
            CHECK(pid >= 0, "fork failed");
            if(pid == 0) {
                signal(SIGALRM, SIG_DFL);
                alarm(60);
                g_sim = new Sim;
                out = &o[k];
                seed_entropy(mix(c.entropy * 8 + (u64) k));
                iso_alloc_initialize();
                process(c);
                _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            CHECK(!o[k].msg[0], "%s", o[k].msg);
            CHECK(o[k].done, "a process ended with status 0x%x", st);
        }
        bool made = false;
        for(const Op &x : c.ops) made = made || x.k == NEWZONE || x.k == BIG;
        for(int k = 0; k < PROCS; k++)
            for(int i = 0; i < o[k].ncls; i++) cls(o[k].classes[i]);
        for(int kind = 0; kind < NKIND; kind++) {
            std::map<u64, int> seen;
            for(int k = 0; k < PROCS; k++)
                for(u64 i = 0; i < o[k].n[kind]; i++) {
                    auto it = seen.insert({o[k].v[kind][i], k}).first;
                    CHECK(it->second == k, "%s is the same in two processes: 0x%llx", KNAME[kind], (unsigned long long) o[k].v[kind][i]);
                }
            if(!seen.empty() && kind == HANDLE) cls(C_HANDLES);
            if(!seen.empty() && kind == CHUNK) cls(C_CHUNKS);
            if(!seen.empty() && kind == BLOCK) cls(C_BLOCKS);
        }
        u64 off = 0, n = 0, hand = ~0ull, hor = 0, hn = 0;
        for(int k = 0; k < PROCS; k++) {
            off |= o[k].offsets, n += o[k].noffsets;
            hand &= o[k].hint_and, hor |= o[k].hint_or, hn += o[k].nhints;
        }
        if(n > 6) {
            cls(C_OFFSETS);
            CHECK(__builtin_popcountll(off) > 1, "the bookkeeping of %llu large blocks in %d processes lies at one and the same place in its page", (unsigned long long) n, PROCS);
        }
        // 40 requests or more: the address asked for varies in every bit between a page and 32 TB
        CHECK(hn < 40 || (((hor & ~hand) >> 14) & 0x7fffff) == 0x7fffff, "the addresses the allocator asks the system for are not random: bits 0x%llx never change in %llu requests", (unsigned long long) ~(hor & ~hand), (unsigned long long) hn);
        if(made) nontrivial();
        munmap(o, sizeof(Out) * PROCS);
    }
};
int main(int argc, char **argv) {
    Secrets h;
    return run_main(h, argc, argv);
}
