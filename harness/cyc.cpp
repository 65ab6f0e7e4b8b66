// cyc.cpp - C17: workloads that repeat forever must reach a steady address space.
//
// A case is a set-up (data that stays live) and a pattern; the pattern is run over and over, leaving
// nothing behind.  The mapped bytes and the number of mappings of the process (its own heap and stack
// left out) are sampled; what the last third of the run needs must not exceed what the middle third needed.
#define PBT_MAIN 1
#include "pbt.hpp"
#include "api.hpp"
#include "world.hpp"
using namespace pbt;

enum K { KEEP, KEEPZONE, CYCLES, A, CALLOC, RE, F, Z, PZ, STR, VERIFY, REPORT, ZERO, FLUSH, NK };
static const char *NAMES[] = {"keep", "keepzone", "cycles", "alloc", "calloc", "realloc", "free", "zone_cycle", "zone_use", "strdup", "verify", "report", "zero", "flush"};
enum C { C_SMALL, C_BIG, C_RESIZE, C_ZONECYCLE, C_PRIVATE, C_RETIRE, C_BIGRETIRE, C_FREELISTFULL, C_LONGER, NC };
static const char *CNAMES[] = {"small_sizes", "large_sizes", "resizes", "zones_created_and_destroyed", "private_zone_refilled", "zone_lifetimes_passed", "large_block_lifetimes_passed", "more_large_blocks_than_free_list", "observed_ten_times_longer"};

struct Foot {
    u64 bytes = 0, count = 0;
};
static Foot foot() {
    Foot f;
    static char buf[1 << 16];
    int fd = open("/proc/self/maps", O_RDONLY);
    std::string s;
    for(ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) s.append(buf, (size_t) n);
    close(fd);
    const char *p = s.c_str();
    while(*p) {
        const char *e = strchr(p, '\n');
        if(!e) break;
        u64 lo = strtoull(p, (char **) &p, 16);
        u64 hi = strtoull(p + 1, (char **) &p, 16);
        std::string line(p, (size_t) (e - p));
        // the allocator's mappings are anonymous (or named anon)
        bool file = line.find('/') != std::string::npos;
        bool special = line.find("[heap]") != std::string::npos || line.find("[stack]") != std::string::npos || line.find("[v") != std::string::npos;
        if(!file && !special) {
            f.bytes += hi - lo;
            f.count++;
        }
        p = e + 1;
    }
    return f;
}

struct Blk {
    char *p;
    u64 n;
};

struct Cyc : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "a pattern with at least one allocation was repeated at least 600 times and its footprint compared between thirds of the run"; }
    int timeout_s() const override { return 100; }

    Case generate(Rng &r, u64) override {
        Case c;
        for(int i = 0; i < r.range(0, 6); i++) c.ops.push_back(Op{KEEP, (i64) (r.chance(1, 4) ? gen_big_size(r) : gen_small_size(r)), r.range(1, 20), 0});
        if(r.chance(1, 2)) c.ops.push_back(Op{KEEPZONE, (i64) gen_small_size(r), 0, 0});
        std::vector<Op> pat;
        int style = (int) r.below(8); // 0 any, 1 large only, 2 zone lifetimes, 3 zone cycles, 4 resize chains, 5 many large, 6 any, 7 large of drifting size
        int n = (int) r.range(1, style == 5 ? 3 : style == 3 ? 4 : 12);
        std::vector<u64> pal;
        for(int i = 0; i < 3; i++) pal.push_back(r.chance(1, 3) ? gen_big_size(r) % (8 << 20) + 65537 : gen_small_size(r));
        auto size = [&]() -> u64 {
            if(style == 1 || style == 5) return gen_big_size(r) % (6 << 20) + 65537;
            if(style == 2) return r.chance(1, 2) ? 65536 - 32 * r.below(1000) : 8192 + r.below(30000);
            return r.chance(2, 3) ? r.pick(pal) : gen_small_size(r);
        };
        for(int i = 0; i < n; i++) {
            Op o{0, 0, 0, 0};
            int k = style == 3 ? r.weighted({4, 0, 0, 1, 1, 0, 0, 6, 2}) : style == 4 ? r.weighted({4, 0, 0, 4, 1, 12, 2}) : style == 1 || style == 7 ? r.weighted({0, 0, 0, 8, 1, 2, 3}) : style == 5 ? r.weighted({0, 0, 0, 8, 0, 0, 1}) : style == 2 ? r.weighted({0, 0, 0, 8, 1, 1, 4, 0, 2, 0, 0, 0, 0, 1}) : r.weighted({0, 0, 0, 14, 3, 6, 6, 0, 3, 2, 1, 1, 1, 2});
            if(style == 3 && k == 0) k = Z;
            if(style == 4 && k == 0) k = A;
            o.k = k;
            switch(k) {
                case A:
                    o.a = (i64) size();
                    o.b = o.a > 65536 ? (style == 5 ? r.range(20, 110) : r.range(1, 6)) : style == 2 ? r.range(10, 60) : r.range(1, 120);
                    break;
                case CALLOC:
                    o.a = (i64) size();
                    if(o.a > 1000000) o.a %= 1000000;
                    o.b = r.range(1, 5);
                    break;
                case RE:
                case F:
                    o.a = (i64) r.below(1 << 20);
                    o.b = (i64) (k == RE ? size() : r.below(8));
                    break;
                case Z:
                    o.a = (i64) gen_small_size(r);
                    o.b = r.range(0, 40);
                    o.c = (i64) r.below(1 << 20);
                    break;
                default:
                    o.a = (i64) r.below(1 << 20);
                    o.b = r.range(1, 200);
            }
            pat.push_back(o);
        }
        // long enough for the quarantine, the list of free large blocks and their lifetimes to fill up
        u64 cyc = (u64) r.range(600, 900);
        if(style == 2) cyc = (u64) r.range(600, 1500);
        c.ops.push_back(Op{CYCLES, (i64) cyc, (i64) r.below(2), (i64) r.below(8)});
        c.ops.insert(c.ops.end(), pat.begin(), pat.end());
        return c;
    }

    static u64 zone_growth(u64 chunk) { // what one internal zone of this size occupies
        u64 cnt = world::ZONE_BYTES / chunk;
        u64 bm = cnt * 2 / 8;
        if(bm < 8) bm = 8;
        return world::ZONE_BYTES + 2 * 4096 + ((bm + 4095) & ~4095ull) + 2 * 4096;
    }
    void execute(const Case &c) override {
        iso_alloc_initialize();
        void *kz = NULL;
        u64 kzchunk = 0, kzcount = 0;
        std::vector<Blk> cur;
        cur.reserve(8192);
        u64 cycles = 0, how = 0, flushend = 0;
        size_t start = c.ops.size();
        u64 kept = 0;
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            if(o.k == KEEP)
                for(i64 k = 0; k < o.b && kept < (64 << 20); k++) {
                    CHECK(iso_alloc((size_t) o.a) != NULL, "allocation failed");
                    kept += (u64) o.a;
                }
            if(o.k == KEEPZONE && !kz && o.a >= 1 && o.a <= 65536) {
                kz = iso_alloc_new_zone((size_t) o.a);
                CHECK(kz != NULL, "no zone");
                kzchunk = (u64) o.a;
                kzcount = iso_zone_chunk_count(kz);
            }
            if(o.k == CYCLES) {
                cycles = (u64) o.a;
                flushend = (u64) o.b;
                how = (u64) o.c;
                start = i + 1;
                break;
            }
        }
        if(cycles < 600 || cycles > 5000) return;
        u64 allowance = 0, zones_made = 0, zones_per = 0;
        for(size_t i = start; i < c.ops.size(); i++)
            if(c.ops[i].k == Z) zones_per++;
        if(cycles * zones_per > 6000) return;
        std::vector<Foot> f;
        std::vector<u64> made, allow;
        u64 every = cycles / 90;
        if(every < 1) every = 1;
        u64 small = 0, big = 0, allocs = 0;
        bool bigmany = false;
        auto fr = [&](Blk &b, u64 h) {
            if(h % 3 == 1 && b.n) iso_free_size(b.p, b.n);
            else iso_free(b.p);
            b.p = NULL;
        };
        auto got = [&](void *p, u64 n) {
            CHECK(p != NULL, "allocation of %llu bytes failed", (unsigned long long) n);
            *(volatile char *) p = 1;
            allocs++;
            if(n > 65536) big++, cls(C_BIG);
            else small++, cls(C_SMALL);
            cur.push_back(Blk{(char *) p, n});
        };
        auto sample = [&]() {
            iso_flush_caches();
            f.push_back(foot());
            made.push_back(zones_made);
            allow.push_back(allowance);
        };
        auto run = [&](u64 count) {
        for(u64 cy = 0; cy < count; cy++) {
            u64 bytes = 0;
            for(size_t i = start; i < c.ops.size(); i++) {
                const Op &o = c.ops[i];
                at((int) i);
                u64 n = o.a < 1 ? 1 : (u64) o.a;
                if(zones_per && n > 65536 && (o.k == A || o.k == CALLOC)) n = n % 65536 + 1;
                switch(o.k) {
                    case A:
                        for(i64 k = 0; k < o.b && cur.size() < 4000 && bytes + n < (512ull << 20); k++) {
                            got(iso_alloc(n), n);
                            bytes += n;
                        }
                        if(n > 65536 && o.b > 64) bigmany = true, cls(C_FREELISTFULL);
                        break;
                    case CALLOC:
                        for(i64 k = 0; k < o.b && bytes + n < (512ull << 20); k++) {
                            got(iso_calloc(1, n), n);
                            bytes += n;
                        }
                        break;
                    case RE: {
                        if(cur.empty()) break;
                        Blk &b = cur[(u64) o.a % cur.size()];
                        u64 m = o.b < 1 ? 1 : (u64) o.b;
                        if(zones_per && m > 65536) m = m % 65536 + 1;
                        if(b.p == NULL || bytes + m > (512ull << 20)) break;
                        char *q = (char *) iso_realloc(b.p, m);
                        CHECK(q != NULL, "resize to %llu failed", (unsigned long long) m);
                        b = Blk{q, m};
                        bytes += m;
                        allocs++;
                        cls(C_RESIZE);
                        break;
                    }
                    case F:
                        if(cur.size()) {
                            Blk &b = cur[(u64) o.a % cur.size()];
                            if(b.p) fr(b, (u64) o.b);
                        }
                        break;
                    case Z: {
                        if(n > 65536) break;
                        void *z = iso_alloc_new_zone(n);
                        CHECK(z != NULL, "creating zone %llu failed", (unsigned long long) zones_made);
                        std::vector<void *> v;
                        for(i64 k = 0; k < o.b; k++) {
                            void *p = iso_alloc_from_zone(z);
                            if(!p) break;
                            *(volatile char *) p = 2;
                            v.push_back(p);
                        }
                        for(size_t k = 0; k < v.size(); k++)
                            if((o.c >> (k % 16)) & 1) {
                                if(k & 1) iso_free_from_zone(v[k], z);
                                else iso_free(v[k]);
                            }
                        if((o.c >> 17) & 1) iso_flush_caches();
                        iso_alloc_destroy_zone(z);
                        zones_made++;
                        allowance += zone_growth(world::round32(n));
                        cls(C_ZONECYCLE);
                        break;
                    }
                    case PZ: {
                        if(!kz) break;
                        std::vector<void *> v;
                        for(i64 k = 0; k < o.b && k < (i64) kzcount; k++) {
                            void *p = iso_alloc_from_zone(kz);
                            CHECK(p != NULL, "zone refuses a chunk although empty");
                            v.push_back(p);
                        }
                        for(size_t k = 0; k < v.size(); k++) {
                            if(o.a & 1) iso_free_from_zone(v[k], kz);
                            else if(o.a & 2) iso_free_size(v[k], kzchunk);
                            else iso_free(v[k]);
                        }
                        iso_flush_caches();
                        cls(C_PRIVATE);
                        break;
                    }
                    case STR: {
                        std::string s((size_t) (o.a % 3000), 'k');
                        got(iso_strdup(s.c_str()), s.size() + 1);
                        break;
                    }
                    case VERIFY: iso_verify_zones(); break;
                    case REPORT:
                        iso_alloc_detect_leaks();
                        iso_alloc_mem_usage();
                        break;
                    case ZERO: iso_free(iso_alloc(0)); break;
                    case FLUSH: iso_flush_caches(); break;
                }
            }
            at((int) c.ops.size());
            for(auto &b : cur)
                if(b.p) fr(b, how);
            cur.clear();
            if(flushend) iso_flush_caches();
            if(cy % every == every - 1) sample();
        }
        };
        run(cycles);
        u64 k = f.size();
        if(k < 30) return;
        if(allocs + zones_made > 0) nontrivial();
        if(small > 100000) cls(C_RETIRE);
        if(big > 64) cls(C_BIGRETIRE);
        if(getenv("CYC_SERIES"))
            for(u64 i = 0; i < k; i += 3) fprintf(stderr, "%llu bytes %llu maps %llu zones %llu allow %llu\n", (unsigned long long) i, (unsigned long long) f[i].bytes, (unsigned long long) f[i].count, (unsigned long long) made[i], (unsigned long long) allow[i]);
        // footprint without what the recorded zone growth explains
        i64 mb = 0, mc = 0;
        auto window = [&](u64 from, u64 to) {
            mb = mc = -(1ll << 60);
            for(u64 i = from; i < to; i++) {
                mb = std::max(mb, (i64) f[i].bytes - (i64) allow[i]);
                mc = std::max(mc, (i64) f[i].count - (i64) made[i] * 6);
            }
        };
        i64 slackb = 5 << 20, slackc = 10;
        window(k / 3, k * 2 / 3);
        i64 b1 = mb, c1 = mc;
        window(k * 2 / 3, k);
        if(mb <= b1 + slackb && mc <= c1 + slackc) return;
        // The list of free large blocks changes with a long period; look much longer before judging.
        u64 total = cycles;
        if(!zones_per) {
            cls(C_LONGER);
            run(cycles * 3);
            window(k, f.size());
            b1 = mb, c1 = mc;
            k = f.size();
            run(cycles * 6);
            window(k, f.size());
            total *= 10;
        }
        CHECK(mb <= b1 + slackb, "the address space keeps growing: %lld bytes earlier, %lld bytes in the last part of %llu cycles (mappings %lld, %lld)", (long long) b1, (long long) mb, (unsigned long long) total,
              (long long) c1, (long long) mc);
        CHECK(mc <= c1 + slackc, "the number of mappings keeps growing: %lld earlier, %lld in the last part of %llu cycles (bytes %lld, %lld)", (long long) c1, (long long) mc, (unsigned long long) total, (long long) b1,
              (long long) mb);
    }
};
int main(int argc, char **argv) {
    Cyc h;
    return run_main(h, argc, argv);
}
