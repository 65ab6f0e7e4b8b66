// rand.cpp - C31: the order and the place of what is handed out.
// Every case runs one small history in many processes that differ only in what the entropy source
// delivers, and looks at the addresses each of them got.
#define PBT_MAIN 1
#include "world.hpp"
#include <sys/wait.h>
using namespace pbt;
using namespace world;

static const int RUNS = 24;
enum K { GENERAL, PRIVATE, LARGE, REFILL, NK };
static const char *NAMES[] = {"general", "private_zone", "large", "refill"};
enum C { C_GENERAL, C_PRIVATE, C_LARGE, C_REFILL, C_RUNS, C_FEW, NC };
static const char *CNAMES[] = {"general_zone", "private_zone", "large_blocks", "several_refills", "runs", "zone_of_at_most_256_chunks"};

struct Rand : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "24 runs with different entropy, and one repeated, were compared over at least 16 chunks of one zone or 4 large blocks"; }
    int timeout_s() const override { return 120; }
    Case generate(Rng &r, u64) override {
        Case c;
        int k = r.weighted({5, 6, 2, 4});
        static const int S[] = {16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536};
        i64 size = S[r.below(13)];
        if(k != GENERAL && r.chance(1, 2)) size = 16 + (i64) r.below(r.chance(1, 2) ? 2000 : 65000);
        if(k == REFILL && size > 4096) size = 32 + (i64) r.below(4000);
        if(k == LARGE) size = 65537 + (i64) r.below(3000000);
        int warm = r.chance(1, 2) ? 0 : (int) r.below(60); // what came before
        for(int i = 0; i < warm; i++) c.ops.push_back(Op{r.chance(1, 3) ? (int) LARGE : (int) GENERAL, (i64) (r.chance(1, 3) ? 70000 : 1 + r.below(9000)), -1, (i64) r.below(100)});
        c.ops.push_back(Op{k, size, 1, (i64) r.below(1u << 30)});
        return c;
    }
    static std::vector<u64> child_run(const Case &c, u64 entropy, std::string &err) {
        int p[2];
        std::vector<u64> out;
        if(pipe(p)) return out;
        pid_t pid = fork();
        if(pid == 0) {
            close(p[0]);
            seed_entropy(entropy);
            iso_alloc_initialize();
            std::vector<u64> v;
            static void *keep[4000];
            u64 base = 0;
            int last = (int) c.ops.size() - 1, nk = 0;
            for(int i = 0; i < last; i++) {
                const Op &o = c.ops[(size_t) i];
                void *q = iso_alloc(o.k == LARGE ? 65537 + (u64) o.a % 100000 : 1 + (u64) o.a % 9000);
                if(o.c & 1) iso_free(q);
            }
            const Op &o = c.ops[(size_t) last];
            void *z = NULL;
            u64 size = (u64) o.a;
            u64 count = o.k == LARGE ? 8 : 4194304 / round32(size);
            if(o.k == PRIVATE || o.k == REFILL) {
                z = iso_alloc_new_zone(size);
                count = z ? iso_zone_chunk_count(z) : 0;
            }
            u64 k = o.k == LARGE ? 8 : count / 2;
            if(k > (o.k == REFILL ? 1500 : 128)) k = o.k == REFILL ? 1500 : 128;
            for(u64 i = 0; i < k; i++) {
                void *q = z ? iso_alloc_from_zone(z) : iso_alloc(size);
                keep[nk++] = q;
            }
            if(o.k != LARGE) {
                for(auto &m : maps())
                    if((u64) keep[0] >= m.lo && (u64) keep[0] < m.hi) base = m.lo;
            }
            u64 h[2] = {base, k};
            bool ok = write(p[1], h, sizeof h) == sizeof h && write(p[1], keep, k * 8) == (ssize_t) (k * 8);
            _exit(ok ? 0 : 3);
        }
        close(p[1]);
        u64 b[512];
        ssize_t k;
        std::string all;
        while((k = read(p[0], b, sizeof b)) > 0) all.append((char *) b, (size_t) k);
        close(p[0]);
        int st = 0;
        while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if(!WIFEXITED(st) || WEXITSTATUS(st)) err = "a run ended with status " + std::to_string(st);
        out.resize(all.size() / 8);
        memcpy(out.data(), all.data(), out.size() * 8);
        return out;
    }
    void execute(const Case &c) override {
        if(c.ops.empty() || c.ops.back().b != 1 || c.ops.back().a < 1 || (c.ops.back().k == LARGE ? c.ops.back().a <= 65536 : c.ops.back().a > 65536)) return;
        const Op &o = c.ops.back();
        std::string err;
        std::vector<std::vector<u64>> run;
        for(int i = 0; i < RUNS; i++) {
            run.push_back(child_run(c, c.entropy + (u64) i * 1000003, err));
            CHECK(err.empty(), "%s", err.c_str());
            CHECK(run.back().size() >= 2 && run.back().size() == run.back()[1] + 2, "a run was cut short");
        }
        std::vector<u64> twin = child_run(c, c.entropy, err);
        CHECK(twin == run[0], "two runs with the same entropy hand out different addresses");
        const u64 k = run[0][1];
        for(auto &r : run) CHECK(r[1] == k, "the size of a zone depends on the entropy");
        cls(C_RUNS);
        // where
        for(int i = 0; i < RUNS; i++)
            for(int j = 0; j < i; j++)
                for(u64 q = 0; q < k && q < 4; q++) {
                    CHECK(run[i][2 + q] != run[j][2 + q], "chunk or block %llu of size %lld has the same address in runs %d and %d", (unsigned long long) q, (long long) o.a, j, i);
                    CHECK(run[i][2 + q] >> 12 != run[j][2 + q] >> 12, "chunk or block %llu of size %lld lies on the same page in runs %d and %d", (unsigned long long) q, (long long) o.a, j, i);
                }
        if(o.k == LARGE) { // each block has a place of its own
            int near = 0;
            for(auto &r : run)
                for(u64 q = 1; q < k; q++) near += r[2 + q] - r[1 + q] + (64ull << 20) < (128ull << 20);
            CHECK(near < (int) (k - 1) * RUNS / 2, "%d of %d large blocks lie next to the one before", near, (int) (k - 1) * RUNS);
            cls(C_LARGE);
            nontrivial();
            return;
        }
        u64 chunk = 0;
        const u64 half = RUNS / 2;
        // in what order: no step may be common
        for(auto &r : run) {
            CHECK(r[0] != 0, "a chunk lies in no mapping");
            std::map<i64, u64> steps;
            u64 up = 0, same = 0;
            i64 last = 0;
            for(u64 q = 1; q < k; q++) {
                i64 d = (i64) (r[2 + q] - r[1 + q]);
                steps[d]++;
                up += d > 0;
            }
            for(auto &s : steps)
                CHECK(k < 17 || s.second <= (k - 1) / 2, "%llu of %llu chunks of %lld bytes lie %lld bytes behind the one handed out before", (unsigned long long) s.second, (unsigned long long) k - 1, (long long) o.a, (long long) s.first);
            if(k >= 40) {
                CHECK(up > (k - 1) / 10, "the addresses of %llu chunks of %lld bytes mostly fall", (unsigned long long) k, (long long) o.a);
                CHECK(up < (k - 1) - (k - 1) / 10, "the addresses of %llu chunks of %lld bytes mostly rise", (unsigned long long) k, (long long) o.a);
            }
            if(o.k == REFILL) { // a refill is not ordered like the one before
                for(u64 lag = 20; lag <= 300 && lag + 40 < k; lag++) {
                    u64 m = 0, n = 0;
                    for(u64 q = 1; q + lag < k; q++, n++) m += r[2 + q] - r[1 + q] == r[2 + q + lag] - r[1 + q + lag];
                    CHECK(m * 3 < n, "the order of chunks of %lld bytes repeats itself every %llu chunks", (long long) o.a, (unsigned long long) lag);
                }
                cls(C_REFILL);
            }
            (void) same, (void) last;
        }
        // and nothing about the order is the same in most runs
        for(u64 q = 0; q < k; q++) {
            std::map<i64, u64> off, step, first;
            for(auto &r : run) {
                off[(i64) (r[2 + q] - r[0])]++;
                if(q) step[(i64) (r[2 + q] - r[1 + q])]++, first[(i64) (r[2 + q] - r[2])]++;
            }
            for(auto &s : off) CHECK(s.second <= half, "chunk %llu of %lld bytes is %lld bytes into its zone in %llu of %d runs", (unsigned long long) q, (long long) o.a, (long long) s.first, (unsigned long long) s.second, RUNS);
            for(auto &s : step) CHECK(s.second <= half, "chunk %llu of %lld bytes lies %lld bytes behind the one before in %llu of %d runs", (unsigned long long) q, (long long) o.a, (long long) s.first, (unsigned long long) s.second, RUNS);
            for(auto &s : first) CHECK(s.second <= half, "chunk %llu of %lld bytes lies %lld bytes behind the first one in %llu of %d runs", (unsigned long long) q, (long long) o.a, (long long) s.first, (unsigned long long) s.second, RUNS);
        }
        (void) chunk;
        if(4194304 / round32((u64) o.a) <= 256) cls(C_FEW);
        cls(o.k == GENERAL ? C_GENERAL : C_PRIVATE);
        if(k >= 16) nontrivial();
    }
};
int main(int argc, char **argv) {
    Rand h;
    return run_main(h, argc, argv);
}
