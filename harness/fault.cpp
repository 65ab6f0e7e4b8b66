// fault.cpp - C32: entropy, mappings and protections that fail.
// A history is run once to count the requests the library makes of the operating system; then it is
// run again for every position at which one of them can fail, once or from then on.
#define PBT_MAIN 1
#include "world.hpp"
#include <sys/wait.h>
using namespace pbt;
using namespace world;

enum { F_NONE, F_ENTROPY, F_MAP, F_PROTECT, F_HUGE, F_ADVISE, NF };
struct Inject {
    int kind = F_NONE;
    u64 at = 0;      // index among the requests of the kind
    bool on = false; // all later ones fail too
    int how = 0;     // which way it fails
    u64 n[NF] = {0};
    u64 fired = 0;     // failures delivered
    bool hit = false;  // one was delivered during the current call and nothing made up for it
    u64 len = 0, addr = 0;
    int prot = 0;
    bool huge = false; // the machine has huge pages
};
static Inject g;
static bool due(int kind) {
    u64 i = g.n[kind]++;
    if(g.kind != kind) return false;
    if(i != g.at && !(g.on && i > g.at)) return false;
    g.fired++;
    return true;
}
static int err_of(int how) { return how % 3 == 0 ? ENOMEM : how % 3 == 1 ? EAGAIN : EACCES; }

extern "C" {
void *hk_mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) {
    if(flags & MAP_HUGETLB) {
        if(!g.huge || due(F_HUGE) || due(F_MAP)) { // the caller may try again without
            errno = ENOMEM;
            return MAP_FAILED;
        }
        flags &= ~MAP_HUGETLB;
    } else if(due(F_MAP)) {
        g.hit = true;
        g.len = n;
        errno = err_of(g.how);
        return MAP_FAILED;
    }
    void *r = mmap(p, n, prot, flags, fd, off);
    if(r != MAP_FAILED && g.hit && g.kind == F_MAP && n == g.len) g.hit = false; // it was asked for again
    return r;
}
int hk_mprotect(void *p, size_t n, int prot) {
    if(due(F_PROTECT)) {
        g.hit = true;
        g.addr = (u64) p;
        g.len = n;
        g.prot = prot;
        errno = err_of(g.how);
        return -1;
    }
    int r = mprotect(p, n, prot);
    if(r == 0 && g.hit && g.kind == F_PROTECT && (u64) p <= g.addr && (u64) p + n >= g.addr + g.len && prot == g.prot) g.hit = false;
    return r;
}
int hk_madvise(void *p, size_t n, int advice) {
    if(due(F_ADVISE)) {
        errno = err_of(g.how);
        return -1;
    }
    return madvise(p, n, advice);
}
ssize_t hk_getrandom(void *buf, size_t n, unsigned flags) {
    if(due(F_ENTROPY)) {
        g.hit = true;
        if(g.how % 5 < 3) {
            errno = g.how % 5 == 0 ? EAGAIN : g.how % 5 == 1 ? EINTR : ENOSYS;
            return -1;
        }
        size_t part = g.how % 5 == 3 ? 0 : (size_t) g.how % n; // less than was asked for
        if(part) return getrandom(buf, part, flags);
        return 0;
    }
    return getrandom(buf, n, flags);
}
}

enum K { SPEC, ALLOC, BIG, CALLOC, REALLOC, NEWZONE, ZALLOC, STRDUP, FREE, FREESIZE, FREEPERM, DESTROYZONE, FLUSH, PROTECT, VERIFY, CHURN, NK };
static const char *NAMES[] = {"spec", "alloc", "big", "calloc", "realloc", "newzone", "zalloc", "strdup", "free", "freesize", "freeperm", "destroyzone", "flush", "protect", "verify", "churn"};
enum C { C_ENTROPY, C_MAP, C_PROTECT, C_HUGE, C_ADVISE, C_DIED, C_NULL, C_LIVED, C_PERSIST, C_POS, C_INIT, C_LATER, NC };
static const char *CNAMES[] = {"entropy_fault", "map_fault", "protect_fault", "huge_page_fault", "advice_fault", "terminated", "returned_null", "carried_on", "persistent_fault", "positions", "position_in_initialization", "position_after"};

struct Fault : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "a failure was delivered to the library at a position after its initialization"; }
    int timeout_s() const override { return 200; }
    Case generate(Rng &r, u64) override {
        Case c;
        static const int KINDS[] = {F_ENTROPY, F_MAP, F_PROTECT, F_HUGE, F_ADVISE};
        int kind = KINDS[r.weighted({6, 8, 8, 3, 1})];
        c.ops.push_back(Op{SPEC, kind, (i64) r.below(2), (i64) r.below(1000)});
        int n = (int) r.range(3, 45), churn = r.chance(1, 4) ? 1 : 0;
        for(int i = 0; i < n; i++) {
            int k = 1 + r.weighted({8, kind == F_HUGE ? 16 : 8, 3, 4, 5, 6, 2, 9, 6, 2, 3, 3, 3, 2, churn ? 2 : 0});
            if(k == CHURN) churn = 0;
            i64 a = (i64) r.below(1u << 30);
            if(k == ALLOC || k == NEWZONE) a = r.chance(1, 2) ? (i64) r.below(600) : (i64) r.below(65537);
            if(k == BIG) a = r.chance(kind == F_HUGE ? 2 : 1, 3) ? (i64) (r.chance(1, 2) ? 4194304 : 2097152) - (i64) (r.chance(1, 2) ? r.below(3) * 4096 : r.below(3)) : 65537 + (i64) r.below(r.chance(1, 2) ? 20000 : 900000);
            if(k == CALLOC) a = (i64) r.below(r.chance(1, 3) ? 200000 : 3000);
            if(k == REALLOC) a = (i64) r.below(1000);
            c.ops.push_back(Op{k, a, k == REALLOC ? 1 + (i64) r.below(r.chance(1, 3) ? 300000 : 5000) : (i64) r.below(1000), (i64) r.below(1000)});
        }
        return c;
    }
    // One call returned: what a failure inside it allows.
    static void settled(bool null, const char *what) {
        if(g.hit) {
            CHECK(null, "%s came back as if nothing had happened although a request for %s failed inside it (number %llu)", what, g.kind == F_ENTROPY ? "entropy" : g.kind == F_MAP ? "memory" : "protection",
                  (unsigned long long) g.at);
            g.hit = false;
            cls(C_NULL);
        } else if(null)
            CHECK(g.fired && g.on, "%s failed although nothing it asked for did", what);
    }
    static void history(const Case &c, u64 *after_init) {
        World w(c.entropy);
        w.f.guards = true;
        w.f.quarantine = true;
        w.f.perm = true;
#if CPU_PIN
        w.f.pinned = true;
#endif
        iso_alloc_initialize();
        settled(false, "the initialization");
        if(after_init)
            for(int k = 0; k < NF; k++) after_init[k] = g.n[k];
        for(size_t i = 1; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            switch(o.k) {
                case ALLOC:
                case BIG: {
                    u64 n = (u64) o.a;
                    void *p = iso_alloc(n);
                    if(n == 0) { // no memory behind it
                        settled(false, "iso_alloc");
                        if(p) iso_free(p);
                        settled(false, "iso_free");
                        break;
                    }
                    settled(p == NULL, "iso_alloc");
                    if(p) w.add(p, n, -1, true, false);
                    break;
                }
                case CALLOC: {
                    u64 n = 1 + (u64) o.a;
                    unsigned char *p = (unsigned char *) iso_calloc(1, n);
                    settled(p == NULL, "iso_calloc");
                    if(!p) break;
                    for(u64 k = 0; k < n; k++) CHECK(p[k] == 0, "byte %llu of calloc(1, %llu) is not zero", (unsigned long long) k, (unsigned long long) n);
                    w.add(p, n, -1, true, false);
                    break;
                }
                case REALLOC: {
                    int id = w.pick_live(o.a);
                    if(id < 0) break;
                    Slot old = w.slots[id];
                    w.verify(old);
                    u64 n = 1 + (u64) o.b;
                    void *p = iso_realloc((void *) old.p, n);
                    settled(p == NULL, "iso_realloc");
                    if(!p) {
                        w.verify(old, "contents of a block that could not be resized");
                        break;
                    }
                    w.forget(id);
                    w.verify_upto(old, (unsigned char *) p, old.usable < n ? old.usable : n, "contents after realloc");
                    w.add(p, n, -1, true, false);
#if PERM_FREE_REALLOC
                    w.noted_perm(old);
#else
                    w.note_freed(old);
#endif
                    break;
                }
                case NEWZONE: {
                    if(w.zone_count() >= 20) break;
                    u64 n = (u64) o.a % 65536 + 1;
                    void *h = iso_alloc_new_zone(n);
                    settled(h == NULL, "iso_alloc_new_zone");
                    if(!h) break;
                    world::Zone z;
                    z.h = h;
                    z.req = n;
                    z.chunk = round32(n);
                    z.count = iso_zone_chunk_count(h);
                    z.alive = true;
                    w.zones.push_back(z);
                    break;
                }
                case ZALLOC: {
                    int zi = w.pick_zone(o.a);
                    if(zi < 0) break;
                    if(w.may_refuse(w.zones[zi])) break;
                    int times = 1 + (int) (o.b % 6);
                    for(int t = 0; t < times && !w.may_refuse(w.zones[zi]); t++) {
                        void *p = iso_alloc_from_zone(w.zones[zi].h);
                        settled(p == NULL, "iso_alloc_from_zone");
                        if(p) w.add(p, w.zones[zi].req, zi);
                    }
                    break;
                }
                case STRDUP: {
                    char s[300];
                    size_t n = (size_t) o.a % 290;
                    memset(s, 'a' + (int) (o.b % 26), n);
                    s[n] = 0;
                    char *p = iso_strdup(s);
                    settled(p == NULL, "iso_strdup");
                    if(!p) break;
                    CHECK(!memcmp(p, s, n + 1), "a copied string differs");
                    w.add(p, n + 1, -1, true, false);
                    break;
                }
                case FREE:
                case FREESIZE:
                case FREEPERM: {
                    int id = w.pick_live(o.a);
                    if(id < 0) break;
                    if(o.k == FREE) w.free_(id);
                    else if(o.k == FREESIZE) w.free_size(id, (int) o.b);
                    else w.free_perm(id);
                    settled(false, "a free");
                    break;
                }
                case DESTROYZONE: {
                    int zi = w.pick_zone(o.a);
                    if(zi < 0) break;
                    w.destroy_zone(zi);
                    settled(false, "iso_alloc_destroy_zone");
                    break;
                }
                case FLUSH:
                    w.flush();
                    settled(false, "iso_flush_caches");
                    break;
                case PROTECT:
                    iso_alloc_protect_root();
                    settled(false, "iso_alloc_protect_root");
                    iso_alloc_unprotect_root();
                    settled(false, "iso_alloc_unprotect_root");
                    break;
                case VERIFY:
                    iso_verify_zones();
                    settled(false, "iso_verify_zones");
                    w.verify_all_slots();
                    break;
                case CHURN: {
                    u64 n = o.a & 1 ? 30000 + (u64) o.a % 30000 : 65000;
                    std::vector<int> ids;
                    for(int t = 0; t < 150; t++) {
                        void *p = iso_alloc(n);
                        settled(p == NULL, "iso_alloc");
                        if(p) ids.push_back(w.add(p, n, -1, true, false));
                    }
                    for(size_t t = 0; t < ids.size(); t++)
                        if(t % 3) {
                            w.free_any(ids[t], (u64) o.b + t);
                            settled(false, "a free");
                        }
                    break;
                }
            }
        }
        at((int) c.ops.size());
        w.verify_all_slots();
        w.check_fences();
#if BIG_ZONE_GUARD
        std::vector<Mapping> mm = maps();
        for(int id : w.live) {
            const Slot &s = w.slots[id];
            if(!s.big) continue;
            CHECK(!readable((void *) (s.p - 1)) && !readable((void *) (s.p + s.usable)), "a large block of %llu bytes has no guard pages", (unsigned long long) s.usable);
        }
#endif
#if PROTECT_FREE_BIG_ZONES
        w.flush();
        settled(false, "iso_flush_caches");
        for(auto &b : w.bigfree) {
            bool again = false;
            for(int id : w.live) again |= w.slots[id].p < b.first + b.second && w.slots[id].p + w.slots[id].usable > b.first;
            if(!again) CHECK(!readable((void *) b.first), "a freed large block of %llu bytes is accessible", (unsigned long long) b.second);
        }
#endif
        for(int id : std::vector<int>(w.live)) {
            w.free_(id);
            settled(false, "a free");
        }
        iso_verify_zones();
        settled(false, "iso_verify_zones");
    }
    void execute(const Case &c) override {
        if(c.ops.empty() || c.ops[0].k != SPEC || c.ops[0].a <= F_NONE || c.ops[0].a >= NF) return;
        int kind = (int) c.ops[0].a;
        bool persist = c.ops[0].b & 1;
        int how = (int) c.ops[0].c;
        struct Counts {
            u64 init[NF], all[NF], fired;
            int done;
        } *n = (Counts *) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        auto run = [&](u64 pos, int k) {
            fflush(stdout);
            n->done = 0;
            pid_t pid = fork();
            if(pid == 0) {
                alarm(60);
                seed_entropy(c.entropy);
                g = Inject();
                g.kind = k;
                g.at = pos;
                g.on = persist;
                g.how = how;
                g.huge = kind == F_HUGE || (how & 16);
                n->fired = 0;
                history(c, n->init);
                memcpy(n->all, g.n, sizeof g.n);
                n->fired = g.fired;
                n->done = 1;
                _exit(0);
            }
            int st = 0;
            while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            return st;
        };
        int st = run(0, F_NONE);
        if(WIFEXITED(st) && WEXITSTATUS(st) == FAIL_EXIT) _exit(FAIL_EXIT);
        CHECK(st == 0, "without any failure the history ends with status %#x", st);
        u64 total = n->all[kind], init = n->init[kind];
        Rng r(c.entropy ^ 0xfa017);
        int later = 0;
        u64 nlater = total - init;
        for(u64 pos = 0; pos < total; pos++) {
            if(pos < init && !r.chance(1, 8)) continue;                     // the initialization is the same in every case
            if(pos >= init && nlater > 80 && !r.chance(80, nlater)) continue;
            st = run(pos, kind);
            cls(C_POS);
            cls(pos < init ? C_INIT : C_LATER);
            later += pos >= init;
            cls(kind == F_ENTROPY ? C_ENTROPY : kind == F_MAP ? C_MAP : kind == F_PROTECT ? C_PROTECT : kind == F_HUGE ? C_HUGE : C_ADVISE);
            if(persist) cls(C_PERSIST);
            if(WIFEXITED(st) && WEXITSTATUS(st) == FAIL_EXIT) _exit(FAIL_EXIT);
            if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && n->done) {
                CHECK(n->fired > 0, "the requests made of the system differ between two runs of one history");
                cls(C_LIVED);
                continue;
            }
            CHECK(WIFSIGNALED(st), "after failure number %llu the history ends with status %#x", (unsigned long long) pos, st);
            CHECK(WTERMSIG(st) != SIGALRM, "after failure number %llu the history makes no progress", (unsigned long long) pos);
            CHECK(WTERMSIG(st) == SIGABRT, "after failure number %llu the process ends with signal %d and not with a deliberate abort", (unsigned long long) pos, WTERMSIG(st));
            CHECK(kind != F_HUGE && kind != F_ADVISE, "the process ended although only a hint failed (number %llu)", (unsigned long long) pos);
            cls(C_DIED);
        }
        if(later) nontrivial();
    }
};
int main(int argc, char **argv) {
    Fault h;
    return run_main(h, argc, argv);
}
