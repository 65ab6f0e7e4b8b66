// names.cpp - C43: the names the system is given for the allocator's memory are right.
// The library's calls of mmap, munmap and prctl are recorded here and the naming of memory is simulated, so
// that the check does not depend on the kernel: a model of which page bears which name is kept.
#define PBT_MAIN 1
#include "world.hpp"
#include "conf.h"
#include <stdarg.h>
#include <sys/prctl.h>
#include <thread>
using namespace pbt;
using namespace world;
#ifndef INTERNAL_UZ_NAME
#define INTERNAL_UZ_NAME ""
#define PRIVATE_UZ_NAME ""
#define BIG_ZONE_UD_NAME ""
#define SAMPLED_ALLOC_NAME ""
#define GUARD_PAGE_NAME ""
#endif

struct Span {
    u64 hi;
    std::string name;
};
struct Names { // lo -> span, of what the library has mapped
    std::map<u64, Span> m;
    u64 calls = 0, named = 0;
    bool refuse = false;
    std::string bad;
    void split(u64 at) {
        auto it = m.upper_bound(at);
        if(it == m.begin()) return;
        --it;
        if(it->first < at && it->second.hi > at) {
            Span r = it->second;
            it->second.hi = at;
            m[at] = r;
        }
    }
    void drop(u64 lo, u64 hi) {
        split(lo), split(hi);
        m.erase(m.lower_bound(lo), m.lower_bound(hi));
    }
    bool covered(u64 lo, u64 hi) const {
        for(u64 p = lo; p < hi;) {
            auto it = m.upper_bound(p);
            if(it == m.begin()) return false;
            --it;
            if(it->second.hi <= p) return false;
            p = it->second.hi;
        }
        return true;
    }
    void name(u64 lo, u64 hi, const char *s) {
        split(lo), split(hi);
        for(auto it = m.lower_bound(lo); it != m.end() && it->first < hi; ++it) it->second.name = s;
    }
    const std::string *at(u64 p) const {
        auto it = m.upper_bound(p);
        if(it == m.begin()) return NULL;
        --it;
        return it->second.hi > p ? &it->second.name : NULL;
    }
};
static Names *names() {
    static Names *n = new Names;
    return n;
}
static u64 page_up(u64 n) { return (n + 4095) & ~4095ull; }
extern "C" {
void *hk_mmap(void *p, size_t n, int prot, int flags, int fd, off_t off) {
    if(flags & MAP_HUGETLB) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    void *r = mmap(p, n, prot, flags, fd, off);
    if(r != MAP_FAILED) {
        names()->drop((u64) r, (u64) r + page_up(n));
        names()->m[(u64) r] = Span{(u64) r + page_up(n), ""};
    }
    return r;
}
int hk_munmap(void *p, size_t n) {
    int r = munmap(p, n);
    if(r == 0) names()->drop((u64) p, (u64) p + page_up(n));
    return r;
}
int hk_prctl(int op, ...) {
    va_list ap;
    va_start(ap, op);
    u64 a = va_arg(ap, unsigned long), b = va_arg(ap, unsigned long), c = va_arg(ap, unsigned long), d = va_arg(ap, unsigned long);
    va_end(ap);
    if(op != 0x53564d41) return prctl(op, a, b, c, d);
    Names *n = names();
    n->calls++;
    u64 hi = b + page_up(c);
    if(a != 0 || b % 4096 || c == 0 || hi < b || !n->covered(b, hi)) {
        if(n->bad.empty()) {
            char t[200];
            snprintf(t, sizeof t, "the system was asked to name %#llx bytes at %#llx, which the allocator has not mapped", (unsigned long long) c, (unsigned long long) b);
            n->bad = t;
        }
        errno = ENOMEM;
        return -1;
    }
    if(n->refuse) {
        errno = EINVAL;
        return -1;
    }
    n->named++;
    n->name(b, hi, d ? (const char *) d : "");
    return 0;
}
}

enum K { ALLOC, BIG, CALLOC, REALLOC, NEWZONE, ZALLOC, NAMEZONE, FREE, FREESIZE, FREEPERM, DESTROYZONE, FLUSH, VERIFY, ROUND, CHURN, REFUSE, CHECKNOW, NK };
static const char *NAMES[] = {"alloc", "big", "calloc", "realloc", "newzone", "zalloc", "namezone", "free", "freesize", "freeperm", "destroyzone", "flush", "verify", "round", "churn", "refuse", "check"};
enum C { C_NAMED, C_RENAMED, C_TWO, C_BIG, C_REUSED, C_DESTROYED, C_RETIRED, C_REFUSED, C_SAMPLED, NC };
static const char *CNAMES[] = {"zone_named", "zone_renamed", "two_named_zones", "large_block", "large_block_reused", "named_zone_destroyed", "zones_retired", "naming_refused", "sampled_block"};

struct NamesCheck : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "a private zone was named and the names of all blocks were compared after that"; }
    int timeout_s() const override { return 120; }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(2, r.chance(1, 3) ? 12 : 70);
        int churn = r.chance(1, 6), round = r.chance(1, 8), refuse = r.chance(1, 6) ? 3 : 0;
        for(int i = 0; i < n; i++) {
            int k = r.weighted({7, 6, 2, 4, 7, 8, 7, 7, 3, 2, 4, 2, 1, round ? 2 : 0, churn ? 2 : 0, refuse, 5});
            if(k == CHURN) churn = 0;
            if(k == ROUND) round = 0;
            i64 a = (i64) r.below(1u << 30);
            if(k == ALLOC || k == NEWZONE) a = r.chance(1, 2) ? (i64) r.below(600) : (i64) r.below(65537);
            if(k == BIG) a = r.chance(1, 6) ? 4194304 - 4096 + (i64) r.below(8192) : 65537 + (i64) r.below(600000);
            if(k == CALLOC) a = (i64) r.below(r.chance(1, 3) ? 200000 : 3000);
            c.ops.push_back(Op{k, a, k == REALLOC ? 1 + (i64) r.below(r.chance(1, 3) ? 300000 : 5000) : (i64) r.below(1000), (i64) r.below(1000)});
        }
        return c;
    }

    World *w = NULL;
    std::map<int, std::string> given; // zone -> the name it was given
    std::vector<std::pair<u64, u64>> vague; // mapped or named while the system refused names
    bool unsure = false;
    void all(u64 lo, u64 hi, const std::string &want, const char *what, const char *when) {
        for(u64 p = lo; p < hi;) {
            auto it = names()->m.upper_bound(p);
            CHECK(it != names()->m.begin(), "%s lies outside of all mappings %s", what, when);
            --it;
            CHECK(it->second.hi > p, "%s lies outside of all mappings %s", what, when);
            CHECK(it->second.name == want, "memory of %s, %#llx bytes from its start, is named '%s' and not '%s' %s", what, (unsigned long long) (p - lo), it->second.name.c_str(), want.c_str(), when);
            p = it->second.hi;
        }
    }
    void look(const char *when) {
        CHECK(names()->bad.empty(), "%s (%s)", names()->bad.c_str(), when);
#if NAMED_MAPPINGS
        if(unsure) return;
        std::vector<Mapping> ms = maps();
        std::set<u64> done;
        int named = 0;
        for(int id : w->live) {
            const Slot &s = w->slots[id];
            const Mapping *m = NULL;
            for(const Mapping &x : ms)
                if(x.lo <= s.p && s.p < x.hi) m = &x;
            CHECK(m, "a live block is not mapped");
            if(s.big) {
                all(s.p, s.p + s.usable, BIG_ZONE_UD_NAME, "a large block", when);
                continue;
            }
            if(ALLOC_SANITY && s.zone < 0 && m->hi - m->lo == PAGE) {
                all(m->lo, m->hi, SAMPLED_ALLOC_NAME, "a sampled allocation", when);
                cls(C_SAMPLED);
                continue;
            }
            if(!done.insert(m->lo).second) continue;
            if(m->hi - m->lo != ZONE_BYTES) continue; // C19 says so
            if(s.zone < 0) all(m->lo, m->hi, INTERNAL_UZ_NAME, "a default zone", when);
            else {
                auto g = given.find(s.zone);
                if(g != given.end()) named++;
                all(m->lo, m->hi, g == given.end() ? PRIVATE_UZ_NAME : g->second, g == given.end() ? "a private zone" : "a named zone", when);
            }
            all(m->lo - PAGE, m->lo, GUARD_PAGE_NAME, "the page below a zone", when);
            all(m->hi, m->hi + PAGE, GUARD_PAGE_NAME, "the page above a zone", when);
        }
        for(auto &x : names()->m) // nothing accessible is called a guard page, and a name given to a zone is nowhere else
            if(x.second.name == GUARD_PAGE_NAME)
                for(const Mapping &y : ms) CHECK(y.hi <= x.first || y.lo >= x.second.hi || y.perm[0] == '-', "accessible memory is named '%s' %s", GUARD_PAGE_NAME, when);
        std::map<std::string, u64> size;
        for(auto &x : names()->m) size[x.second.name] += x.second.hi - x.first;
        for(auto &g : given) {
            u64 k = 0;
            for(auto &h : given) k += h.second == g.second;
            CHECK(size[g.second] == k * ZONE_BYTES, "%llu bytes bear the name given to %llu zones %s", (unsigned long long) size[g.second], (unsigned long long) k, when);
        }
        if(named >= 2) cls(C_TWO);
        if(!given.empty()) nontrivial();
#else
        CHECK(names()->calls == 0, "a build without NAMED_MAPPINGS names memory");
        if(!given.empty()) nontrivial();
#endif
    }
    void execute(const Case &c) override {
        iso_alloc_initialize();
        delete w;
        w = new World(c.entropy);
        given.clear();
        unsure = false;
        names()->refuse = false;
        w->f.perm = true;
        look("after the initialization");
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            switch(o.k) {
                case ALLOC: w->add(iso_alloc((u64) o.a + 1), (u64) o.a + 1, -1); break;
                case BIG: {
                    u64 n = (u64) o.a + 1;
                    auto was = w->bigfree;
                    u64 b = w->slots[w->add(iso_alloc(n), n, -1)].p;
                    if(n > SMALL_MAX) {
                        cls(C_BIG);
                        for(auto &x : was)
                            if(x.first == b) cls(C_REUSED);
                    }
                    break;
                }
                case CALLOC: {
                    u64 n = 1 + (u64) o.a;
                    w->add(iso_calloc(1, n), n, -1, true, false);
                    break;
                }
                case REALLOC: {
                    int id = w->pick_live(o.a);
                    if(id >= 0) w->realloc_(id, 1 + (u64) o.b);
                    break;
                }
                case NEWZONE:
                    if(w->zone_count() < 20) w->zalloc(w->new_zone((u64) o.a % 65536 + 1));
                    break;
                case ZALLOC: {
                    int zi = w->pick_zone(o.a);
                    if(zi < 0) break;
                    for(int t = 0; t < 1 + (int) (o.b % 3) && !w->may_refuse(w->zones[zi]); t++) w->zalloc(zi);
                    break;
                }
                case NAMEZONE: {
                    int zi = w->pick_zone(o.a);
                    if(zi < 0) break;
                    char name[64];
                    snprintf(name, sizeof name, "zone %c%lld", (char) ('a' + o.b % 26), (long long) (o.c % 5));
                    u64 k = names()->calls;
                    int r = iso_alloc_name_zone(w->zones[zi].h, name);
#if NAMED_MAPPINGS
                    CHECK(names()->bad.empty(), "%s (naming a zone)", names()->bad.c_str());
                    CHECK(names()->calls > k, "naming a zone does not ask the system for it");
                    CHECK((r == 0) == !names()->refuse, "naming a zone gives %d although the system %s", r, names()->refuse ? "refused it" : "did it");
#else
                    CHECK(r == 0 && names()->calls == k, "naming a zone gives %d in a build without NAMED_MAPPINGS", r);
#endif
                    if(r == 0) {
                        if(given.count(zi)) cls(C_RENAMED);
                        given[zi] = name;
                        cls(C_NAMED);
                    }
                    memset(name, 'x', sizeof name - 1); // the caller's buffer is its own
                    look("after a zone was named");
                    break;
                }
                case FREE:
                case FREESIZE:
                case FREEPERM: {
                    int id = w->pick_live(o.a);
                    if(id < 0) break;
                    if(o.k == FREE) w->free_(id);
                    else if(o.k == FREESIZE) w->free_size(id, (int) o.b);
                    else w->free_perm(id);
                    break;
                }
                case DESTROYZONE: {
                    int zi = w->pick_zone(o.a);
                    if(zi < 0) break;
                    if(given.erase(zi)) cls(C_DESTROYED);
                    w->destroy_zone(zi);
                    look("after a zone was destroyed");
                    break;
                }
                case FLUSH: w->flush(); break;
                case VERIFY: iso_verify_zones(); break;
                case ROUND: { // until zones are retired
                    u64 n = 8000 + (u64) o.a % 190, calls = names()->calls;
                    for(int t = 0; t < 20000; t++) {
                        void *p = iso_alloc(n);
                        CHECK(p, "allocation failed");
                        iso_free(p);
                    }
                    w->flush();
                    w->add(iso_alloc(n), n, -1);
                    if(names()->calls != calls) cls(C_RETIRED);
                    look("after zones were retired");
                    break;
                }
                case CHURN: {
                    u64 n = o.a & 1 ? 30000 + (u64) o.a % 30000 : 65000;
                    std::vector<int> ids;
                    for(int t = 0; t < 200; t++) ids.push_back(w->add(iso_alloc(n), n, -1));
                    look("after zones were added");
                    for(size_t t = 0; t < ids.size(); t++)
                        if((t + (size_t) o.b) % 3) w->free_any(ids[t], (u64) o.b + t);
                    break;
                }
                case REFUSE: // from here on the system names nothing
                    names()->refuse = unsure = true;
                    cls(C_REFUSED);
                    break;
                case CHECKNOW: look("during the history"); break;
            }
        }
        at((int) c.ops.size());
        look("at the end");
        w->verify_all_slots();
        iso_verify_zones();
    }
};
int main(int argc, char **argv) {
    NamesCheck h;
    return run_main(h, argc, argv);
}
