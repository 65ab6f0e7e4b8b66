// uninit.cpp - C41: with UNINIT_READ_SANITY the first access to a sampled allocation decides: a read
// terminates the process, a write makes it an ordinary allocation for good.
#define PBT_MAIN 1
#include "world.hpp"
#include <atomic>
#include <fcntl.h>
#include <linux/userfaultfd.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <thread>
using namespace pbt;
using namespace world;

enum K { RAW, WRITE, PAR, FREE, FREEW, READ, PARREAD, CALLOC, STR, ALLOC, REALLOC, REFREE, BURST, LOOK, FLUSH, VERIFYALL, BIG, NEWZONE, ZALLOC, NK };
static const char *NAMES[] = {"raw", "write", "par", "free", "freew", "read", "parread", "calloc", "str", "alloc", "realloc", "refree", "burst", "look", "flush", "verify", "big", "newzone", "zalloc"};
enum C { C_UNTOUCHED, C_READ, C_READ_THREAD, C_WRITTEN, C_PAR, C_FREE_UNTOUCHED, C_FREE_WRITTEN, C_CALLOC, C_STR, C_RESIZED, C_RIGHT, C_LEFT, C_FREE_PAR, C_FULL, NC };
static const char *CNAMES[] = {"sampled_and_untouched", "read_first", "read_first_in_a_thread", "written_first", "written_first_by_several_threads", "freed_untouched", "freed_after_writing", "sampled_calloc",
                               "sampled_string", "sample_resized", "placed_at_page_end", "placed_at_page_start", "freed_right_after_several_threads_wrote", "nearly_a_page"};

static bool available() {
    static int a = -1;
    if(a < 0) {
        int fd = (int) syscall(__NR_userfaultfd, O_CLOEXEC | O_NONBLOCK | UFFD_USER_MODE_ONLY);
        struct uffdio_api api;
        memset(&api, 0, sizeof api);
        api.api = UFFD_API;
        api.features = UFFD_FEATURE_THREAD_ID;
        a = fd >= 0 && ioctl(fd, UFFDIO_API, &api) == 0;
        if(fd >= 0) close(fd);
    }
    return a == 1;
}

struct Uninit : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "at least one allocation was a sampled page whose first access or release was observed"; }
    int timeout_s() const override { return 20; }

    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(10, 90);
        for(int i = 0; i < n; i++) {
            int k = r.weighted({40, 16, 6, 10, 10, 0, 0, 6, 4, 8, 6, 10, 4, 4, 2, 1, 1, 1, 4});
            Op o{k, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below(1 << 20)};
            if(k == RAW || k == CALLOC || k == ALLOC || k == REALLOC || k == BURST || k == STR) o.a = (i64) (r.chance(2, 3) ? 1 + r.below(4090) : r.chance(1, 2) ? 1 + r.below(200) : 4000 + r.below(200));
            c.ops.push_back(o);
        }
        if(r.chance(1, 2)) c.ops.push_back(Op{r.chance(2, 3) ? READ : PARREAD, (i64) r.below(1 << 20), (i64) r.below(1 << 20), (i64) r.below(1 << 20)});
        return c;
    }

    struct Raw { // a sample nobody has touched
        u64 p, req, usable, page;
        bool right;
    };
    std::vector<Raw> raws;
    std::map<u64, u64> pages;      // all samples, address to page
    std::map<u64, u64> areas;      // zone memory
    u64 seen;

    bool in_zone(u64 p) {
        auto it = areas.upper_bound(p);
        if(it == areas.begin()) return false;
        --it;
        return p < it->second;
    }
    // The page of a sample, or 0; never touches the memory.
    u64 page_of(u64 p, u64 usable) {
        if(usable > 4096 || in_zone(p)) return 0;
        u64 page = p & ~(PAGE - 1);
        if(!readable((void *) (page - 1)) && !readable((void *) (page + PAGE))) {
            for(const Mapping &m : maps())
                if(p >= m.lo && p < m.hi) {
                    CHECK(m.lo == page && m.hi == page + PAGE, "an allocation of %llu bytes lies in a mapping of %llu bytes between inaccessible pages", (unsigned long long) usable, (unsigned long long) (m.hi - m.lo));
                    return page;
                }
            fail("an allocation of %llu bytes is not mapped", (unsigned long long) usable);
        }
        for(const Mapping &m : maps())
            if(p >= m.lo && p < m.hi) areas[m.lo] = m.hi;
        return 0;
    }
    void raw(World &w, u64 n) {
        u64 p = (u64) iso_alloc(n);
        CHECK(p != 0, "iso_alloc(%llu) returned NULL", (unsigned long long) n);
        u64 usable = iso_chunksz((void *) p);
        CHECK(usable >= n, "iso_alloc(%llu) holds %llu bytes", (unsigned long long) n, (unsigned long long) usable);
        u64 page = page_of(p, usable);
        if(!page) {
            w.add((void *) p, n, -1, true, false);
            return;
        }
        CHECK(p + usable <= page + PAGE, "a sample of %llu bytes is at offset %llu of its page", (unsigned long long) usable, (unsigned long long) (p - page));
        for(const Raw &x : raws) CHECK(x.page != page, "two samples share a page");
        for(int id : w.live) CHECK((w.slots[id].p & ~(PAGE - 1)) != page, "a sample shares its page with a live allocation");
        raws.push_back(Raw{p, n, usable, page, p != page});
        cls(C_UNTOUCHED);
        cls(p != page ? C_RIGHT : C_LEFT);
        if(usable > 3900) cls(C_FULL);
    }
    // First write of a sample at one place; then it is a live allocation like any other.
    void adopt(World &w, const Raw &x) {
        int id = w.add((void *) x.p, x.req, -1, true, false);
        pages[w.slots[id].p] = x.page;
        seen++;
    }
    void write(World &w, size_t i, u64 where, u64 n) {
        Raw x = raws[i];
        raws.erase(raws.begin() + (long) i);
        volatile unsigned char *q = (unsigned char *) x.p;
        where %= x.usable;
        n = 1 + n % 16;
        for(u64 k = 0; k < n && where + k < x.usable; k++) q[where + k] = (unsigned char) (k * 7 + 3);
        for(u64 k = 0; k < n && where + k < x.usable; k++) CHECK(q[where + k] == (unsigned char) (k * 7 + 3), "the first write to a sample was lost");
        // now all of it can be read
        unsigned s = 0;
        for(u64 k = 0; k < x.usable; k++) s += q[k];
        (void) s;
        for(u64 k = 0; k < n && where + k < x.usable; k++) CHECK(q[where + k] == (unsigned char) (k * 7 + 3), "the first write to a sample was lost");
        cls(C_WRITTEN);
        adopt(w, x);
    }
    // Several threads write their own part of a sample first and read it back.
    void par(World &w, size_t i, int n, bool release) {
        Raw x = raws[i];
        raws.erase(raws.begin() + (long) i);
        if((u64) n > x.usable) n = (int) x.usable;
        u64 part = x.usable / (u64) n;
        std::atomic<int> go{0}, bad{0};
        std::vector<std::thread> ts;
        for(int t = 0; t < n; t++)
            ts.emplace_back([&, t] {
                go++;
                while(go.load() < n) {}
                volatile unsigned char *q = (unsigned char *) x.p + part * (u64) t;
                for(u64 k = 0; k < part; k++) q[k] = (unsigned char) (t * 31 + (int) k);
                for(u64 k = 0; k < part; k++)
                    if(q[k] != (unsigned char) (t * 31 + (int) k)) bad++;
            });
        for(auto &t : ts) t.join();
        CHECK(bad == 0, "%d bytes that several threads wrote to a sample are lost", bad.load());
        cls(C_PAR);
        seen++;
        if(release) {
            iso_free((void *) x.p);
            cls(C_FREE_PAR);
            CHECK(!readable((void *) x.page), "a freed sample is still accessible");
        } else adopt(w, x);
    }
    void release(u64 p, u64 usable, u64 req, u64 page, u64 how) {
        switch(how % 4) {
            case 0: iso_free((void *) p); break;
            case 1: iso_free_size((void *) p, (how & 4) ? usable : req); break;
            case 2: iso_free_permanently((void *) p); break;
            default: CHECK(iso_realloc((void *) p, 0) == NULL, "resizing to zero returned a pointer");
        }
        bool there = false;
        for(const Mapping &m : maps()) there |= page >= m.lo && page < m.hi;
        CHECK(!there || !readable((void *) page), "a freed sample of %llu bytes is still accessible", (unsigned long long) usable);
        seen++;
    }
    int pick_sample(World &w, u64 a) {
        std::vector<int> v;
        for(int id : w.live)
            if(pages.count(w.slots[id].p)) v.push_back(id);
        return v.empty() ? -1 : v[a % v.size()];
    }
    void note(World &w, int id) {
        Slot &s = w.slots[id];
        pages.erase(s.p);
        u64 page = page_of(s.p, s.usable);
        if(page) pages[s.p] = page;
    }
    void execute(const Case &c) override {
        if(!available()) return; // the system does not offer what the feature needs
        World w(c.entropy);
        iso_alloc_initialize();
        raws.clear();
        pages.clear();
        areas.clear();
        seen = 0;
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            u64 n = o.a < 1 ? 1 : (u64) o.a;
            u64 b = (u64) o.b, cc = (u64) o.c;
            switch(o.k) {
                case RAW:
                    if(raws.size() + pages.size() < 300) raw(w, n);
                    break;
                case BURST:
                    for(u64 k = 0; k < 5 + b % 20 && raws.size() + pages.size() < 300; k++) raw(w, n);
                    break;
                case WRITE:
                    if(!raws.empty()) write(w, n % raws.size(), (b & 1) ? ((b & 2) ? 0 : ~0ull) : b >> 2, cc);
                    break;
                case PAR:
                    if(!raws.empty()) par(w, n % raws.size(), 2 + (int) (b % 6), cc & 1);
                    break;
                case FREE:
                    if(!raws.empty()) {
                        size_t k = n % raws.size();
                        Raw x = raws[k];
                        raws.erase(raws.begin() + (long) k);
                        release(x.p, x.usable, x.req, x.page, b);
                        cls(C_FREE_UNTOUCHED);
                    }
                    break;
                case FREEW:
                case REFREE: {
                    int id = pick_sample(w, n);
                    if(id < 0) break;
                    Slot s = w.slots[id];
                    w.verify(s);
                    u64 page = pages[s.p];
                    w.forget(id);
                    pages.erase(s.p);
                    release(s.p, s.usable, s.req ? s.req : 1, page, b);
                    cls(C_FREE_WRITTEN);
                    break;
                }
                case CALLOC: {
                    if(n > 4090) break;
                    int id = w.calloc_(1, n);
                    note(w, id);
                    if(pages.count(w.slots[id].p)) cls(C_CALLOC), seen++;
                    break;
                }
                case STR: {
                    std::string t((size_t) n % 4090, (char) ('a' + b % 26));
                    char *q = (cc & 1) ? iso_strdup(t.c_str()) : iso_strndup(t.c_str(), t.size() + 5);
                    CHECK(q != NULL && strcmp(q, t.c_str()) == 0, "string duplicate of %zu characters differs", t.size());
                    int id = w.add(q, t.size() + 1, -1, true, false);
                    note(w, id);
                    if(pages.count(w.slots[id].p)) cls(C_STR), seen++;
                    break;
                }
                case ALLOC: note(w, w.alloc(n)); break;
                case REALLOC: {
                    int id = pick_sample(w, b);
                    if(id < 0 || (cc & 3) == 0) id = w.pick_live((i64) b);
                    if(id < 0) break;
                    u64 old = w.slots[id].p;
                    bool was = pages.count(old) != 0;
                    int nid = w.realloc_(id, n);
                    pages.erase(old);
                    note(w, nid);
                    if(was || pages.count(w.slots[nid].p)) cls(C_RESIZED), seen++;
                    break;
                }
                case LOOK: {
                    int id = pick_sample(w, n);
                    if(id >= 0) w.verify(w.slots[id]);
                    for(const Raw &x : raws) CHECK(iso_chunksz((void *) x.p) == x.usable, "the usable size of an untouched sample changed");
                    break;
                }
                case FLUSH: w.flush(); break;
                case VERIFYALL: iso_verify_zones(); break;
                case BIG:
                    if(w.live_bytes < (16u << 20)) w.alloc(100000 + n);
                    break;
                case NEWZONE:
                    if(w.zone_count() < 4) w.new_zone(1 + n % 4000);
                    break;
                case ZALLOC: {
                    int z = w.pick_zone((i64) n);
                    if(z < 0) break;
                    int id = w.zalloc(z);
                    if(id < 0) break;
                    note(w, id);
                    CHECK(!pages.count(w.slots[id].p), "a private zone's chunk is a sampled page");
                    break;
                }
                case READ:
                case PARREAD: {
                    for(int k = 0; k < 120 && raws.empty(); k++) raw(w, 1 + n % 4000);
                    CHECK(!raws.empty(), "not one of 120 allocations was sampled where one in three should be");
                    Raw x = raws[n % raws.size()];
                    volatile unsigned char *q = (unsigned char *) x.p + ((b & 1) ? ((b & 2) ? x.usable - 1 : 0) : (b >> 2) % x.usable);
                    nontrivial();
                    cls(o.k == READ ? C_READ : C_READ_THREAD);
                    expect_signal(SIGABRT);
                    if(o.k == READ) (void) *q;
                    else {
                        std::thread t([&] { (void) *q; });
                        t.join();
                    }
                    expect_none();
                    fail("reading byte %llu of a sample of %llu bytes that nobody has written was not detected", (unsigned long long) ((u64) q - x.p), (unsigned long long) x.usable);
                }
            }
        }
        at((int) c.ops.size());
        w.verify_all_slots();
        if(seen) nontrivial();
    }
};
int main(int argc, char **argv) {
    Uninit h;
    return run_main(h, argc, argv);
}
