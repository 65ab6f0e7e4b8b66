// uaf.cpp - C34: stored pointers to freed chunks are replaced by the address of a page that faults,
// and nothing else in live memory ever changes.
#define PBT_MAIN 1
#include "world.hpp"
#include <sys/wait.h>
using namespace pbt;
using namespace world;

enum K { ALLOC, ZONE, ZALLOC, STORE, FREE, FREESIZE, FREEZONE, FREEPERM, REALLOC, FLUSH, CHASE, USE, VERIFY, DESTROYZONE, NK };
static const char *NAMES[] = {"alloc", "zone", "zalloc", "store", "free", "freesize", "freezone", "freeperm", "realloc", "flush", "chase", "use", "verify", "destroyzone"};
enum C { C_STORED, C_DANGLING, C_POISONED, C_CHASED, C_USED, C_SPARED, C_REUSED, C_OTHERFAULT, C_UNALIGNED, C_NEAR, NC };
static const char *CNAMES[] = {"pointers_stored", "stored_pointers_made_dangling", "pointers_poisoned", "pointer_poisoned_in_the_end", "poisoned_pointer_used", "pointer_to_live_chunk_spared", "address_in_use_again", "other_fault_reported", "stored_unaligned", "values_one_bit_away_spared"};

struct Cell {
    u64 off, val;
    bool poisoned;
};
struct Uaf : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "a stored pointer dangled and a pointer was poisoned"; }
    int timeout_s() const override { return 150; }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(10, 60);
        int zones = 0;
        for(int i = 0; i < n; i++) {
            int k = r.weighted({10, 1, 4, 16, 5, 7, 4, 1, 2, 2, 1, 3, 1, 1});
            if(k == ZONE && ++zones > 2) k = ALLOC;
            i64 a = (i64) r.below(1u << 30);
            if(k == ALLOC || k == ZONE) a = 16 + (i64) r.below(r.chance(1, 6) ? 60000 : r.chance(1, 2) ? 200 : 2500);
            if(k == ALLOC && r.chance(1, 20)) a = 70000 + (i64) r.below(100000);
            if(k == REALLOC) a = 1 + (i64) r.below(6000);
            c.ops.push_back(Op{k, a, (i64) r.below(1u << 30), (i64) r.below(1u << 20)});
        }
        return c;
    }
    std::map<int, std::vector<Cell>> cells; // by slot
    u64 poison = 0;
    bool dangled = false, poisoned_any = false;

    // The live memory as the model knows it, given the addresses freed by the last call.
    void look(World &w, const std::set<u64> &released) {
        for(int id : w.live) {
            Slot &s = w.slots[id];
            auto it = cells.find(id);
            if(it == cells.end()) {
                w.verify(s);
                continue;
            }
            unsigned char *b = (unsigned char *) s.p;
            u64 at = 0;
            std::vector<Cell> &v = it->second;
            std::sort(v.begin(), v.end(), [](const Cell &x, const Cell &y) { return x.off < y.off; });
            for(Cell &c : v) {
                i64 bad = World::check_range(b, at, c.off, s.seed);
                CHECK(bad < 0, "byte %lld of a live block changed although it belongs to no stored pointer", (long long) bad);
                at = c.off + 8;
                u64 now;
                memcpy(&now, b + c.off, 8);
                if(now == c.val) {
                    if(!released.count(c.val)) cls(C_SPARED);
                    continue;
                }
                CHECK(!c.poisoned, "a pointer that was replaced by %#llx before changed to %#llx", (unsigned long long) c.val, (unsigned long long) now);
                CHECK(released.count(c.val), "a stored pointer changed from %#llx to %#llx although no chunk at that address has just been freed", (unsigned long long) c.val, (unsigned long long) now);
                CHECK(!poison || now == poison || (now >> 12) == (poison >> 12), "two different pages replace pointers");
                CHECK(!readable((void *) now) && !writable((void *) now) && !readable((void *) (now | 4095)) && !readable((void *) (now & ~4095ull)), "a stored pointer was replaced by the accessible address %#llx", (unsigned long long) now);
                bool mapped = false;
                for(auto &m : maps()) mapped |= now >= m.lo && now < m.hi;
                CHECK(mapped, "a stored pointer was replaced by %#llx, which is not reserved and may come into use", (unsigned long long) now);
                poison = now;
                c.val = now;
                c.poisoned = true;
                cls(C_POISONED);
                poisoned_any = true;
            }
            i64 bad = World::check_range(b, at, s.usable > 131072 ? 512 : s.usable, s.seed);
            CHECK(bad < 0, "byte %lld of a live block changed although it belongs to no stored pointer", (long long) bad);
        }
        if(dangled && poisoned_any) nontrivial();
    }
    void store(World &w, int id, u64 off, u64 val) {
        Slot &s = w.slots[id];
        std::vector<Cell> &v = cells[id];
        for(Cell &c : v)
            if(off < c.off + 8 && c.off < off + 8) return;
        memcpy((void *) (s.p + off), &val, 8);
        v.push_back(Cell{off, val, false});
        cls(C_STORED);
        if(off & 7) cls(C_UNALIGNED);
    }
    // What the model's own checks would complain about: stored pointers are set back before a block goes away.
    void clean(World &w, int id) {
        Slot &s = w.slots[id];
        for(Cell &c : cells[id]) World::fill_range((unsigned char *) s.p, c.off, c.off + 8, s.seed);
        cells.erase(id);
    }
    std::set<u64> pending(World &w) {
        std::set<u64> s;
        for(auto &q : w.pending) s.insert(q.lo);
        return s;
    }
    std::set<u64> gone(World &w, const std::set<u64> &before) { // pending before, no longer so
        std::set<u64> r = before;
        for(auto &q : w.pending) r.erase(q.lo);
        return r;
    }
    static std::string report_of(u64 addr, bool wr, int &st) {
        int p[2];
        CHECK(pipe(p) == 0, "pipe");
        fflush(stdout);
        pid_t pid = fork();
        if(pid == 0) {
            dup2(p[1], 1);
            dup2(p[1], 2);
            close(p[0]);
            alarm(20);
            if(wr) *(volatile char *) addr = 1;
            else (void) *(volatile char *) addr;
            _exit(9);
        }
        close(p[1]);
        std::string out;
        char b[4096];
        ssize_t n;
        while((n = read(p[0], b, sizeof b)) > 0) out.append(b, (size_t) n);
        close(p[0]);
        while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        std::string t; // without numbers
        for(char ch : out)
            if(!isxdigit((unsigned char) ch)) t += ch;
        return t;
    }
    void execute(const Case &c) override {
        World w(c.entropy);
        w.f.perm = true;
        w.f.quarantine = true;
        iso_alloc_initialize();
        void *wild = mmap(NULL, 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        int chases = 0;
        for(size_t i = 0; i < c.ops.size(); i++) {
            const Op &o = c.ops[i];
            at((int) i);
            std::set<u64> before = pending(w), released;
            switch(o.k) {
                case ALLOC:
                    if(w.live.size() < 80) w.alloc((u64) o.a < 8 ? 8 : (u64) o.a);
                    break;
                case ZONE:
                    if(w.zones.size() < 3) w.new_zone(16 + (u64) o.a % 60000);
                    break;
                case ZALLOC: {
                    int zi = w.pick_zone(o.a);
                    if(zi >= 0 && !w.may_refuse(w.zones[zi])) w.zalloc(zi);
                    break;
                }
                case STORE: {
                    int h = w.pick_live(o.a), t = w.pick_live(o.b);
                    if(h < 0 || w.slots[h].usable < 8) break;
                    u64 off = (u64) o.c % (w.slots[h].usable - 7);
                    if(o.c % 4) off &= ~7ull;
                    if(w.slots[h].usable > 131072 && off > 504) off = (u64) o.c % 63 * 8; // where the model has written
                    u64 v = w.slots[t].p;
                    switch((o.c >> 8) % 8) {
                        case 0: v += w.slots[t].usable; break;               // past the end: another chunk or none
                        case 1: v = ~v; break;
                        case 2: v &= 0xffffffff; break;
                        case 3: v ^= 1ull << (16 + o.c % 40); break;
                        default: break;
                    }
                    store(w, h, off, v);
                    break;
                }
                case FREE:
                case FREESIZE:
                case FREEZONE:
                case FREEPERM: {
                    int id = w.pick_live(o.a);
                    if(id < 0) break;
                    if(o.c & 3) { // one that something points to
                        std::vector<int> t;
                        for(auto &x : cells)
                            for(auto &y : x.second) {
                                auto it = w.iv.find(y.val);
                                if(it != w.iv.end() && it->second != x.first) t.push_back(it->second);
                            }
                        if(!t.empty()) id = t[(u64) o.b % t.size()];
                    }
                    clean(w, id);
                    Slot s = w.slots[id];
                    for(auto &x : cells)
                        for(auto &y : x.second)
                            if(y.val == s.p) {
                                cls(C_DANGLING);
                                dangled = true;
                            }
                    if(o.k == FREE) w.free_(id);
                    else if(o.k == FREESIZE) w.free_size(id, 1);
                    else if(o.k == FREEZONE) w.free_zone(id);
                    else w.free_perm(id);
                    if(o.k != FREE) released.insert(s.p);
                    break;
                }
                case REALLOC: {
                    int id = w.pick_live(o.b);
                    if(id < 0) break;
                    clean(w, id);
                    Slot s = w.slots[id];
                    w.realloc_(id, (u64) o.a + 1);
                    released.insert(s.p);
                    break;
                }
                case FLUSH: w.flush(); break;
                case DESTROYZONE: {
                    int zi = w.pick_zone(o.a);
                    if(zi < 0) break;
                    for(int id : std::vector<int>(w.live))
                        if(w.slots[id].zone == zi) clean(w, id);
                    w.destroy_zone(zi);
                    break;
                }
                case VERIFY: iso_verify_zones(); break;
                case CHASE: { // a program that keeps pointers it has freed
                    if(chases++ >= 2) break;
                    bool hit = false;
                    const bool near = o.c & 2; // values one bit away come before the pointer itself
                    int h = w.alloc((near ? 600 : 64) + (u64) o.a % 400);
                    for(int t = 0; t < 250 && !hit; t++) {
                        int id = w.alloc(16 + (u64) o.b % 3000);
                        u64 p = w.slots[id].p, off = (near ? 512 : 0) + (u64) (t % 8) * 8;
                        cells.erase(h);
                        w.fill(w.slots[h]);
                        for(int k = 0; near && k < 64; k++) store(w, h, (u64) k * 8, p ^ (1ull << ((k + t) & 63)));
                        store(w, h, off, p);
                        if(near) cls(C_NEAR);
                        before = pending(w);
                        if(o.c & 1) w.free_size(id, 1);
                        else {
                            w.free_(id);
                            w.flush();
                        }
                        dangled = true;
                        released = gone(w, before);
                        released.insert(p);
                        look(w, released);
                        for(Cell &x : cells[h])
                            if(x.off == off) hit = x.poisoned;
                    }
                    CHECK(hit, "a pointer to a freed chunk was stored 250 times and never replaced");
                    cls(C_CHASED);
                    before.clear();
                    released.clear();
                    break;
                }
                case USE: {
                    u64 q = 0;
                    for(auto &x : cells)
                        for(auto &y : x.second)
                            if(y.poisoned) q = y.val;
                    if(!q) break;
                    u64 off = (u64) o.a % 4096;
                    if(((q + off) >> 12) != (q >> 12)) off = 0;
                    int st, st2;
                    std::string rep = report_of(q + off, o.b & 1, st);
#if SIGNAL_HANDLER
                    CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "using a replaced pointer ends the process with status %#x and not by the handler", st);
                    CHECK(!rep.empty(), "the use of a replaced pointer is not reported");
                    std::string other = report_of((u64) wild + 32768 + off, o.b & 1, st2);
                    CHECK(WIFSIGNALED(st2) && WTERMSIG(st2) == SIGABRT && !other.empty(), "another fault ends with status %#x or without a report", st2);
                    CHECK(rep != other, "the use of a replaced pointer is reported like any other fault: %s", rep.c_str());
                    cls(C_OTHERFAULT);
#else
                    (void) st2;
                    CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV, "using a replaced pointer ends with status %#x", st);
#endif
                    cls(C_USED);
                    break;
                }
            }
            std::set<u64> g = gone(w, before);
            released.insert(g.begin(), g.end());
            for(int id : w.live)
                if(released.count(w.slots[id].p)) cls(C_REUSED);
            look(w, released);
        }
        iso_verify_zones();
        look(w, std::set<u64>());
    }
};
int main(int argc, char **argv) {
    Uaf h;
    return run_main(h, argc, argv);
}
