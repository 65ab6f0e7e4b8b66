// objects.cpp - C28: C++ programs on the library, with the operators called by the compiler.
#define PBT_MAIN 1
#include "world.hpp"
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
using namespace pbt;
using namespace world;

// Everything of a case that lasts is kept here, outside the heap.
struct Obj {
    void *p;
    int type, form; // 0 scalar, 1 array, 2 through the base class, 3 unique_ptr, 4 shared_ptr
    u64 n, seed;
    alignas(16) unsigned char holder[64];
};
static Obj g_obj[600];
static int g_n;
static i64 g_alive; // objects constructed and not destroyed
static i64 g_throw = -1;
struct Boom {};
struct Base {
    virtual ~Base() {}
    virtual u64 size() const = 0;
    virtual unsigned char *bytes() = 0;
};
template <size_t N, size_t A> struct alignas(A) T {
    unsigned char b[N];
    T() {
        if(g_throw == 0) throw Boom();
        if(g_throw > 0) g_throw--;
        g_alive++;
    }
    ~T() { g_alive--; }
};
template <size_t N, size_t A> struct V : Base {
    alignas(A) unsigned char b[N];
    V() {
        if(g_throw == 0) throw Boom();
        if(g_throw > 0) g_throw--;
        g_alive++;
    }
    ~V() override { g_alive--; }
    u64 size() const override { return N; }
    unsigned char *bytes() override { return b; }
};
struct Type {
    u64 size, align;
    void *(*make)(int form, u64 n, bool nothrow, Obj *o);
    void (*destroy)(Obj *o);
};
template <size_t N, size_t A> static void *make(int form, u64 n, bool nothrow, Obj *o) {
    typedef T<N, A> X;
    switch(form) {
        case 0: return nothrow ? new(std::nothrow) X : new X;
        case 1: return nothrow ? new(std::nothrow) X[n] : new X[n];
        case 2: return static_cast<Base *>(nothrow ? new(std::nothrow) V<N, A> : new V<N, A>);
        case 3: {
            auto *u = new(o->holder) std::unique_ptr<X[]>(new X[n]);
            return u->get();
        }
        default: {
            auto *s = new(o->holder) std::shared_ptr<X>(std::make_shared<X>());
            return s->get();
        }
    }
}
template <size_t N, size_t A> static void destroy(Obj *o) {
    typedef T<N, A> X;
    switch(o->form) {
        case 0: delete(X *) o->p; break;
        case 1: delete[](X *) o->p; break;
        case 2: delete(Base *) o->p; break;
        case 3: ((std::unique_ptr<X[]> *) o->holder)->~unique_ptr(); break;
        default: ((std::shared_ptr<X> *) o->holder)->~shared_ptr();
    }
}
#define TY(n, a) {n, a, make<n, a>, destroy<n, a>}
static const Type TYPES[] = {TY(1, 1), TY(8, 8), TY(24, 8), TY(32, 32), TY(48, 16), TY(100, 4), TY(64, 64), TY(1000, 8), TY(1024, 1024), TY(520, 128), TY(4096, 4096), TY(5000, 8), TY(8192, 256),
                             TY(20, 2048), TY(65528, 8), TY(65536, 8), TY(65537, 1), TY(70000, 16), TY(200000, 64), TY(131072, 4096)};
static const int NT = sizeof TYPES / sizeof *TYPES;

enum K { MAKE, DROP, THROWS, HUGE, CONTAINER, STRINGS, CHECKALL, FUNCTION, NK };
static const char *NAMES[] = {"make", "drop", "constructor_throws", "impossible", "container", "strings", "check_all", "functions"};
enum C { C_SCALAR, C_ARRAY, C_BASE, C_UNIQUE, C_SHARED, C_OVERALIGNED, C_BIG, C_BOOM, C_BADALLOC, C_LENGTH, C_CONTAINER, NC };
static const char *CNAMES[] = {"scalar", "array", "through_base_class", "unique_ptr", "shared_ptr", "over_aligned", "large", "constructor_threw", "bad_alloc", "bad_array_length", "containers"};

struct Objects : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "objects of at least three types were made and destroyed while others lived"; }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(10, 120);
        for(int i = 0; i < n; i++) c.ops.push_back(Op{r.weighted({20, 14, 4, 3, 3, 2, 2, 2}), (i64) r.below(1 << 30), (i64) r.below(1 << 30), (i64) r.below(1 << 30)});
        return c;
    }
    static u64 bytes(const Obj &o) { return TYPES[o.type].size * (o.form == 1 || o.form == 3 ? o.n : 1); }
    static unsigned char *data(const Obj &o) { return o.form == 2 ? ((Base *) o.p)->bytes() : (unsigned char *) o.p; }
    static u64 stride(const Obj &o) { return 0; }
    // element by element, since an over-aligned type has padding
    static u64 elements(const Obj &o) { return o.form == 1 || o.form == 3 ? o.n : 1; }
    static u64 step(const Obj &o) {
        u64 a = TYPES[o.type].align, s = TYPES[o.type].size;
        return (s + a - 1) / a * a;
    }
    static void fill(Obj &o) {
        for(u64 i = 0; i < elements(o); i++) World::fill_range(data(o) + i * step(o), 0, TYPES[o.type].size, o.seed + i * 77);
    }
    static void verify(const Obj &o) {
        for(u64 i = 0; i < elements(o); i++) {
            i64 k = World::check_range(data(o) + i * step(o), 0, TYPES[o.type].size, o.seed + i * 77);
            CHECK(k < 0, "byte %lld of element %llu of %llu of %llu bytes changed (form %d)", (long long) k, (unsigned long long) i, (unsigned long long) elements(o), (unsigned long long) TYPES[o.type].size, o.form);
        }
        if(o.form == 2) CHECK(((Base *) o.p)->size() == TYPES[o.type].size, "an object changed its type");
    }
    static u64 held() {
        iso_flush_caches();
        return iso_alloc_detect_leaks();
    }
    u64 seedc = 1, total = 0;
    void execute(const Case &c) override {
        int kinds = 0;
        bool seen[NT] = {};
        bool among = false;
        // what libstdc++ keeps of its own (exception pool, locale) is made before counting
        try {
            throw Boom();
        } catch(...) {}
        const u64 before = held();
        const i64 a0 = g_alive;
        for(size_t i = 0; i < c.ops.size(); i++) {
            at((int) i);
            const Op &o = c.ops[i];
            int t = (int) ((u64) o.a % NT);
            u64 n = 1 + (u64) o.b % (TYPES[t].size > 1000 ? 4 : 60);
            int form = (int) ((u64) (o.c >> 1) % 5);
            switch(o.k) {
                case MAKE: {
                    if(g_n >= 600 || total + TYPES[t].size * n > (24ull << 20)) break;
                    Obj &x = g_obj[g_n];
                    x.type = t;
                    x.form = form;
                    x.n = n;
                    x.seed = ++seedc * 0x9E3779B97F4A7C15ull;
                    try {
                        x.p = TYPES[t].make(form, n, o.c & 1, &x);
                    } catch(const std::bad_alloc &) { fail("form %d of %llu objects of %llu bytes threw bad_alloc although memory is available", form, (unsigned long long) n, (unsigned long long) TYPES[t].size); }
                    CHECK(x.p != NULL, "form %d of %llu objects of %llu bytes returned null", form, (unsigned long long) n, (unsigned long long) TYPES[t].size);
                    CHECK((u64) data(x) % TYPES[t].align == 0, "an object of %llu bytes (form %d) is not aligned to %llu", (unsigned long long) TYPES[t].size, form, (unsigned long long) TYPES[t].align);
                    g_n++;
                    total += bytes(x);
                    fill(x);
                    if(!seen[t]) seen[t] = true, kinds++;
                    cls(form == 0 ? C_SCALAR : form == 1 ? C_ARRAY : form == 2 ? C_BASE : form == 3 ? C_UNIQUE : C_SHARED);
                    if(TYPES[t].align > 16) cls(C_OVERALIGNED);
                    if(bytes(x) > SMALL_MAX) cls(C_BIG);
                    break;
                }
                case DROP: {
                    if(!g_n) break;
                    int k = (int) ((u64) o.a % (u64) g_n);
                    Obj x;
                    verify(g_obj[k]);
                    total -= bytes(g_obj[k]);
                    TYPES[g_obj[k].type].destroy(&g_obj[k]);
                    g_obj[k] = g_obj[--g_n]; // unique_ptr and shared_ptr of these libraries are trivially relocatable
                    among |= g_n > 0;
                    break;
                }
                case THROWS: {
                    u64 h0 = held();
                    i64 l0 = g_alive;
                    g_throw = (i64) ((u64) o.b % (form == 1 || form == 3 ? n : 1));
                    bool thrown = false;
                    Obj x;
                    try {
                        void *p = TYPES[t].make(form, n, o.c & 1, &x);
                        (void) p;
                    } catch(const Boom &) {
                        thrown = true;
                    }
                    g_throw = -1;
                    CHECK(thrown, "an exception of a constructor was lost");
                    CHECK(g_alive == l0, "%lld objects are left over after a constructor threw", (long long) (g_alive - l0));
                    u64 h1 = held();
                    CHECK(h1 == h0, "after a constructor threw (form %d, %llu objects of %llu bytes) %lld blocks or bytes are still held", form, (unsigned long long) n, (unsigned long long) TYPES[t].size, (long long) (h1 - h0));
                    cls(C_BOOM);
                    break;
                }
                case HUGE: {
                    u64 h0 = held();
                    volatile u64 h = (u64) o.b % 3 == 0 ? (1ull << 62) : (u64) o.b % 3 == 1 ? (1ull << 40) : ~0ull;
                    int got = 0;
                    try {
                        if(o.c & 1) {
                            typedef T<24, 8> X;
                            X *p = new X[h];
                            got = p ? 3 : 0;
                        } else if(o.c & 2) {
                            std::vector<u64> v;
                            v.reserve(1ull << 40);
                            got = 3;
                        } else {
                            char *p = new(std::nothrow) char[1ull << 40];
                            got = p ? 3 : 4;
                        }
                    } catch(const std::bad_array_new_length &) {
                        got = 2;
                        cls(C_LENGTH);
                    } catch(const std::bad_alloc &) {
                        got = 1;
                        cls(C_BADALLOC);
                    } catch(const std::length_error &) { got = 2; }
                    CHECK(got != 3 && got != 0, "an impossible array was made");
                    u64 h1 = held();
                    CHECK(h1 == h0, "after an impossible request %lld blocks or bytes more are held", (long long) (h1 - h0));
                    break;
                }
                case CONTAINER: {
                    u64 h0 = held();
                    Rng r((u64) o.a * 31 + (u64) o.b);
                    {
                        std::map<u64, std::string> m;
                        std::list<std::vector<u64>> l;
                        std::deque<std::string> d;
                        std::unordered_map<std::string, std::shared_ptr<u64>> u;
                        u64 sum = 0, sum2 = 0;
                        for(u64 q = r.below(200); q-- > 0;) {
                            u64 v = r.next();
                            m[v] = std::string(v % 300, (char) v);
                            l.push_back(std::vector<u64>(v % 700, v));
                            if(v & 4) l.pop_front();
                            d.push_front(std::to_string(v));
                            if(v & 8) d.pop_back();
                            u[std::to_string(v % 50) + std::string(v % 40, 'k')] = std::make_shared<u64>(v);
                        }
                        for(auto &kv : m) CHECK(kv.second == std::string(kv.first % 300, (char) kv.first), "a string in a map changed");
                        for(auto &v : l)
                            for(u64 w : v) CHECK(w == v[0] && w % 700 == v.size(), "an element of a vector changed");
                        for(auto &s : d) CHECK(std::to_string(strtoull(s.c_str(), NULL, 10)) == s, "a string in a deque changed");
                        for(auto &kv : u) CHECK(std::to_string(*kv.second % 50) + std::string(*kv.second % 40, 'k') == kv.first, "an element of an unordered_map changed");
                    }
                    u64 h1 = held();
                    CHECK(h1 == h0, "after containers were destroyed %lld blocks or bytes more are held", (long long) (h1 - h0));
                    cls(C_CONTAINER);
                    break;
                }
                case STRINGS: {
                    u64 h0 = held();
                    {
                        std::string s;
                        u64 lim = (u64) o.a % 300000;
                        while(s.size() < lim) {
                            s += s;
                            s += "abcdefgh";
                            s.shrink_to_fit();
                            if(s.size() % 3 == 0) s.erase(s.size() / 2);
                            if(s.size() > 100 && s.size() % 7 == 0) s += std::string(5000, 'y');
                        }
                        std::vector<std::string> v(7, s);
                        v.insert(v.begin() + 3, "x");
                        for(size_t q = 0; q < v.size(); q++) CHECK(v[q] == (q == 3 ? "x" : s), "a copied string differs");
                    }
                    u64 h1 = held();
                    CHECK(h1 == h0, "after strings were destroyed %lld blocks or bytes more are held", (long long) (h1 - h0));
                    break;
                }
                case CHECKALL:
                    for(int k = 0; k < g_n; k++) verify(g_obj[k]);
                    iso_verify_zones();
                    break;
                case FUNCTION: {
                    u64 h0 = held();
                    {
                        char big[200];
                        memset(big, (int) o.a, sizeof big);
                        std::string s((u64) o.b % 100, 'c');
                        std::function<u64(u64)> f = [big, s](u64 x) { return x + s.size() + (unsigned char) big[199]; };
                        std::vector<std::function<u64(u64)>> fs(20, f);
                        for(auto &g : fs) CHECK(g(5) == 5 + s.size() + (u64) (unsigned char) o.a, "a copied function object differs");
                        std::variant<int, std::string, std::vector<int>> va = s;
                        va = std::vector<int>(300, 7);
                        CHECK(std::get<2>(va)[299] == 7, "a variant differs");
                        try {
                            throw std::vector<std::string>(10, s);
                        } catch(const std::vector<std::string> &e) { CHECK(e[9] == s, "a thrown object differs"); }
                    }
                    u64 h1 = held();
                    CHECK(h1 == h0, "after function objects were destroyed %lld blocks or bytes more are held", (long long) (h1 - h0));
                    break;
                }
            }
        }
        at(-1);
        bool nt = kinds >= 3 && among;
        for(int k = 0; k < g_n; k++) verify(g_obj[k]);
        while(g_n) TYPES[g_obj[--g_n].type].destroy(&g_obj[g_n]);
        CHECK(g_alive == a0, "%lld destructors did not run", (long long) (g_alive - a0));
        u64 after = held();
        CHECK(after == before, "after every object was destroyed %lld blocks or bytes more are held", (long long) (after - before));
        if(nt) nontrivial();
    }
};
int main(int argc, char **argv) {
    Objects h;
    return run_main(h, argc, argv);
}
