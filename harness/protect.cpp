// protect.cpp - C30: while the root is protected no call completes, and afterwards nothing has changed.
#define PBT_MAIN 1
#include "world.hpp"
#include <errno.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <sys/wait.h>
using namespace pbt;
using namespace world;

enum K { ALLOC, FREE, BIG, NEWZONE, ZALLOC, DESTROY, REALLOC, FLUSH, VERIFY, LEAKS, WINDOW, NK };
static const char *NAMES[] = {"alloc", "free", "alloc_large", "new_zone", "zone_alloc", "destroy_zone", "realloc", "flush", "verify", "leaks", "window"};
enum A { A_ALLOC, A_BIG, A_CALLOC, A_REALLOC, A_REALLOCARRAY, A_FREE, A_FREESIZE, A_FREEPERM, A_CHUNKSZ, A_STRDUP, A_STRNDUP, A_ZALLOC, A_NEWZONE, A_DESTROYZONE, A_ZCOUNT, A_LEAKS, A_ZLEAKS, A_USAGE, A_ZUSAGE,
         A_VERIFY, A_ZVERIFY, A_FLUSH, A_PROTECT, A_DESTROY, A_ZERO, A_REALLOC0, A_FREEZONE, A_ZSTRDUP, NA };
static const char *ANAMES[] = {"iso_alloc", "iso_alloc of a large block", "iso_calloc", "iso_realloc", "iso_reallocarray", "iso_free", "iso_free_size", "iso_free_permanently", "iso_chunksz", "iso_strdup", "iso_strndup",
                               "iso_alloc_from_zone", "iso_alloc_new_zone", "iso_alloc_destroy_zone", "iso_zone_chunk_count", "iso_alloc_detect_leaks", "iso_alloc_detect_zone_leaks", "iso_alloc_mem_usage",
                               "iso_alloc_zone_mem_usage", "iso_verify_zones", "iso_verify_zone", "iso_flush_caches", "iso_alloc_protect_root", "iso_alloc_destroy", "iso_alloc(0)", "iso_realloc to 0", "iso_free_from_zone", "iso_strdup_from_zone"};
enum C { C_FAULT, C_BLOCK, C_TFAULT, C_TWAIT, C_WINDOWS, C_THREADS, C_DIFF, NC };
static const char *CNAMES[] = {"same_thread_faulted", "same_thread_blocked", "other_thread_faulted", "other_thread_waited_and_finished", "windows", "windows_with_threads", "compared_with_unprotected_run"};

struct Args {
    int kind = 0;
    void *p = NULL, *zone = NULL;
    u64 n = 0;
};
static void *call(const Args &a) {
    switch(a.kind) {
        case A_ALLOC: case A_BIG: return iso_alloc(a.n);
        case A_CALLOC: return iso_calloc(1, a.n);
        case A_REALLOC: return iso_realloc(a.p, a.n);
        case A_REALLOCARRAY: return iso_reallocarray(a.p, 1, a.n);
        case A_FREE: iso_free(a.p); break;
        case A_FREESIZE: iso_free_size(a.p, a.n); break;
        case A_FREEPERM: iso_free_permanently(a.p); break;
        case A_CHUNKSZ: return (void *) iso_chunksz(a.p);
        case A_STRDUP: return iso_strdup("while the root is protected");
        case A_STRNDUP: return iso_strndup("while the root is protected", 9);
        case A_ZALLOC: return iso_alloc_from_zone(a.zone);
        case A_NEWZONE: return iso_alloc_new_zone(a.n);
        case A_DESTROYZONE: iso_alloc_destroy_zone(a.zone); break;
        case A_ZCOUNT: return (void *) iso_zone_chunk_count(a.zone);
        case A_LEAKS: return (void *) iso_alloc_detect_leaks();
        case A_ZLEAKS: return (void *) iso_alloc_detect_zone_leaks(a.zone);
        case A_USAGE: return (void *) iso_alloc_mem_usage();
        case A_ZUSAGE: return (void *) iso_alloc_zone_mem_usage(a.zone);
        case A_VERIFY: iso_verify_zones(); break;
        case A_ZVERIFY: iso_verify_zone(a.zone); break;
        case A_FLUSH: iso_flush_caches(); break;
        case A_PROTECT: iso_alloc_protect_root(); break;
        case A_DESTROY: iso_alloc_destroy(); break;
        case A_ZERO: return iso_alloc(0);
        case A_REALLOC0: return iso_realloc(a.p, 0);
        case A_FREEZONE: iso_free_from_zone(a.p, a.zone); break;
        case A_ZSTRDUP: return iso_strdup_from_zone(a.zone, "zone");
    }
    return NULL;
}
static __thread sigjmp_buf g_env;
static __thread volatile int g_in;
static void on_signal(int s) {
    if(!g_in) {
        if(s == SIGUSR1) return;
        signal(s, SIG_DFL);
        return;
    }
    g_in = 0;
    siglongjmp(g_env, s == SIGUSR1 ? 2 : 1);
}
static timer_t g_timer;
static void timer_set(long ms) {
    struct itimerspec t = {};
    t.it_value.tv_nsec = ms * 1000000;
    t.it_interval = t.it_value;
    timer_settime(g_timer, 0, &t, NULL);
}
// 0: completed, 1: faulted, 2: blocked
static int attempt(const Args &a, bool timed, void **result) {
    int k = sigsetjmp(g_env, 1);
    if(k) {
        if(timed) timer_set(0);
        return k;
    }
    g_in = 1;
    if(timed) {
        timer_set(12);
    }
    void *r = call(a);
    g_in = 0;
    if(timed) {
        timer_set(0);
    }
    if(result) *result = r;
    return 0;
}
struct Worker {
    pthread_t t;
    Args a;
    int id = -1; // of the block it works on
    void *result = NULL;
    volatile int state = 3; // 3: not over
};
static void *worker(void *v) {
    Worker *w = (Worker *) v;
    sigset_t s;
    sigemptyset(&s);
    sigaddset(&s, SIGUSR1);
    pthread_sigmask(SIG_BLOCK, &s, NULL);
    int k = attempt(w->a, false, &w->result);
    __atomic_store_n(&w->state, k, __ATOMIC_SEQ_CST);
    return NULL;
}

struct Protect : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "calls were attempted in at least one protected window and the history went on afterwards"; }
    bool diff() const { return g_opt.extra == "diff"; }
    bool threads() const { return g_opt.extra == "threads"; }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(8, 90);
        for(int i = 0; i < n; i++) {
            Op o{r.weighted({20, 14, 4, 2, 8, 1, 4, 2, 1, 2, 8}), (i64) (r.chance(1, 4) ? gen_small_size(r) : 1 + r.below(3000)), (i64) r.below(1 << 30), (i64) r.below(1 << 30)};
            if(o.k == BIG) o.a = 65537 + (i64) r.below(400000);
            if(o.k == ALLOC && r.chance(1, 3)) o.b = (i64) r.range(1, 40); // many at once
            else if(o.k == ALLOC) o.b = 1;
            c.ops.push_back(o);
        }
        return c;
    }
    std::vector<u64> log; // everything the calls outside windows returned
    bool windows = true;
    int nwin = 0, after = 0;

    Args choose(World &w, u64 a, u64 b, int *id, bool thread) {
        Args x;
        *id = -1;
        x.kind = (int) (a % NA);
        if(thread) {
            static const int K[] = {A_ALLOC, A_BIG, A_CALLOC, A_REALLOC, A_FREE, A_FREESIZE, A_CHUNKSZ, A_ZALLOC, A_NEWZONE, A_LEAKS, A_STRDUP, A_VERIFY, A_FLUSH, A_USAGE, A_FREEPERM, A_ZLEAKS};
            x.kind = K[a % (sizeof K / sizeof *K)];
        }
        if(diff() && (x.kind == A_FLUSH || x.kind == A_DESTROYZONE)) x.kind = A_ALLOC; // may empty the calling thread's zone cache before they wait
        x.n = x.kind == A_BIG ? 70000 + b % 100000 : x.kind == A_NEWZONE ? 16ull << (b % 8) : 1 + b % 4000;
        int z = w.pick_zone((i64) (b >> 7));
        bool needz = x.kind == A_ZALLOC || x.kind == A_DESTROYZONE || x.kind == A_ZCOUNT || x.kind == A_ZLEAKS || x.kind == A_ZUSAGE || x.kind == A_ZVERIFY || x.kind == A_ZSTRDUP;
        bool needp = x.kind == A_REALLOC || x.kind == A_REALLOCARRAY || x.kind == A_FREE || x.kind == A_FREESIZE || x.kind == A_FREEPERM || x.kind == A_CHUNKSZ || x.kind == A_REALLOC0 || x.kind == A_FREEZONE;
        if(needz) {
            if(z < 0) x.kind = A_LEAKS;
            else x.zone = w.zones[(size_t) z].h, x.n = (u64) z;
        }
        if(needp) {
            *id = w.pick_live((i64) (b >> 5));
            if(*id >= 0 && x.kind == A_FREEZONE && w.slots[(size_t) *id].zone < 0) x.kind = A_FREE;
            if(*id < 0) x.kind = A_ALLOC;
            else {
                x.p = (void *) w.slots[(size_t) *id].p;
                if(x.kind == A_FREEZONE) x.zone = w.zones[(size_t) w.slots[(size_t) *id].zone].h;
                if(x.kind == A_FREESIZE) x.n = w.slots[(size_t) *id].req;
            }
        }
        if(thread && x.kind == A_REALLOC && *id >= 0 && w.slots[(size_t) *id].zone >= 0) x.kind = A_CHUNKSZ;
        return x;
    }
    static u64 maps_sum() { // without the harness's own heap and stack
        static char b[1 << 22];
        size_t n = 0;
        int fd = open("/proc/self/maps", O_RDONLY);
        ssize_t k;
        while((k = read(fd, b + n, sizeof b - 1 - n)) > 0) n += (size_t) k;
        close(fd);
        b[n] = 0;
        u64 s = 0;
        for(char *l = b; *l;) {
            char *e = strchr(l, '\n');
            if(!e) break;
            *e = 0;
            if(!strstr(l, "[heap]") && !strstr(l, "[stack]"))
                for(char *p = l; *p && *p != ' '; p++) s = (s ^ (u64) (unsigned char) *p) * 1099511628211ull;
            l = e + 1;
        }
        return s;
    }
    void window(World &w, const Op &o) {
        Rng r((u64) o.b * 77 + (u64) o.c);
        cls(C_WINDOWS);
        nwin++;
        static Worker wk[6];
        int nt = threads() ? 1 + (int) r.below(5) : 0;
        for(int k = 0; k < nt; k++) wk[k] = Worker();
        std::set<int> used;
        u64 m0 = 0;
        iso_alloc_protect_root();
        if(!nt) m0 = maps_sum();
        if(nt) {
            cls(C_THREADS);
            for(int k = 0; k < nt; k++) {
                wk[k].a = choose(w, r.next(), r.next() >> 20, &wk[k].id, true);
                if(wk[k].id >= 0 && !used.insert(wk[k].id).second) {
                    wk[k].id = -1;
                    wk[k].a = Args();
                    wk[k].a.kind = A_ALLOC;
                    wk[k].a.n = 100;
                }
                int e = pthread_create(&wk[k].t, NULL, worker, &wk[k]);
                if(e) {
                    iso_alloc_unprotect_root();
                    fail("no thread");
                }
            }
            for(int q = 0; q < 15; q++) {
                usleep(200);
                int over = 0;
                for(int k = 0; k < nt; k++) over += __atomic_load_n(&wk[k].state, __ATOMIC_SEQ_CST) != 3;
                if(over == nt) break;
            }
        }
        for(int q = 1 + (int) r.below(nt ? 2 : 6); q-- > 0;) {
            int id;
            Args a = choose(w, r.next(), r.next() >> 20, &id, false);
            if(id >= 0 && used.count(id)) continue;
            int k = attempt(a, true, NULL);
            if(k == 0) fail("%s completed although the root is protected", ANAMES[a.kind]);
            cls(k == 1 ? C_FAULT : C_BLOCK);
        }
        if(!nt) CHECK(m0 == maps_sum(), "the process's mappings changed while the root was protected");
        for(int k = 0; k < nt; k++)
            if(wk[k].state == 0) fail("%s of another thread completed although the root is protected", ANAMES[wk[k].a.kind]);
        iso_alloc_unprotect_root();
        double t0 = now();
        for(int k = 0; k < nt; k++) {
            while(__atomic_load_n(&wk[k].state, __ATOMIC_SEQ_CST) == 3) {
                if(now() - t0 > 20) fail("%s of another thread still waits after the root was unprotected", ANAMES[wk[k].a.kind]);
                usleep(50);
            }
            pthread_join(wk[k].t, NULL);
        }
        for(int k = 0; k < nt; k++) {
            Args &a = wk[k].a;
            if(g_opt.verbose) fprintf(stderr, "thread %d: %s n=%llu p=%p id=%d state %d result %p\n", k, ANAMES[a.kind], (unsigned long long) a.n, a.p, wk[k].id, wk[k].state, wk[k].result);
            cls(wk[k].state == 1 ? C_TFAULT : C_TWAIT);
            if(wk[k].state == 1) continue;
            switch(a.kind) {
                case A_ALLOC: case A_BIG: w.add(wk[k].result, a.n, -1, true, false); break;
                case A_CALLOC:
                    for(u64 q = 0; q < a.n; q++) CHECK(wk[k].result && ((unsigned char *) wk[k].result)[q] == 0, "calloc memory is not zero");
                    w.add(wk[k].result, a.n, -1, true, false);
                    break;
                case A_STRDUP:
                    CHECK(wk[k].result && !strcmp((char *) wk[k].result, "while the root is protected"), "a duplicated string differs");
                    w.add(wk[k].result, 28, -1, true, false);
                    break;
                case A_REALLOC: {
                    Slot s = w.slots[(size_t) wk[k].id];
                    CHECK(wk[k].result != NULL, "realloc failed");
                    w.verify_upto(s, (unsigned char *) wk[k].result, s.usable < a.n ? s.usable : a.n, "after realloc");
                    w.forget(wk[k].id);
                    w.note_freed(s);
                    w.add(wk[k].result, a.n, -1, true, false);
                    break;
                }
                case A_FREE: {
                    Slot s = w.slots[(size_t) wk[k].id];
                    w.forget(wk[k].id);
                    w.push_pending(s);
                    break;
                }
                case A_FREESIZE: {
                    Slot s = w.slots[(size_t) wk[k].id];
                    w.forget(wk[k].id);
                    w.note_freed(s);
                    break;
                }
                case A_FREEPERM: {
                    Slot s = w.slots[(size_t) wk[k].id];
                    w.forget(wk[k].id);
                    w.noted_perm(s);
                    break;
                }
                case A_CHUNKSZ: CHECK((u64) wk[k].result == w.slots[(size_t) wk[k].id].usable, "a usable size differs"); break;
                case A_ZALLOC:
                    if(wk[k].result) w.add(wk[k].result, w.zones[a.n].req, (int) a.n);
                    break;
                case A_NEWZONE: {
                    CHECK(wk[k].result != NULL, "a zone could not be made");
                    Zone z;
                    z.h = wk[k].result;
                    z.req = a.n;
                    z.chunk = round32(a.n);
                    z.count = iso_zone_chunk_count(z.h);
                    z.alive = true;
                    w.zones.push_back(z);
                    break;
                }
                default: break;
            }
        }
        if(nt) w.flush();
    }
    void history(World &w, const Case &c) {
        for(size_t i = 0; i < c.ops.size(); i++) {
            at((int) i);
            const Op &o = c.ops[i];
            u64 n = o.a < 1 ? 1 : (u64) o.a;
            if(nwin && o.k != WINDOW) after++;
            switch(o.k) {
                case ALLOC:
                    for(i64 q = 0; q < o.b && w.live.size() < 2000; q++) log.push_back(w.slots[(size_t) w.alloc(n)].p);
                    break;
                case BIG:
                    if(w.live_bytes < (24ull << 20)) log.push_back(w.slots[(size_t) w.alloc(n)].p);
                    break;
                case FREE: {
                    int id = w.pick_live(o.b);
                    if(id >= 0) w.free_any(id, (u64) o.c);
                    break;
                }
                case NEWZONE:
                    if(w.zone_count() < 4) log.push_back((u64) w.zones[(size_t) w.new_zone(16 + n % 1000)].h);
                    break;
                case ZALLOC: {
                    int z = w.pick_zone(o.b);
                    if(z >= 0) {
                        int id = w.zalloc(z);
                        log.push_back(id >= 0 ? w.slots[(size_t) id].p : 0);
                    }
                    break;
                }
                case DESTROY: {
                    int z = w.pick_zone(o.b);
                    if(z >= 0) w.destroy_zone(z);
                    break;
                }
                case REALLOC: {
                    int id = w.pick_live(o.b);
                    if(id >= 0 && w.slots[(size_t) id].zone < 0) {
                        int k = w.realloc_(id, n);
                        if(k >= 0) log.push_back(w.slots[(size_t) k].p);
                    }
                    break;
                }
                case FLUSH: w.flush(); break;
                case VERIFY: iso_verify_zones(); break;
                case LEAKS: w.check_leaks(); break;
                case WINDOW:
                    if(windows) window(w, o);
                    break;
            }
        }
        at(-1);
        w.verify_all_slots();
        iso_verify_zones();
        w.check_leaks();
    }
    void execute(const Case &c) override {
        struct sigaction sa = {};
        static char stack[65536];
        stack_t ss = {};
        ss.ss_sp = stack;
        ss.ss_size = sizeof stack;
        sigaltstack(&ss, NULL);
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_NODEFER;
        sigaction(SIGUSR1, &sa, NULL);
        struct sigevent ev = {};
        ev.sigev_notify = SIGEV_THREAD_ID; // a thread that has just started must not swallow it
        ev._sigev_un._tid = (pid_t) syscall(SYS_gettid);
        ev.sigev_signo = SIGUSR1;
        CHECK(timer_create(CLOCK_MONOTONIC, &ev, &g_timer) == 0, "no timer");
        iso_alloc_initialize();
        std::vector<u64> other;
        if(diff()) { // the same history without the windows, in a process of its own
            int p[2];
            CHECK(pipe(p) == 0, "no pipe");
            pid_t pid = fork();
            CHECK(pid >= 0, "no process");
            if(pid == 0) {
                close(p[0]);
                windows = false;
                World w(c.entropy);
                history(w, c);
                u64 n = log.size();
                bool ok = write(p[1], &n, 8) == 8;
                for(u64 q = 0; q < n && ok; q++) ok = write(p[1], &log[q], 8) == 8;
                _exit(0);
            }
            close(p[1]);
            u64 n = 0, v;
            if(read(p[0], &n, 8) == 8)
                while(n-- && read(p[0], &v, 8) == 8) other.push_back(v);
            close(p[0]);
            int st;
            waitpid(pid, &st, 0);
            CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the history without windows ended with status %#x", st);
            cls(C_DIFF);
        }
        sigaction(SIGSEGV, &sa, NULL);
        sigaction(SIGBUS, &sa, NULL);
        World w(c.entropy);
        w.f.leaks = true;
        history(w, c);
        if(diff()) {
            CHECK(other.size() == log.size(), "the history returned %zu addresses with protected windows and %zu without", log.size(), other.size());
            for(size_t q = 0; q < log.size(); q++) CHECK(log[q] == other[q], "result %zu of %zu is %#llx with protected windows and %#llx without", q, log.size(), (unsigned long long) log[q], (unsigned long long) other[q]);
        }
        if(nwin && after) nontrivial();
    }
};
int main(int argc, char **argv) {
    Protect h;
    return run_main(h, argc, argv);
}
