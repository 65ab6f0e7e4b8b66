// pbt.hpp - a small property-based testing engine for allocators.
//
// A check is a generator of operation sequences plus an executor that runs one sequence against the
// allocator while comparing it with a model.  Each case runs in a forked child, so that it starts
// from a pristine allocator, may be expected to die, and can be shrunk by re-execution.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

typedef uint64_t u64;
typedef int64_t i64;

static inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix(seed)) {}
    u64 next() { return mix(s++ * 0x2545F4914F6CDD1Dull + 0x1234567); }
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
    i64 range(i64 lo, i64 hi) { return lo + (i64) below((u64) (hi - lo + 1)); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    int weighted(const std::vector<int> &w) {
        int tot = 0;
        for(int x : w) tot += x;
        int r = (int) below(tot);
        for(size_t i = 0; i < w.size(); i++) {
            if(r < w[i]) return (int) i;
            r -= w[i];
        }
        return (int) w.size() - 1;
    }
};

struct Op {
    int k;
    i64 a, b, c;
};

struct Case {
    u64 entropy; // seeds everything random during execution (including the allocator's entropy source)
    std::vector<Op> ops;
};

// ---- state shared between the worker (parent) and the case (child) --------------------------------
enum { MAX_CLS = 96 };

struct Shared {
    volatile int op_index;
    volatile int expect_mask; // bit s set: termination by signal s means the case passed
    volatile int failed;
    volatile int nontrivial;
    volatile int excluded;
    char msg[2048];
    volatile uint32_t cls[MAX_CLS];
    volatile u64 work;
};

struct Totals {
    volatile u64 evaluations, nontrivial, inconclusive, excluded, ops, work;
    volatile u64 cls[MAX_CLS];
    volatile int violations;
    volatile u64 hash_count;
    volatile u64 deadline_hit;
};

static Shared *g_sh;
static Totals *g_tot;
static u64 *g_hashes;
enum { MAX_HASHES = 4 << 20 };
static const int FAIL_EXIT = 77;

// ---- interface used by executors in the child ------------------------------------------------------
struct Failure {};

[[noreturn]] static inline void vfail(const char *fmt, va_list ap) {
    vsnprintf(g_sh->msg, sizeof(g_sh->msg), fmt, ap);
    g_sh->failed = 1;
    _exit(FAIL_EXIT);
}
[[noreturn]] __attribute__((format(printf, 1, 2))) static inline void fail(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfail(fmt, ap);
}
#define CHECK(cond, ...)                       \
    do {                                       \
        if(!(cond)) ::pbt::fail(__VA_ARGS__);  \
    } while(0)

static inline void cls(int c) {
    if(c >= 0 && c < MAX_CLS) g_sh->cls[c] = g_sh->cls[c] + 1;
}
static inline void nontrivial() { g_sh->nontrivial = 1; }
static inline void at(int i) { g_sh->op_index = i; }
static inline void expect_signal(int s) { g_sh->expect_mask = g_sh->expect_mask | (1 << s); }
static inline void expect_none() { g_sh->expect_mask = 0; }

// Reads n bytes at p if they are mapped readable; never faults.
static int g_pipe[2] = {-1, -1};
static inline void open_pipe() {
    if(g_pipe[0] < 0) {
        if(pipe(g_pipe) != 0) abort();
    }
}
static inline bool peek(const void *p, void *out, size_t n) {
    open_pipe();
    char tmp[4096];
    for(size_t o = 0; o < n;) {
        size_t m = n - o < sizeof tmp ? n - o : sizeof tmp;
        ssize_t r = write(g_pipe[1], (const char *) p + o, m);
        if(r <= 0) return false;
        size_t got = 0;
        while(got < (size_t) r) {
            ssize_t q = read(g_pipe[0], tmp + got, (size_t) r - got);
            if(q <= 0) abort();
            got += (size_t) q;
        }
        if((size_t) r != m) return false;
        if(out) memcpy((char *) out + o, tmp, m);
        o += m;
    }
    return true;
}
static inline bool readable(const void *p) { return peek(p, NULL, 1); }
// Whether a byte can be written (writes its own value back; the page may be touched).
static inline bool writable(void *p) {
    open_pipe();
    char c;
    if(!peek(p, &c, 1)) return false;
    if(write(g_pipe[1], &c, 1) != 1) abort();
    ssize_t r = read(g_pipe[0], p, 1);
    if(r == 1) return true;
    if(read(g_pipe[0], &c, 1) != 1) abort();
    return false;
}
// Write-only reachability is possible in principle; treat "any access succeeds" as accessible.
static inline bool accessible(void *p) { return readable(p); }

struct Mapping {
    u64 lo, hi;
    char perm[5];
    bool anon;
};
static inline std::vector<Mapping> maps() {
    static char buf[1 << 22];
    std::vector<Mapping> v;
    int fd = open("/proc/self/maps", O_RDONLY);
    if(fd < 0) return v;
    size_t n = 0;
    for(;;) {
        ssize_t r = read(fd, buf + n, sizeof(buf) - 1 - n);
        if(r <= 0) break;
        n += (size_t) r;
    }
    close(fd);
    buf[n] = 0;
    char *l = buf;
    while(*l) {
        char *e = strchr(l, '\n');
        if(e) *e = 0;
        Mapping m;
        memset(&m, 0, sizeof(m));
        unsigned long long lo, hi, off, ino;
        unsigned ma, mi;
        int pos = 0;
        if(sscanf(l, "%llx-%llx %4s %llx %x:%x %llu %n", &lo, &hi, m.perm, &off, &ma, &mi, &ino, &pos) >= 7) {
            m.lo = lo;
            m.hi = hi;
            m.anon = (ino == 0) && (l[pos] == 0 || strncmp(l + pos, "[anon", 5) == 0);
            v.push_back(m);
        }
        if(!e) break;
        l = e + 1;
    }
    return v;
}

// ---- deterministic entropy ---------------------------------------------------------------------------
static u64 g_entropy_state;
static u64 g_entropy_calls;
static u64 g_entropy_fail_at = ~0ull; // index of the first call that fails
static bool g_entropy_fail_forever;
static inline void seed_entropy(u64 s) {
    g_entropy_state = mix(s ^ 0xabcdef12345ull);
    g_entropy_calls = 0;
}

// ---- the check -----------------------------------------------------------------------------------------
struct Check {
    virtual ~Check() {}
    virtual std::vector<const char *> op_names() const = 0;
    virtual std::vector<const char *> class_names() const = 0;
    virtual Case generate(Rng &r, u64 index) = 0;
    virtual void execute(const Case &c) = 0; // in the child; returns normally = pass
    virtual const char *rule() const = 0;
    virtual int timeout_s() const { return 60; }
    virtual bool deterministic() const { return true; }
};

struct Options {
    u64 seed = 1;
    u64 cases = 100;
    double max_seconds = 600;
    int jobs = 8;
    std::string out, replay, replay_dir = ".", prop = "C00", config = "base", harness = "h", extra;
    bool verbose = false;
};
static Options g_opt;

struct Result {
    int status; // 0 pass, 1 fail, 2 inconclusive
    std::string msg;
    int op;
    bool nontriv;
    bool hang = false;
};

static int g_outfd = -1; // captures the child's stdout

static unsigned g_alarm; // overrides the checks' own limit
// A stack of frames with frame pointers below every case (the heap profiler walks eight of them).
__attribute__((noinline)) static void deep(Check &chk, const Case &c, int n) {
    if(n) deep(chk, c, n - 1);
    else chk.execute(c);
    __asm__ __volatile__("" ::: "memory");
}
static Result run_case(Check &chk, const Case &c) {
    memset((void *) g_sh, 0, sizeof(*g_sh));
    g_sh->op_index = -1;
    if(g_outfd < 0) g_outfd = memfd_create("out", MFD_CLOEXEC);
    if(ftruncate(g_outfd, 0) != 0) abort();
    fflush(stdout);
    pid_t pid = fork();
    if(pid < 0) {
        usleep(20000);
        return Result{2, "fork failed", -1, false};
    }
    if(pid == 0) {
        lseek(g_outfd, 0, SEEK_SET);
        dup2(g_outfd, 1);
        if(!g_opt.verbose) dup2(g_outfd, 2);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        // keep a runaway writer to stdout from filling memory
        struct rlimit fl = {64u << 20, 64u << 20};
        setrlimit(RLIMIT_FSIZE, &fl);
        signal(SIGXFSZ, SIG_IGN);
        // A child that outgrows the sandbox is the one to be ended.
        int fd = open("/proc/self/oom_score_adj", O_WRONLY);
        if(fd >= 0) {
            if(write(fd, "900", 3) < 0) {}
            close(fd);
        }
        signal(SIGALRM, SIG_DFL);
        alarm(g_alarm ? g_alarm : (unsigned) chk.timeout_s());
        seed_entropy(c.entropy);
        deep(chk, c, 12);
        g_sh->work = 1 + g_sh->work;
        _exit(0);
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0) {
        if(errno != EINTR) abort();
    }
    Result r{0, "", g_sh->op_index, g_sh->nontrivial != 0};
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
    if(WIFEXITED(st) && WEXITSTATUS(st) == FAIL_EXIT && g_sh->failed) {
        r.status = 1;
        r.msg = (const char *) g_sh->msg;
        return r;
    }
    if(WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if(s == SIGKILL) {
            r.status = 2;
            r.msg = "killed (out of memory?)";
            return r;
        }
        if(g_sh->expect_mask & (1 << s)) return r;
        r.status = 1;
        r.hang = s == SIGALRM;
        char b[600];
        char last[400] = "";
        struct stat sb;
        if(fstat(g_outfd, &sb) == 0 && sb.st_size > 0) {
            off_t off = sb.st_size > 390 ? sb.st_size - 390 : 0;
            ssize_t n = pread(g_outfd, last, 390, off);
            if(n < 0) n = 0;
            last[n] = 0;
            for(char *p = last; *p; p++)
                if(*p == '\n') *p = ' ';
        }
        snprintf(b, sizeof(b), "%s signal %d (%s) in operation %d; last output: %s",
                 s == SIGALRM ? "no progress:" : "terminated by", s, strsignal(s), r.op, last);
        r.msg = b;
        return r;
    }
    r.status = 1;
    char b[100];
    snprintf(b, sizeof(b), "unexpected exit status 0x%x in operation %d", st, r.op);
    r.msg = b;
    return r;
}

static std::string op_text(Check &chk, const Op &o) {
    char b[200];
    snprintf(b, sizeof(b), "%s %lld %lld %lld", chk.op_names()[o.k], (long long) o.a, (long long) o.b, (long long) o.c);
    return b;
}
static std::string case_text(Check &chk, const Case &c) {
    char b[200];
    snprintf(b, sizeof(b), "entropy %llu 0 0\n", (unsigned long long) c.entropy);
    std::string s = b;
    for(const Op &o : c.ops) s += op_text(chk, o) + "\n";
    return s;
}
static bool parse_case(Check &chk, const std::string &path, Case &c) {
    FILE *f = fopen(path.c_str(), "r");
    if(!f) return false;
    char line[512];
    std::vector<const char *> names = chk.op_names();
    c.ops.clear();
    c.entropy = 1;
    while(fgets(line, sizeof(line), f)) {
        if(line[0] == '#' || line[0] == '\n') continue;
        char name[128];
        long long a = 0, b = 0, cc = 0;
        if(sscanf(line, "%127s", name) != 1) continue;
        if(!strcmp(name, "entropy")) {
            unsigned long long e;
            sscanf(line, "%*s %llu", &e);
            c.entropy = e;
            continue;
        }
        sscanf(line, "%*s %lld %lld %lld", &a, &b, &cc);
        int k = -1;
        for(size_t i = 0; i < names.size(); i++)
            if(!strcmp(names[i], name)) k = (int) i;
        if(k < 0) {
            fprintf(stderr, "unknown op %s\n", name);
            fclose(f);
            return false;
        }
        c.ops.push_back(Op{k, a, b, cc});
    }
    fclose(f);
    return true;
}

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double) ts.tv_sec + (double) ts.tv_nsec * 1e-9;
}

// Delta debugging over the operation list, then over the numeric arguments.
static Case shrink(Check &chk, Case c, double budget_s) {
    double end = now() + budget_s;
    auto fails = [&](const Case &x) {
        Result r = run_case(chk, x);
        return r.status == 1;
    };
    size_t n = 2;
    while(c.ops.size() >= 2 && now() < end) {
        size_t len = c.ops.size(), chunk = (len + n - 1) / n;
        bool reduced = false;
        for(size_t s = 0; s < len && now() < end; s += chunk) {
            Case t;
            t.entropy = c.entropy;
            for(size_t i = 0; i < len; i++)
                if(i < s || i >= s + chunk) t.ops.push_back(c.ops[i]);
            if(fails(t)) {
                c = t;
                n = n > 2 ? n - 1 : 2;
                reduced = true;
                break;
            }
        }
        if(!reduced) {
            if(chunk <= 1) break;
            n = std::min(n * 2, len);
        }
    }
    for(size_t i = 0; i < c.ops.size() && now() < end; i++) {
        for(int f = 0; f < 3; f++) {
            i64 &orig = f == 0 ? c.ops[i].a : f == 1 ? c.ops[i].b : c.ops[i].c;
            i64 cur = orig;
            for(i64 cand : {(i64) 0, (i64) 1, cur / 16, cur / 2}) {
                if(now() >= end) break;
                if(cand == cur || cand < 0 || cand >= cur) continue;
                Case t = c;
                (f == 0 ? t.ops[i].a : f == 1 ? t.ops[i].b : t.ops[i].c) = cand;
                if(fails(t)) {
                    c = t;
                    break;
                }
            }
        }
    }
    return c;
}

static void save_replay(Check &chk, const Case &c, const std::string &path, const std::string &msg) {
    FILE *f = fopen(path.c_str(), "w");
    if(!f) return;
    std::string m = msg;
    for(char &ch : m)
        if(ch == '\n') ch = ' ';
    fprintf(f, "# property %s\n# harness %s\n# config %s\n# extra %s\n# failure %s\n%s", g_opt.prop.c_str(),
            g_opt.harness.c_str(), g_opt.config.c_str(), g_opt.extra.c_str(), m.c_str(), case_text(chk, c).c_str());
    fclose(f);
}

static u64 hash_case(const Case &c) {
    u64 h = 1469598103934665603ull;
    for(const Op &o : c.ops) {
        h = mix(h ^ (u64) o.k);
        h = mix(h ^ (u64) o.a);
        h = mix(h ^ (u64) o.b);
        h = mix(h ^ (u64) o.c);
    }
    return h;
}

static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for(unsigned char ch : s) {
        if(ch == '"' || ch == '\\') {
            o += '\\';
            o += (char) ch;
        } else if(ch == '\n') {
            o += "\\n";
        } else if(ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", ch);
            o += b;
        } else
            o += (char) ch;
    }
    return o + "\"";
}

static void worker(Check &chk, int w, double deadline) {
    g_sh = (Shared *) mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for(u64 i = (u64) w; i < g_opt.cases; i += (u64) g_opt.jobs) {
        if(now() > deadline) {
            __atomic_add_fetch((u64 *) &g_tot->deadline_hit, 1, __ATOMIC_SEQ_CST);
            break;
        }
        if(g_tot->violations) break;
        u64 cs = mix(mix(g_opt.seed) ^ mix(i + 0x51ed27ull));
        for(char ch : g_opt.prop + "/" + g_opt.config + "/" + g_opt.extra) cs = mix(cs ^ (u64) (unsigned char) ch);
        Rng r(cs);
        Case c = chk.generate(r, i);
        c.entropy = mix(cs ^ 0x77);
        Result res = run_case(chk, c);
        if(res.status == 2) { // once more, in a quieter moment
            usleep(200000);
            res = run_case(chk, c);
        }
        __atomic_add_fetch((u64 *) &g_tot->evaluations, 1, __ATOMIC_SEQ_CST);
        __atomic_add_fetch((u64 *) &g_tot->ops, c.ops.size(), __ATOMIC_SEQ_CST);
        for(int k = 0; k < MAX_CLS; k++)
            if(g_sh->cls[k]) __atomic_add_fetch((u64 *) &g_tot->cls[k], g_sh->cls[k], __ATOMIC_SEQ_CST);
        if(g_sh->excluded) __atomic_add_fetch((u64 *) &g_tot->excluded, 1, __ATOMIC_SEQ_CST);
        if(res.status == 2) {
            __atomic_add_fetch((u64 *) &g_tot->inconclusive, 1, __ATOMIC_SEQ_CST);
            continue;
        }
        if(res.nontriv) {
            __atomic_add_fetch((u64 *) &g_tot->nontrivial, 1, __ATOMIC_SEQ_CST);
            u64 h = __atomic_fetch_add((u64 *) &g_tot->hash_count, 1, __ATOMIC_SEQ_CST);
            if(h < MAX_HASHES) g_hashes[h] = hash_case(c);
        }
        if(res.status == 1) {
            // Confirm, shrink, confirm again.
            int again = 0;
            if(res.hang) again = run_case(chk, c).status == 1 ? 3 : 0;
            else
                for(int k = 0; k < 3; k++) again += run_case(chk, c).status == 1;
            Case m = c;
            std::string msg = res.msg;
            if(again == 3) {
                if(res.hang) g_alarm = 6;
                Case t = shrink(chk, c, 45);
                g_alarm = 0;
                int ok = 0;
                std::string last;
                for(int k = 0; k < (res.hang ? 1 : 3); k++) {
                    Result rr = run_case(chk, t);
                    ok += rr.status == 1 ? (res.hang ? 3 : 1) : 0;
                    if(rr.status == 1) last = rr.msg;
                }
                if(ok == 3) {
                    m = t;
                    msg = last;
                }
            } else if(chk.deterministic() && again == 0) {
                // Not reproducible although everything random is replayed: do not raise it.
                __atomic_add_fetch((u64 *) &g_tot->inconclusive, 1, __ATOMIC_SEQ_CST);
                fprintf(stderr, "[%s/%s] case %llu failed once but not again: %s\n", g_opt.prop.c_str(), g_opt.config.c_str(),
                        (unsigned long long) i, res.msg.c_str());
                continue;
            }
            if(__atomic_add_fetch(&g_tot->violations, 1, __ATOMIC_SEQ_CST) == 1) {
                char nm[256];
                snprintf(nm, sizeof(nm), "%s/%s-%s-%s-%llu-%llu.txt", g_opt.replay_dir.c_str(), g_opt.prop.c_str(),
                         g_opt.config.c_str(), g_opt.harness.c_str(), (unsigned long long) g_opt.seed, (unsigned long long) i);
                save_replay(chk, m, nm, msg);
                printf("FAIL %s %s\n", nm, msg.c_str());
                fflush(stdout);
            }
            break;
        }
    }
    _exit(0);
}

static int run_main(Check &chk, int argc, char **argv) {
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--seed") g_opt.seed = strtoull(val().c_str(), NULL, 0);
        else if(a == "--cases") g_opt.cases = strtoull(val().c_str(), NULL, 0);
        else if(a == "--max-seconds") g_opt.max_seconds = atof(val().c_str());
        else if(a == "--jobs") g_opt.jobs = atoi(val().c_str());
        else if(a == "--out") g_opt.out = val();
        else if(a == "--replay") g_opt.replay = val();
        else if(a == "--replay-dir") g_opt.replay_dir = val();
        else if(a == "--prop") g_opt.prop = val();
        else if(a == "--config") g_opt.config = val();
        else if(a == "--harness") g_opt.harness = val();
        else if(a == "--extra") g_opt.extra = val();
        else if(a == "--verbose") g_opt.verbose = true;
        else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            _exit(2);
        }
    }
    if(!g_opt.replay.empty()) {
        Case c;
        if(!parse_case(chk, g_opt.replay, c)) _exit(2);
        g_sh = (Shared *) mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        int bad = 0;
        int n = chk.deterministic() ? 3 : 20;
        for(int k = 0; k < n; k++) {
            Result r = run_case(chk, c);
            printf("run %d: %s %s\n", k, r.status == 0 ? "pass" : r.status == 1 ? "FAIL" : "inconclusive", r.msg.c_str());
            bad += r.status == 1;
        }
        fflush(stdout);
        _exit(bad ? 1 : 0);
    }
    g_tot = (Totals *) mmap(NULL, sizeof(Totals), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_hashes = (u64 *) mmap(NULL, sizeof(u64) * MAX_HASHES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    double t0 = now();
    fflush(stdout);
    std::vector<pid_t> ps;
    for(int w = 0; w < g_opt.jobs; w++) {
        pid_t p = fork();
        if(p == 0) worker(chk, w, t0 + g_opt.max_seconds);
        ps.push_back(p);
    }
    int bad = 0;
    for(pid_t p : ps) {
        int st;
        while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = 1;
    }
    double t1 = now();
    u64 hc = std::min<u64>((u64) g_tot->hash_count, (u64) MAX_HASHES);
    std::unordered_set<u64> d(g_hashes, g_hashes + hc);
    if(!g_opt.out.empty()) {
        FILE *f = fopen(g_opt.out.c_str(), "w");
        if(!f) _exit(2);
        fprintf(f, "{\"config\":%s,\"extra\":%s,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"inconclusive\":%llu,\"excluded\":%llu,\"ops\":%llu,\"violations\":%d,\"deadline_hit\":%llu,\"wall\":%.2f,\"worker_error\":%d,\"rule\":%s,\"classes\":{",
                json_str(g_opt.config).c_str(), json_str(g_opt.extra).c_str(), (unsigned long long) g_tot->evaluations,
                (unsigned long long) g_tot->nontrivial, (unsigned long long) d.size(), (unsigned long long) g_tot->inconclusive,
                (unsigned long long) g_tot->excluded, (unsigned long long) g_tot->ops, g_tot->violations,
                (unsigned long long) g_tot->deadline_hit, t1 - t0, bad, json_str(chk.rule()).c_str());
        std::vector<const char *> cn = chk.class_names();
        for(size_t k = 0; k < cn.size(); k++)
            fprintf(f, "%s%s:%llu", k ? "," : "", json_str(cn[k]).c_str(), (unsigned long long) g_tot->cls[k]);
        fprintf(f, "},\"samples\":[");
        // The first cases of this run, written out again from their seeds (long ones abridged).
        for(u64 i = 0; i < 2 && i < g_opt.cases; i++) {
            u64 cs = mix(mix(g_opt.seed) ^ mix(i + 0x51ed27ull));
            for(char ch : g_opt.prop + "/" + g_opt.config + "/" + g_opt.extra) cs = mix(cs ^ (u64) (unsigned char) ch);
            Rng r(cs);
            Case c = chk.generate(r, i);
            std::string s;
            for(size_t k = 0; k < c.ops.size() && k < 12; k++) s += op_text(chk, c.ops[k]) + "; ";
            char b[64];
            snprintf(b, sizeof(b), "[%zu operations]", c.ops.size());
            s += b;
            fprintf(f, "%s%s", i ? "," : "", json_str(s).c_str());
        }
        fprintf(f, "]}\n");
        fclose(f);
    }
    fflush(stdout);
    _exit(g_tot->violations ? 1 : bad ? 2 : 0);
}

// ---- sizes -----------------------------------------------------------------------------------------------
// A size distribution concentrated on the places where the allocator changes its mind.
static inline u64 gen_small_size(Rng &r) {
    switch(r.below(8)) {
        case 0: return (u64) r.range(1, 32);
        case 1: return (u64) r.range(1, 256);
        case 2: {
            u64 p = 1ull << r.range(4, 16);
            i64 d = r.range(-33, 33);
            i64 s = (i64) p + d;
            if(s < 1) s = 1;
            if(s > 65536) s = 65536;
            return (u64) s;
        }
        case 3: return (u64) r.range(1, 1024);
        case 4: return (u64) r.range(1000, 8300);
        case 5: return (u64) r.range(8100, 65536);
        case 6: return 32ull * (u64) r.range(1, 2048);
        default: {
            static const int e[] = {16, 31, 32, 33, 63, 64, 65, 128, 256, 512, 1023, 1024, 1025, 2048, 4096, 8191, 8192, 8193, 16384, 32768, 65504, 65535, 65536};
            return (u64) e[r.below(sizeof(e) / sizeof(e[0]))];
        }
    }
}
static inline u64 gen_big_size(Rng &r) {
    switch(r.below(6)) {
        case 0: return (u64) r.range(65537, 70000);
        case 1: return (u64) r.range(65537, 300000);
        case 2: return 4096ull * (u64) r.range(17, 200) + (u64) r.range(-1, 1);
        case 3: return (u64) r.range(300000, 3000000);
        case 4: {
            static const i64 e[] = {65537, 131072, 262144, 1048576, 2097152, 4194304, 2097152 - 4096, 2097152 + 4096, 4194304 - 1, 4194304 + 1, 8388608};
            return (u64) (e[r.below(11)]);
        }
        default: return (u64) r.range(65537, 120000);
    }
}

} // namespace pbt

extern "C" ssize_t getrandom(void *buf, size_t n, unsigned flags);
#ifdef PBT_MAIN
extern "C" __attribute__((visibility("default"))) ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void) flags;
    using namespace pbt;
    u64 i = __atomic_fetch_add(&g_entropy_calls, 1, __ATOMIC_SEQ_CST);
    if(i == g_entropy_fail_at || (g_entropy_fail_forever && i > g_entropy_fail_at)) {
        errno = EAGAIN;
        return -1;
    }
    unsigned char *p = (unsigned char *) buf;
    u64 st = g_entropy_state ^ mix(i * 0x9E3779B97F4A7C15ull + 77);
    for(size_t k = 0; k < n; k++) {
        if((k & 7) == 0) st = mix(st);
        p[k] = (unsigned char) (st >> ((k & 7) * 8));
    }
    return (ssize_t) n;
}
#endif
