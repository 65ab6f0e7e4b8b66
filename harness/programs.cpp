// programs.cpp - C27: real programs behave the same with the library in place of malloc.
// Every case runs generated inputs through programs twice, plainly and with the library preloaded,
// and compares what they print and how they end.
#define PBT_MAIN 1
#include "pbt.hpp"
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <iostream>
#include <malloc.h>
#include <memory>
#include <new>
#include <pthread.h>
#include <regex.h>
#include <search.h>
#include <sstream>
#include <stdlib.h>
#include <sys/wait.h>
#include <unordered_map>
#include <wchar.h>
using namespace pbt;

// ---- a program of our own: everything below runs in a fresh process -----------------------------------------
namespace own {
static u64 h = 1469598103934665603ull;
static void eat(const void *p, size_t n) {
    for(size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *) p)[i]) * 1099511628211ull;
}
static void eats(const std::string &s) { eat(s.data(), s.size()); }
static void eatn(u64 v) { eat(&v, sizeof v); }
static int cmp(const void *a, const void *b) { return memcmp(a, b, 24); }
static int scmp(const void *a, const void *b) { return strcmp((const char *) a, (const char *) b); }
static void walk(const void *n, VISIT v, int) {
    if(v == postorder || v == leaf) eats(*(const char *const *) n);
}
static pthread_key_t key;
struct Job {
    u64 seed, out;
};
static void *thread_main(void *v) {
    Job *j = (Job *) v;
    Rng r(j->seed);
    pthread_setspecific(key, strdup("per-thread"));
    static __thread std::string *tls;
    tls = new std::string(r.below(3000), 't');
    u64 s = 0;
    std::vector<std::unique_ptr<char[]>> keep;
    for(int i = 0; i < 200; i++) {
        size_t n = r.chance(1, 30) ? 70000 + r.below(200000) : 1 + r.below(3000);
        keep.emplace_back(new char[n]);
        memset(keep.back().get(), i, n);
        if(r.chance(1, 3)) keep.erase(keep.begin() + (long) r.below(keep.size()));
    }
    for(auto &p : keep) s = s * 31 + (unsigned char) p[0];
    try {
        if(j->seed & 1) throw std::runtime_error(std::string(300, 'e'));
    } catch(const std::exception &e) { s += strlen(e.what()); }
    delete tls;
    j->out = s;
    return NULL;
}
struct AtExit {
    std::vector<std::string> v;
    ~AtExit() {
        v.push_back(std::string(5000, 'z'));
        u64 n = 0;
        for(auto &s : v) n += s.size();
        printf("static %llu\n", (unsigned long long) n);
    }
} static at_exit_object;
static char *late;
static void at_exit() {
    printf("atexit %zu\n", strlen(late));
    free(late);
}
static int run(u64 seed, long n) {
    Rng r(seed);
    if(r.chance(1, 2)) { // a buffer of the program's own, flushed at the very end
        size_t b = r.chance(1, 2) ? 200000 : 5000;
        setvbuf(stdout, (char *) malloc(b), _IOFBF, b);
    }
    late = strdup(std::string(r.chance(1, 2) ? 100000 : 10, 'l').c_str());
    atexit(at_exit);
    pthread_key_create(&key, free);
    std::map<std::string, std::vector<int>> m;
    std::unordered_map<u64, std::string> um;
    void *tree = NULL;
    std::vector<std::string> keys;
    for(long i = 0; i < n; i++) {
        const u64 what = r.below(24);
        if(getenv("OWN_TRACE")) fprintf(stderr, "%ld: %llu %016llx\n", i, (unsigned long long) what, (unsigned long long) h);
        switch(what) {
            case 0: {
                char *s = NULL;
                int k = asprintf(&s, "%*d-%.*f", (int) r.below(4000) + 1, (int) i, (int) r.below(600), 1.0 / (double) (i + 3));
                eatn((u64) k);
                eat(s, (size_t) k);
                free(s);
                break;
            }
            case 1: {
                char *b = NULL;
                size_t z = 0;
                FILE *f = open_memstream(&b, &z);
                for(u64 q = r.below(3000); q-- > 0;) fprintf(f, "%llu,", (unsigned long long) (q * q));
                fclose(f);
                eat(b, z);
                b = (char *) realloc(b, z / 2 + 1);
                eat(b, z / 2);
                free(b);
                break;
            }
            case 2: {
                std::string t;
                for(u64 q = r.below(400); q-- > 0;) t += std::string(r.below(300), (char) ('a' + q % 26)) + "\n";
                FILE *f = fmemopen((void *) t.c_str(), t.size() + 1, "r");
                char *l = NULL;
                size_t c = 0;
                ssize_t k;
                while((k = getline(&l, &c, f)) > 0) eat(l, (size_t) k), eatn(c >= (size_t) k + 1);
                free(l);
                fclose(f);
                break;
            }
            case 3: {
                size_t k = r.below(20000) + 1;
                std::vector<char> v(k * 24);
                for(auto &c : v) c = (char) r.next();
                qsort(v.data(), k, 24, cmp);
                eat(v.data(), v.size());
                break;
            }
            case 4: {
                regex_t re;
                std::string e = "(a|b)*c{1," + std::to_string(1 + r.below(9)) + "}[x-z]+";
                if(regcomp(&re, e.c_str(), REG_EXTENDED) == 0) {
                    std::string t;
                    for(int q = 0; q < 200; q++) t += "abcxyz"[r.below(6)];
                    regmatch_t mt[3];
                    int k = regexec(&re, t.c_str(), 3, mt, 0);
                    eatn((u64) k);
                    if(k == 0) eatn((u64) mt[0].rm_so), eatn((u64) mt[0].rm_eo);
                    regfree(&re);
                }
                break;
            }
            case 5:
                for(int q = 0; q < 40; q++) m["k" + std::to_string(r.below(500))].push_back((int) q);
                if(r.chance(1, 3) && !m.empty()) m.erase(m.begin());
                break;
            case 6:
                for(int q = 0; q < 100; q++) um[r.below(5000)] += std::string(r.below(40), 'u');
                break;
            case 7: {
                std::stringstream ss;
                for(u64 q = r.below(2000); q-- > 0;) ss << q << ' ';
                std::string w;
                while(ss >> w) eats(w);
                break;
            }
            case 8: {
                Job j[4];
                pthread_t t[4];
                for(int q = 0; q < 4; q++) {
                    j[q] = Job{seed * 31 + (u64) i * 4 + (u64) q, 0};
                    pthread_create(&t[q], NULL, thread_main, &j[q]);
                }
                for(int q = 0; q < 4; q++) pthread_join(t[q], NULL), eatn(j[q].out);
                break;
            }
            case 9: {
                int fd[2];
                if(pipe(fd)) break;
                fflush(stdout);
                pid_t p = fork();
                if(p == 0) {
                    std::string s;
                    for(int q = 0; q < 50; q++) s += std::string(r.below(3000), 'f');
                    char *c = strdup(s.c_str());
                    u64 k = strlen(c);
                    free(c);
                    if(write(fd[1], &k, sizeof k) != sizeof k) _exit(1);
                    _exit(0);
                }
                u64 k = 0;
                if(read(fd[0], &k, sizeof k) != sizeof k) k = 1;
                int st = 0;
                waitpid(p, &st, 0);
                close(fd[0]), close(fd[1]);
                eatn(k), eatn((u64) st);
                break;
            }
            case 10: {
                void *p = NULL;
                size_t a = 1ull << (3 + r.below(10)), z = r.below(100000) + 1;
                eatn((u64) posix_memalign(&p, a, z));
                eatn((u64) p % a);
                memset(p, 7, z);
                p = realloc(p, z * 2);
                eat(p, z);
                free(p);
                break;
            }
            case 11: {
                size_t a = 1ull << (3 + r.below(10));
                void *p = r.chance(1, 2) ? aligned_alloc(a, a * (1 + r.below(20))) : memalign(a, 1 + r.below(9000));
                eatn(p != NULL && (u64) p % a == 0);
                free(p);
                break;
            }
            case 12: {
                size_t k = r.below(300) + 1, z = r.below(300) + 1;
                unsigned char *p = (unsigned char *) calloc(k, z);
                u64 s = 0;
                for(size_t q = 0; q < k * z; q++) s += p[q];
                eatn(s);
                memset(p, 0xee, k * z);
                p = (unsigned char *) reallocarray(p, k + 50, z);
                eat(p, k * z);
                free(p);
                break;
            }
            case 13: {
                std::vector<std::string> v;
                for(u64 q = r.below(3000); q-- > 0;) v.push_back(std::string(1 + r.below(60), (char) ('a' + r.below(26))));
                std::sort(v.begin(), v.end());
                for(auto &s : v) eats(s);
                break;
            }
            case 14: {
                keys.push_back("t" + std::to_string(r.below(300)));
                tsearch(strdup(keys.back().c_str()), &tree, scmp);
                break;
            }
            case 15: {
                wchar_t w[200];
                std::string s(r.below(150), 'w');
                eatn(mbstowcs(w, s.c_str(), 200));
                wchar_t *d = wcsdup(w);
                eatn(wcslen(d));
                free(d);
                break;
            }
            case 16: {
                void *l = dlopen("libm.so.6", RTLD_NOW);
                double (*f)(double) = l ? (double (*)(double)) dlsym(l, "cbrt") : NULL;
                eatn(f ? (u64) (f(27.0) + 0.5) : 0);
                if(l) dlclose(l);
                break;
            }
            case 17:
                try {
                    std::vector<std::string> v(10, std::string(r.below(70000), 'x'));
                    if(r.chance(1, 2)) throw v;
                    eatn(v.size());
                } catch(std::vector<std::string> &v) { eatn(v[3].size()); }
                break;
            case 18:
                try {
                    volatile size_t huge = (size_t) 1 << 62; char *volatile p = new char[huge];
                    eatn((u64) (p == NULL));
                } catch(const std::bad_alloc &) { eatn(99); }
                break;
            case 19: {
                char *p = (char *) calloc(1, 1);
                size_t z = 1;
                for(int q = 0; q < 40; q++) {
                    size_t k = z + r.below(z) + 1;
                    if(k > 3000000) break;
                    p = (char *) realloc(p, k);
                    memset(p + z, q, k - z);
                    z = k;
                }
                eat(p, z);
                free(p);
                break;
            }
            case 20: {
                char b[64];
                snprintf(b, sizeof b, "%.*Lf", 50, (long double) 1e300 * (long double) r.below(100));
                eat(b, 20);
                std::string s;
                char *q = (char *) malloc(6000);
                snprintf(q, 6000, "%.4000Lf", (long double) 1e200 / 3);
                eat(q, 4000);
                free(q);
                break;
            }
            case 21: {
                FILE *f = tmpfile();
                if(!f) break;
                if(r.chance(1, 2)) setvbuf(f, NULL, _IOFBF, r.chance(1, 2) ? 150000 : 3000);
                for(u64 q = r.below(4000); q-- > 0;) fprintf(f, "%llu\n", (unsigned long long) q);
                rewind(f);
                unsigned long long x, s = 0;
                while(fscanf(f, "%llu", &x) == 1) s += x;
                eatn(s);
                fclose(f);
                break;
            }
            case 22: {
                struct dirent **e = NULL;
                int k = scandir("/usr/include", &e, NULL, alphasort);
                for(int q = 0; q < k; q++) {
                    eats(e[q]->d_name);
                    free(e[q]);
                }
                free(e);
                char *rp = realpath("/usr/../usr/./include", NULL);
                if(rp) eats(rp);
                free(rp);
                break;
            }
            default: {
                std::vector<void *> v;
                for(int q = 0; q < 300; q++) {
                    size_t z = r.chance(1, 40) ? 70000 + r.below(100000) : 1 + r.below(2000);
                    v.push_back(malloc(z));
                    memset(v.back(), q, z);
                    if(malloc_usable_size(v.back()) < z) eatn(666);
                    if(r.chance(1, 2)) {
                        size_t w = r.below(v.size());
                        free(v[w]);
                        v.erase(v.begin() + (long) w);
                    }
                }
                for(void *p : v) free(p);
            }
        }
    }
    for(auto &kv : m) eats(kv.first), eatn(kv.second.size());
    std::vector<u64> ks;
    for(auto &kv : um) ks.push_back(kv.first * 7919 + kv.second.size());
    std::sort(ks.begin(), ks.end());
    for(u64 k : ks) eatn(k);
    twalk(tree, walk);
    at_exit_object.v.push_back(std::string(100000, 'q'));
    printf("digest %016llx\n", (unsigned long long) h);
    if(r.chance(1, 3)) std::cout << "stream " << std::string(70000, 's') << "\n";
    return (int) (h % 7);
}
}

// ---- the check ---------------------------------------------------------------------------------------------------
enum K { OWN, SORT, AWK, SED, PERL, PYTHON, GZIP, SQL, BASH, BC, JQ, GREP, DIFF, GIT, XZ, CC, TAR, NK };
static const char *NAMES[] = {"own", "sort", "awk", "sed", "perl", "python", "gzip", "sqlite", "bash", "bc", "jq", "grep", "diff", "git", "xz", "cc", "tar"};
enum C { C_OUT, C_LONGOUT, C_THREADS, C_MISSING, NC };
static const char *CNAMES[] = {"output_compared", "output_over_64k", "programs_of_our_own", "program_not_installed"};

struct Programs : Check {
    std::vector<const char *> op_names() const override { return std::vector<const char *>(NAMES, NAMES + NK); }
    std::vector<const char *> class_names() const override { return std::vector<const char *>(CNAMES, CNAMES + NC); }
    const char *rule() const override { return "at least one program that ends normally without the library was run with it on a generated input and its output compared"; }
    int timeout_s() const override { return 240; }
    Case generate(Rng &r, u64) override {
        Case c;
        int n = (int) r.range(1, 3);
        for(int i = 0; i < n; i++) c.ops.push_back(Op{g_opt.extra == "own" ? (int) OWN : r.weighted({20, 5, 4, 3, 5, 4, 2, 4, 3, 2, 2, 3, 2, 2, 1, 2, 2}), (i64) r.below(1u << 30), (i64) r.range(5, r.chance(1, 5) ? 3000 : 300), 0});
        return c;
    }
    std::string self, lib, dir;
    static std::string words(Rng &r, i64 lines, int per) {
        std::string t;
        for(i64 i = 0; i < lines; i++) {
            for(int k = 0; k < per; k++) {
                std::string w;
                for(u64 q = 1 + r.below(7); q-- > 0;) w += (char) ('a' + r.below(r.chance(1, 4) ? 26 : 4));
                t += (k ? " " : "") + (r.chance(1, 3) ? std::to_string(r.below(1000)) : w);
            }
            if(r.chance(1, 50)) t += std::string(r.below(5000), 'L');
            t += "\n";
        }
        return t;
    }
    struct Out {
        std::string text;
        int status;
    };
    Out run(const std::vector<std::string> &argv, const std::string &in, bool with) {
        std::string inp = dir + "/in";
        int fd = open(inp.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
        CHECK(fd >= 0, "cannot write a scratch file");
        for(size_t k = 0; k < in.size();) {
            ssize_t w = write(fd, in.data() + k, in.size() - k);
            if(w <= 0) break;
            k += (size_t) w;
        }
        lseek(fd, 0, SEEK_SET);
        int p[2];
        CHECK(pipe(p) == 0, "no pipe");
        pid_t pid = fork();
        CHECK(pid >= 0, "no process");
        if(pid == 0) {
            dup2(fd, 0);
            dup2(p[1], 1);
            int nul = open("/dev/null", O_WRONLY);
            if(!g_opt.verbose) dup2(nul, 2);
            for(int q = 3; q < 64; q++) close(q);
            if(chdir(dir.c_str())) _exit(126);
            std::vector<char *> av;
            for(auto &a : argv) av.push_back((char *) a.c_str());
            av.push_back(NULL);
            std::string pre = "LD_PRELOAD=" + lib;
            std::vector<const char *> ev = {"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", "HOME=/nonexistent", "PYTHONHASHSEED=0", "PYTHONMALLOC=malloc", "PERL_HASH_SEED=0", "PERL_PERTURB_KEYS=0", "PYTHONDONTWRITEBYTECODE=1", "GIT_CONFIG_NOSYSTEM=1", "TMPDIR=."};
            if(with) ev.push_back(pre.c_str());
            ev.push_back(NULL);
            environ = (char **) ev.data();
            execvp(av[0], av.data());
            _exit(127);
        }
        close(p[1]);
        struct timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        Out o;
        char b[65536];
        ssize_t k;
        while((k = read(p[0], b, sizeof b)) > 0)
            if(o.text.size() < (8u << 20)) o.text.append(b, (size_t) k);
        close(p[0]);
        close(fd);
        int st = 0;
        while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        o.status = st;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if(g_opt.verbose) fprintf(stderr, "%s %s%.2f s\n", argv[0].c_str(), with ? "preloaded " : "", (double) (t1.tv_sec - t0.tv_sec) + 1e-9 * (double) (t1.tv_nsec - t0.tv_nsec));
        return o;
    }
    void execute(const Case &c) override {
        char b[4096];
        ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1);
        CHECK(k > 0, "no name");
        b[k] = 0;
        self = b;
        lib = self.substr(0, self.rfind('/')) + "/libisoalloc.so";
        char cwd[2048];
        CHECK(getcwd(cwd, sizeof cwd) != NULL, "no directory");
        dir = std::string(cwd) + "/p" + std::to_string(getpid());
        CHECK(mkdir(dir.c_str(), 0700) == 0, "no scratch directory");
        for(size_t i = 0; i < c.ops.size(); i++) {
            at((int) i);
            const Op &o = c.ops[i];
            Rng r((u64) o.a + 17);
            i64 n = o.b < 1 ? 1 : o.b;
            std::vector<std::string> av;
            std::string in;
            switch(o.k) {
                case OWN:
                    av = {self, "--own", std::to_string(o.a), std::to_string(n < 250 ? n : 250)};
                    cls(C_THREADS);
                    break;
                case SORT: {
                    in = words(r, n * 20, 4);
                    static const std::vector<std::vector<std::string>> opts = {{}, {"-n"}, {"-r"}, {"-u"}, {"-k2"}, {"-k3,3n", "-s"}, {"-f"}, {"-S", "100K"}, {"--parallel=4", "-S", "2M"}};
                    av = {"sort"};
                    for(auto &x : r.pick(opts)) av.push_back(x);
                    break;
                }
                case AWK:
                    in = words(r, n > 250 ? 2500 : n * 10, 5);
                    av = {"awk", r.chance(1, 2) ? "{for(i=1;i<=NF;i++) c[$i]++; l=l $1} END {n=0; for(w in c) n+=c[w]*length(w); print n, length(l)}" : "{gsub(/[ab]+/,\"<&>\"); s=s sprintf(\"%s|\",$0)} END {print s; print toupper(s)}"};
                    break;
                case SED:
                    in = words(r, n * 10, 5);
                    av = {"sed", "-E", r.chance(1, 2) ? "s/([a-c]+)([0-9]*)/\\2-\\1/g; H; $!d; x; s/\\n/,/g" : "/^a/{h;n;G}; s/[aeiou]//g; y/bcd/BCD/"};
                    break;
                case PERL:
                    in = words(r, n > 600 ? 3000 : n * 5, 5);
                    av = {"perl", "-e", r.chance(1, 2) ? "while(<>){for(split){$h{$_}{n}++;push @{$h{$_}{l}},$.}} for(sort keys %h){print \"$_ $h{$_}{n} @{$h{$_}{l}}\\n\"}" : "local $/; $_=<>; s/(\\w)\\1/<$1>/g; my @a=map{[$_,length]} split /\\s+/; print join ',',map{$$_[0]} sort {$$a[1]<=>$$b[1]||$$a[0] cmp $$b[0]} @a; print pack('N*',map{$$_[1]} @a)"};
                    break;
                case PYTHON:
                    in = words(r, n * 3, 5);
                    av = {"python3", "-I", "-S", "-c", "import sys,json,re,zlib,hashlib\nt=sys.stdin.read()\nd={}\nfor i,w in enumerate(t.split()):\n    d.setdefault(w,[]).append(i)\ns=json.dumps(d,sort_keys=True)\nassert json.loads(s)==d\nx=bytearray()\nfor w in sorted(d): x+=w.encode()*len(d[w])\nz=zlib.compress(bytes(x))\nassert zlib.decompress(z)==bytes(x)\nprint(len(s),hashlib.sha256(s.encode()).hexdigest(),len(re.findall(r'(a+)b*',t)))\nprint(str(3**20000)[:50], sum(hash(str(k))&1 for k in range(2000)))\nb=[bytearray(k*137) for k in range(800)]\ndel b[::2]\nprint(sum(map(len,b)))"};
                    break;
                case GZIP:
                    in = words(r, n * 30, 5);
                    av = {"gzip", "-nc", r.chance(1, 2) ? "-9" : "-1"};
                    break;
                case SQL: {
                    in = "create table t(a integer primary key, b text, c real); create index i on t(b);\nbegin;\n";
                    for(i64 q = 0; q < n * 2; q++) in += "insert into t(b,c) values('" + std::string(1 + r.below(r.chance(1, 50) ? 80000 : 40), (char) ('a' + r.below(26))) + "'," + std::to_string(r.below(1000)) + ");\n";
                    in += "commit;\nselect b, count(*), sum(c) from t group by substr(b,1,2) order by 2, 3, 1;\ndelete from t where a%3=0; vacuum;\nselect count(*), sum(length(b)), total(c) from t;\nwith recursive f(x,y) as (select 1,1 union all select y,x+y from f limit 50) select group_concat(x) from f;\npragma integrity_check;\n";
                    av = {"sqlite3", ":memory:"};
                    break;
                }
                case BASH:
                    in = words(r, n, 4);
                    av = {"bash", "-c", "declare -A m; while read -r a b c d; do m[$a]=\"${m[$a]} $b\"; x+=(\"${c^^}${d//a/}\"); done; for k in \"${!m[@]}\"; do echo \"$k:${m[$k]}\"; done | sort; echo \"${x[@]: -20}\"; printf '%s\\n' \"${x[*]}\" | { read -r l; echo ${#l}; }"};
                    break;
                case BC:
                    in = "scale=" + std::to_string(r.below(300)) + "\nx=" + std::to_string(r.below(1000) + 2) + "\nsqrt(x)\nx^" + std::to_string(r.below(400)) + "\nfor(i=1;i<60;i++) x=x*i+1/i\nx\n";
                    av = {"bc", "-q"};
                    break;
                case JQ: {
                    in = "[";
                    for(i64 q = 0; q < n; q++) in += (q ? "," : "") + std::string("{\"k\":\"") + std::string(r.below(30), (char) ('a' + r.below(26))) + "\",\"v\":[" + std::to_string(r.below(100)) + ",null,{\"x\":" + std::to_string(r.below(9)) + "}]}";
                    in += "]";
                    av = {"jq", "-c", r.chance(1, 2) ? "group_by(.v[2].x)|map({n:length,k:(map(.k)|sort|unique)})" : "[.[]|.k+(.v|tostring)]|sort|join(\"|\")|ascii_upcase|test(\"A+B*\")"};
                    break;
                }
                case GREP:
                    in = words(r, n * 10, 5);
                    av = {"grep", r.chance(1, 2) ? "-nE" : "-oE", r.chance(1, 2) ? "(a|b){2,5}c?[0-9]*" : "([a-d])\\1"};
                    break;
                case DIFF: {
                    in = words(r, n * 5, 3);
                    std::string other = in;
                    for(int q = 0; q < 20; q++) other.insert(r.below(other.size()), r.chance(1, 2) ? "\nnew " : "x");
                    FILE *f = fopen((dir + "/other").c_str(), "w");
                    if(f) fwrite(other.data(), 1, other.size(), f), fclose(f);
                    av = {"diff", r.chance(1, 2) ? "-u" : "-y", "--label=a", "--label=b", "other", "-"};
                    if(av[1] == "-y") av = {"diff", "-y", "other", "-"};
                    break;
                }
                case GIT: {
                    in = words(r, n * 5, 4);
                    if(r.chance(1, 2)) av = {"git", "hash-object", "--stdin"};
                    else av = {"git", "column", "--mode=column", "--width=90"};
                    break;
                }
                case XZ:
                    in = words(r, n * 10, 5);
                    av = {"xz", "-zc", "-T1", r.chance(1, 2) ? "-1" : "-0"};
                    break;
                case CC: {
                    in = "struct s { int a[10]; double d; };\n";
                    for(i64 q = 0; q < n / 10 + 1; q++) in += "static int f" + std::to_string(q) + "(struct s *p, int n) { int t = " + std::to_string(r.below(99)) + "; for(int i = 0; i < n % 10; i++) t += p->a[i] * " + std::to_string(r.below(9)) + "; return t + (int) p->d; }\nint g" + std::to_string(q) + "(struct s *p) { return f" + std::to_string(q) + "(p, " + std::to_string(r.below(30)) + "); }\n";
                    av = {"gcc", "-O1", "-S", "-x", "c", "-o", "-", "-"};
                    break;
                }
                case TAR: {
                    for(int q = 0; q < 3; q++) {
                        FILE *f = fopen((dir + "/f" + std::to_string(q)).c_str(), "w");
                        std::string t = words(r, n, 5);
                        if(f) fwrite(t.data(), 1, t.size(), f), fclose(f);
                    }
                    av = {"tar", "-c", "--mtime=@0", "--owner=0", "--group=0", "--numeric-owner", "--sort=name", r.chance(1, 2) ? "-z" : "-v", "-f", "-", "f0", "f1", "f2"};
                    break;
                }
            }
            Out plain = run(av, in, false);
            if(WIFEXITED(plain.status) && WEXITSTATUS(plain.status) == 127) {
                cls(C_MISSING);
                continue;
            }
            if(!WIFEXITED(plain.status)) continue;
            Out with = run(av, in, true);
            if(plain.text != with.text || plain.status != with.status) {
                Out again = run(av, in, false); // the program itself must be predictable
                if(again.text != plain.text || again.status != plain.status) continue;
                size_t d = 0;
                while(d < plain.text.size() && d < with.text.size() && plain.text[d] == with.text[d]) d++;
                fail("%s (input %lld %lld) ends with status %#x and %zu bytes of output on the library, and with %#x and %zu bytes without it; the output differs from byte %zu on", NAMES[o.k], (long long) o.a, (long long) o.b, with.status, with.text.size(), plain.status, plain.text.size(), d);
            }
            cls(C_OUT);
            if(plain.text.size() > 65536) cls(C_LONGOUT);
            nontrivial();
        }
        for(const char *f : {"in", "other", "f0", "f1", "f2"}) unlink((dir + "/" + f).c_str());
        rmdir(dir.c_str());
    }
};
int main(int argc, char **argv) {
    if(argc == 4 && !strcmp(argv[1], "--own")) return own::run(strtoull(argv[2], NULL, 10), atol(argv[3]));
    Programs h;
    return run_main(h, argc, argv);
}
