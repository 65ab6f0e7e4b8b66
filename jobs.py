"""Which generated-input runs decide which property: harness, build configuration, profile, sizes.

A job is dict(h=harness, cfg=configuration, extra=profile, quick=(cases, seconds), thorough=(cases, seconds)).
"""
# Every option explicitly, as the Makefile's defaults, except that the harness initializes the
# allocator itself (AUTO_CTOR_DTOR=0), uses no malloc hook, locks no memory and has the reports built in.
BASE = dict(THREAD_SUPPORT=1, PRE_POPULATE_PAGES=0, SMALL_MEM_STARTUP=0, DISABLE_CANARY=0, MALLOC_HOOK=0, ALLOC_SANITY=0,
            MEMCPY_SANITY=0, MEMSET_SANITY=0, UNINIT_READ_SANITY=0, CPU_PIN=0, SCHED_GETCPU=None, EXPERIMENTAL=0, UAF_PTR_PAGE=0,
            VERIFY_FREE_BIT_SLOTS=0, NAMED_MAPPINGS=0, ABORT_ON_NULL=0, NO_ZERO_ALLOCATIONS=1, ABORT_NO_ENTROPY=1,
            ISO_DTOR_CLEANUP=0, RANDOMIZE_FREELIST=1, USE_SPINLOCK=0, HUGE_PAGES=1, THP_PAGES=1, USE_MLOCK=0,
            STRONG_SIZE_ISOLATION=0, AUTO_CTOR_DTOR=0, SIGNAL_HANDLER=0, BIG_ZONE_META_DATA_GUARD=0, BIG_ZONE_GUARD=0,
            PROTECT_FREE_BIG_ZONES=0, MASK_PTRS=1, SANITIZE_CHUNKS=0, FUZZ_MODE=0, PERM_FREE_REALLOC=0, DONT_USE_NEON=1,
            MEMORY_TAGGING=0, LEAK_DETECTOR=1, MEM_USAGE=1, HEAP_PROFILER=0)

# For the controlled scheduler: callbacks from every basic block, load and store; mutex calls redirected.
SCHED = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
MUTEX = ["pthread_mutex_lock", "pthread_mutex_unlock"]
FAMILY = ["malloc", "free", "calloc", "realloc", "reallocarray", "posix_memalign", "aligned_alloc", "memalign", "malloc_usable_size",
          "__libc_malloc", "__libc_free", "__libc_calloc", "__libc_realloc", "__libc_reallocarray", "__posix_memalign", "__libc_memalign",
          "__malloc_hook", "__realloc_hook", "__free_hook", "__memalign_hook"]
OPERATORS = ["_ZdaPv", "_ZdaPvRKSt9nothrow_t", "_ZdaPvSt11align_val_t", "_ZdaPvSt11align_val_tRKSt9nothrow_t", "_ZdaPvm", "_ZdlPv", "_ZdlPvRKSt9nothrow_t",
             "_ZdlPvSt11align_val_t", "_ZdlPvSt11align_val_tRKSt9nothrow_t", "_ZdlPvm", "_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t",
             "_ZnamSt11align_val_tRKSt9nothrow_t", "_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"]
PROFFLAGS = ["-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-fcommon"]
UAF4 = [["conf.h", r"(#define\s+UAF_PTR_PAGE_ODDS\s+)\d+", r"\g<1>4"]]
LIFE = ["mmap", "munmap"]
OSCALLS = ["mmap", "mprotect", "madvise", "getrandom"]
SAMPLE3 = [["iso_alloc_sanity.h", r"(#define\s+SANITY_SAMPLE_ODDS\s+)\d+", r"\g<1>3"]]
FEW = SAMPLE3 + [["iso_alloc_sanity.h", r"(#define\s+MAX_SANE_SAMPLES\s+)\d+", r"\g<1>3"]]

CONFIGS = {
    "base": {},
    "O0": {"cc": ["clang", "-O0"]},
    "gcc": {"cc": ["gcc", "-O2"]},
    "ubsan": {"cc": ["clang", "-O1"], "cflags": ["-fsanitize=undefined", "-fno-sanitize=alignment,pointer-overflow,shift,function", "-fno-sanitize-recover=all"]},
    "strict": {"d": {"STRONG_SIZE_ISOLATION": 1}},
    "smallmem": {"d": {"SMALL_MEM_STARTUP": 1}},
    "abortnull": {"d": {"ABORT_ON_NULL": 1}},
    "sanitize": {"d": {"SANITIZE_CHUNKS": 1}},
    "permrealloc": {"d": {"PERM_FREE_REALLOC": 1}},
    "tags": {"d": {"MEMORY_TAGGING": 1}},
    "names": {"d": {"NAMED_MAPPINGS": 1}},
    "memfn": {"d": {"MEMCPY_SANITY": 1, "MEMSET_SANITY": 1}, "redef": ["memcpy", "memmove", "memset"]},
    "memfngcc": {"cc": ["gcc", "-O2"], "d": {"MEMCPY_SANITY": 1, "MEMSET_SANITY": 1}, "redef": ["memcpy", "memmove", "memset"]},
    "hook": {"d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1}, "redef": FAMILY},
    "hookgcc": {"cc": ["gcc", "-O2"], "d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1, "MEMCPY_SANITY": 1, "MEMSET_SANITY": 1}, "redef": FAMILY + ["memcpy", "memmove", "memset"]},
    "hooksanitize": {"d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1, "SANITIZE_CHUNKS": 1, "BIG_ZONE_GUARD": 1, "STRONG_SIZE_ISOLATION": 1, "SMALL_MEM_STARTUP": 1}, "redef": FAMILY},
    "cxx": {"cpp": True, "d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1}, "redef": FAMILY + OPERATORS},
    "cxxgcc": {"cpp": True, "cc": ["gcc", "-O2"], "d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1, "SANITIZE_CHUNKS": 1, "BIG_ZONE_GUARD": 1, "STRONG_SIZE_ISOLATION": 1}, "redef": FAMILY + OPERATORS},
    "objects": {"cpp": True, "d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1}, "hflags": ["-fsized-deallocation", "-faligned-allocation", "-DOBJECTS=1"]},
    "objectsgcc": {"cpp": True, "cc": ["gcc", "-O2"], "d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1, "MEMCPY_SANITY": 1, "MEMSET_SANITY": 1, "SANITIZE_CHUNKS": 1}, "hflags": ["-fsized-deallocation", "-DOBJECTS=1"]},
    "preloadcxx": {"lib": "preload", "cpp": True, "d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1}, "hflags": ["-fsized-deallocation"]},
    "preload": {"lib": "preload", "d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1}},
    "preloadmem": {"lib": "preload", "cc": ["gcc", "-O2"], "d": {"MALLOC_HOOK": 1, "AUTO_CTOR_DTOR": 1, "MEMCPY_SANITY": 1, "MEMSET_SANITY": 1, "SANITIZE_CHUNKS": 1, "BIG_ZONE_GUARD": 1, "PROTECT_FREE_BIG_ZONES": 1}},
    "fault": {"redef": OSCALLS},
    "faultall": {"redef": OSCALLS, "d": {"BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1, "PROTECT_FREE_BIG_ZONES": 1, "MEMORY_TAGGING": 1, "SANITIZE_CHUNKS": 1, "SMALL_MEM_STARTUP": 1}},
    "faultsample": {"cc": ["gcc", "-O2"], "redef": OSCALLS, "d": {"ALLOC_SANITY": 1, "UAF_PTR_PAGE": 1}, "subst": SAMPLE3},
    "prof": {"d": {"HEAP_PROFILER": 1}, "cflags": PROFFLAGS, "subst": [["iso_alloc_profiler.h", r"(#define\s+PROFILER_ODDS\s+)\d+", r"\g<1>2"]], "hld": ["-rdynamic"], "hflags": ["-DPROFILER_HALF=1"]},
    "profgcc": {"cc": ["gcc", "-O2"], "d": {"HEAP_PROFILER": 1, "LEAK_DETECTOR": 0, "SMALL_MEM_STARTUP": 1, "MEMORY_TAGGING": 1}, "cflags": PROFFLAGS, "subst": [["iso_alloc_profiler.h", r"(#define\s+PROFILER_ODDS\s+)\d+", r"\g<1>5"]]},
    "uaf": {"d": {"UAF_PTR_PAGE": 1, "SIGNAL_HANDLER": 1, "SMALL_MEM_STARTUP": 1}, "subst": UAF4},
    "uafgcc": {"cc": ["gcc", "-O2"], "d": {"UAF_PTR_PAGE": 1, "MEMORY_TAGGING": 1, "SMALL_MEM_STARTUP": 1, "SANITIZE_CHUNKS": 1, "DISABLE_CANARY": 1}, "subst": UAF4},
    "life": {"redef": LIFE},
    "fence": {"redef": LIFE, "d": {"BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1}},
    "fenceall": {"cc": ["gcc", "-O2"], "redef": LIFE, "d": {"BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1, "PROTECT_FREE_BIG_ZONES": 1, "MEMORY_TAGGING": 1, "UAF_PTR_PAGE": 1, "SANITIZE_CHUNKS": 1}},
    "fencenone": {"redef": LIFE, "d": {"BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1, "THREAD_SUPPORT": 0, "SMALL_MEM_STARTUP": 1, "MASK_PTRS": 0}},
    "fencesample": {"redef": LIFE, "d": {"BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1, "ALLOC_SANITY": 1}, "subst": SAMPLE3},
    "sim": {"redef": ["mmap", "munmap"]},
    "simguards": {"redef": ["mmap", "munmap"], "cc": ["gcc", "-O2"], "d": {"BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1, "SMALL_MEM_STARTUP": 1}},
    "simtags": {"redef": ["mmap", "munmap"], "d": {"MEMORY_TAGGING": 1}},
    "simplain": {"redef": ["mmap", "munmap"], "d": {"MASK_PTRS": 0, "THREAD_SUPPORT": 0}},
    "coresim": {"redef": LIFE + ["sched_getcpu"], "d": {"CPU_PIN": 1, "SCHED_GETCPU": 1}},
    "coresimone": {"cc": ["gcc", "-O2"], "redef": LIFE + ["sched_getcpu"], "d": {"CPU_PIN": 1, "SCHED_GETCPU": 1, "THREAD_SUPPORT": 0, "SMALL_MEM_STARTUP": 1}},
    "fuzzmode": {"d": {"FUZZ_MODE": 1}},
    "fuzzmodeone": {"cc": ["gcc", "-O2"], "d": {"FUZZ_MODE": 1, "THREAD_SUPPORT": 0, "SMALL_MEM_STARTUP": 1}},
    "lifeclean": {"redef": LIFE, "d": {"ISO_DTOR_CLEANUP": 1}},
    "lifeauto": {"redef": LIFE, "d": {"AUTO_CTOR_DTOR": 1, "USE_SPINLOCK": 1, "ALLOC_SANITY": 1}, "subst": SAMPLE3},
    "lifeautoclean": {"cc": ["gcc", "-O2"], "redef": LIFE, "d": {"AUTO_CTOR_DTOR": 1, "ISO_DTOR_CLEANUP": 1, "SMALL_MEM_STARTUP": 1, "NAMED_MAPPINGS": 1, "SANITIZE_CHUNKS": 1}},
    "lifecleanall": {"cc": ["gcc", "-O2"], "redef": LIFE, "d": {"ISO_DTOR_CLEANUP": 1, "BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1, "PROTECT_FREE_BIG_ZONES": 1, "MEMORY_TAGGING": 1, "UAF_PTR_PAGE": 1, "CPU_PIN": 1, "USE_SPINLOCK": 1}},
    "lifecleanone": {"redef": LIFE, "d": {"ISO_DTOR_CLEANUP": 1, "THREAD_SUPPORT": 0, "NO_ZERO_ALLOCATIONS": 0, "PRE_POPULATE_PAGES": 1, "MASK_PTRS": 0}},
    "sanity": {"d": {"ALLOC_SANITY": 1}},
    "sample3": {"d": {"ALLOC_SANITY": 1}, "subst": SAMPLE3},
    "uninit": {"d": {"ALLOC_SANITY": 1, "UNINIT_READ_SANITY": 1}, "subst": SAMPLE3},
    "sched": {"cc": ["clang", "-O1"], "cflags": SCHED, "redef": MUTEX},
    "schedspin": {"cc": ["clang", "-O1"], "cflags": SCHED, "d": {"USE_SPINLOCK": 1}},
    "schedpin": {"cc": ["clang", "-O1"], "cflags": SCHED, "redef": MUTEX, "d": {"CPU_PIN": 1}},
    "schedall": {"cc": ["clang", "-O1"], "cflags": SCHED, "redef": MUTEX, "d": {"BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1, "PROTECT_FREE_BIG_ZONES": 1, "MEMORY_TAGGING": 1,
                 "SANITIZE_CHUNKS": 1, "SMALL_MEM_STARTUP": 1, "VERIFY_FREE_BIT_SLOTS": 1, "NAMED_MAPPINGS": 1}},
    "named": {"redef": LIFE + ["prctl"], "d": {"NAMED_MAPPINGS": 1, "BIG_ZONE_GUARD": 1}},
    "namedtags": {"cc": ["gcc", "-O2"], "redef": LIFE + ["prctl"], "d": {"NAMED_MAPPINGS": 1, "MEMORY_TAGGING": 1, "MASK_PTRS": 0, "SMALL_MEM_STARTUP": 1, "BIG_ZONE_META_DATA_GUARD": 1}},
    "namedsample": {"redef": LIFE + ["prctl"], "d": {"NAMED_MAPPINGS": 1, "ALLOC_SANITY": 1}, "subst": SAMPLE3},
    "unnamed": {"redef": LIFE + ["prctl"]},
    "schedtags": {"cc": ["clang", "-O1"], "cflags": SCHED, "redef": MUTEX, "d": {"MEMORY_TAGGING": 1}},
    "schedfew": {"cc": ["clang", "-O1"], "cflags": SCHED, "redef": MUTEX, "d": {"ALLOC_SANITY": 1}, "subst": FEW},
    "few": {"d": {"ALLOC_SANITY": 1}, "subst": FEW},
    "schedsample": {"cc": ["clang", "-O1"], "cflags": SCHED, "redef": MUTEX, "d": {"ALLOC_SANITY": 1}, "subst": SAMPLE3},
    "nozero": {"d": {"NO_ZERO_ALLOCATIONS": 0}},
    "spin": {"d": {"USE_SPINLOCK": 1}},
    "pin": {"d": {"CPU_PIN": 1}},
    "spinpin": {"d": {"USE_SPINLOCK": 1, "CPU_PIN": 1}},
    "bigguard": {"d": {"BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1}},
    "bigprot": {"d": {"PROTECT_FREE_BIG_ZONES": 1}},
    "bigall": {"d": {"BIG_ZONE_GUARD": 1, "BIG_ZONE_META_DATA_GUARD": 1, "PROTECT_FREE_BIG_ZONES": 1}},
}

# C35: every documented option switched away from its default, alone and in combinations.
OPTIONS = {"THREAD_SUPPORT": 0, "PRE_POPULATE_PAGES": 1, "SMALL_MEM_STARTUP": 1, "DISABLE_CANARY": 1, "ALLOC_SANITY": 1, "MEMORY_SANITY": 1,
           "CPU_PIN": 1, "EXPERIMENTAL": 1, "UAF_PTR_PAGE": 1, "VERIFY_FREE_BIT_SLOTS": 1, "NAMED_MAPPINGS": 1, "ABORT_ON_NULL": 1,
           "NO_ZERO_ALLOCATIONS": 0, "ABORT_NO_ENTROPY": 0, "ISO_DTOR_CLEANUP": 1, "RANDOMIZE_FREELIST": 0, "USE_SPINLOCK": 1, "HUGE_PAGES": 0,
           "THP_PAGES": 0, "USE_MLOCK": 1, "STRONG_SIZE_ISOLATION": 1, "AUTO_CTOR_DTOR": 1, "SIGNAL_HANDLER": 1, "BIG_ZONE_META_DATA_GUARD": 1,
           "BIG_ZONE_GUARD": 1, "PROTECT_FREE_BIG_ZONES": 1, "MASK_PTRS": 0, "SANITIZE_CHUNKS": 1, "FUZZ_MODE": 1, "PERM_FREE_REALLOC": 1,
           "MEMORY_TAGGING": 1, "LEAK_DETECTOR": 0, "MEM_USAGE": 0, "HEAP_PROFILER": 1}


def combo(names):
    c = {"d": {}}
    for n in names:
        if n == "MEMORY_SANITY":
            c["d"].update(MEMCPY_SANITY=1, MEMSET_SANITY=1)
            c["redef"] = ["memcpy", "memmove", "memset"]
        else:
            c["d"][n] = OPTIONS[n]
        if n == "CPU_PIN":
            c["d"]["SCHED_GETCPU"] = 1
        if n == "HEAP_PROFILER":
            c["cflags"] = ["-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-fcommon"]
    return c


def combinations():
    """Sets of options such that any two of them are somewhere on together, and somewhere one without the other."""
    import random
    rng, names = random.Random(20), [n for n in OPTIONS if n != "FUZZ_MODE"]
    bad = [{"CPU_PIN", "ABORT_ON_NULL"}]
    pairs = {(a, b, v) for a in names for b in names if a != b for v in (0, 1) if v == 0 or {a, b} not in bad}
    rows = []
    while pairs:
        best = None
        for _ in range(60):
            row = {n for n in names if rng.random() < 0.5}
            for b in bad:
                if b <= row:
                    row.discard(rng.choice(sorted(b)))
            cov = {(a, b, int(b in row)) for a in row for b in names if a != b} & pairs
            if best is None or len(cov) > len(best[1]):
                best = (row, cov)
        rows.append(sorted(best[0]))
        pairs -= best[1]
    # FUZZ_MODE makes every call slow, so it has its own combinations: with each other option on and off.
    half = sorted(rows[0])
    rows.append(half + ["FUZZ_MODE"])
    rows.append([n for n in names if n not in half and n != "CPU_PIN"] + ["FUZZ_MODE"])
    return rows


for _n in OPTIONS:
    CONFIGS["opt_" + _n] = combo([_n])
COMBOS = combinations()
for _i, _r in enumerate(COMBOS):
    CONFIGS["combo%d" % _i] = combo(_r)


def J(h, extra, q, t, cfg="base", **kw):
    d = dict(h=h, cfg=cfg, extra=extra)
    if q:
        d["quick"] = q
    if t:
        d["thorough"] = t
    d.update(kw)
    return d


PROPS = {
    "C01": {"jobs": [J("hist", "general", (700, 40), (40000, 400)), J("hist", "general", (250, 20), (10000, 200), "O0"),
                     J("hist", "zones", None, (4000, 150))]},
    "C02": {"jobs": [J("hist", "cycle", (260, 45), (6000, 450)), J("hist", "general", (250, 20), (10000, 200))]},
    "C03": {"jobs": [J("hist", "calloc", (1000, 40), (40000, 600))]},
    "C05": {"jobs": [J("hist", "realloc", (1000, 40), (40000, 600))]},
    "C06": {"jobs": [J("hist", "query", (800, 40), (30000, 500)), J("sanity", "x", (800, 25), (60000, 150), "sample3"), J("hist", "query", (120, 20), (8000, 100), "tags")]},
    "C07": {"jobs": [J("hist", "strings", (1200, 40), (40000, 600))]},
    "C08": {"jobs": [J("abort", "double", (12000, 40), (400000, 600))]},
    "C09": {"jobs": [J("abort", "invalid", (12000, 40), (400000, 600))]},
    "C10": {"jobs": [J("abort", "edge", (8000, 40), (300000, 600))]},
    "C11": {"jobs": [J("abort", "bigmeta", (8000, 40), (300000, 600))]},
    "C12": {"jobs": [J("hist", "checks", (700, 40), (30000, 600))]},
    "C13": {"jobs": [J("hist", "areas", (260, 40), (10000, 600))]},
    "C14": {"jobs": [J("hist", "zones", (350, 40), (12000, 600))]},
    "C15": {"jobs": [J("hist", "perm", (450, 40), (15000, 500)), J("hist", "perm", (150, 20), (6000, 200), "permrealloc")]},
    "C16": {"jobs": [J("hist", "quarantine", (550, 40), (20000, 600))]},
    "C18": {"jobs": [J("hist", "big", (260, 40), (10000, 300)), J("hist", "big", (200, 30), (5000, 150), "bigall"), J("hist", "big", None, (5000, 150), "bigguard"),
                     J("hist", "big", None, (5000, 150), "bigprot")]},
    "C20": {"jobs": [J("hist", "zero", (900, 40), (30000, 600))]},
    "C21": {"jobs": [J("hist", "leaks", (900, 40), (30000, 600))]},
    "C22": {"jobs": [J("hist", "areas", (160, 30), (6000, 300)), J("hist", "strict", (160, 30), (6000, 300), "strict")]},
    "C04": {"jobs": [J("sizes", "x", (15000, 40), (600000, 300)), J("sizes", "x", (8000, 40), (300000, 300), "abortnull")]},
    "C17": {"jobs": [J("cyc", "x", (150, 60), (6000, 400)), J("cyc", "x", None, (2000, 150), "bigall"), J("cyc", "x", None, (2000, 150), "tags")]},
    "C19": {"jobs": [J("hist", "guard", (130, 40), (6000, 250)), J("hist", "guard", (80, 40), (3000, 150), "smallmem"),
                     J("hist", "guard", (40, 40), (2000, 150), "tags")]},
    "C23": {"jobs": [J("tags", "x", (5000, 40), (200000, 400), "tags"), J("hist", "zones", (60, 20), (4000, 200), "tags")]},
    "C24": {"jobs": [J("wipe", "x", (4000, 40), (150000, 300), "sanitize"), J("wipe", "x", (2000, 40), (100000, 200)),
                     J("wipe", "x", (2000, 40), (100000, 200), "permrealloc")]},
    "C26": {"jobs": [J("memfn", "x", (6000, 40), (300000, 300), "memfn"), J("memfn", "x", (3000, 40), (200000, 300), "memfngcc")]},
    "C25": {"jobs": [J("sanity", "x", (4000, 40), (200000, 400), "sample3"), J("hist", "general", (150, 20), (6000, 200), "sample3"),
                     J("hist", "general", (100, 20), (6000, 200), "sanity")]},
}
PROPS["C35"] = {"jobs": [J("hist", "mild", (500, 30) if "FUZZ_MODE" in COMBOS[i] else (150, 30), (10000, 40), "combo%d" % i) for i in range(len(COMBOS))] +
                        [J("hist", "general", (40, 20), (1500, 30), "combo%d" % i) for i in range(len(COMBOS)) if "FUZZ_MODE" not in COMBOS[i]] +
                        [J("hist", "mild", None, (4000, 20), "opt_" + n) for n in OPTIONS] +
                        [J("hist", "general", None, (800, 20), "opt_" + n) for n in OPTIONS if n != "FUZZ_MODE"]}

PROPS["C29"] = {"jobs": [J("threads", "sched", (1200, 30), (60000, 250), "sched"), J("threads", "sched", (300, 30), (15000, 150), "schedspin"),
                         J("threads", "sched", (300, 20), (20000, 100), "schedpin"), J("threads", "sched", (300, 20), (20000, 100), "schedall"),
                         J("threads", "sched", (200, 15), (20000, 100), "schedsample"),
                         J("threads", "sched", (300, 15), (20000, 100), "schedtags"), J("threads", "sched", (200, 15), (20000, 100), "schedfew"),
                         J("threads", "real", (300, 15), (20000, 80), "tags"), J("threads", "real", (300, 15), (20000, 80), "few"),
                         J("threads", "real", (600, 20), (60000, 150)), J("threads", "real", (400, 20), (30000, 80), "spinpin")]}

PROPS["C27"] = {"jobs": [J("malloc", "", (1500, 30), (60000, 250), "hook"), J("malloc", "", (400, 20), (20000, 100), "hookgcc"),
                         J("malloc", "", (400, 20), (20000, 100), "hooksanitize"),
                         J("programs", "", (60, 60), (3000, 300), "preload"), J("programs", "", (30, 60), (1500, 200), "preloadmem")]}
PROPS["C28"] = {"jobs": [J("cxx", "", (1200, 30), (60000, 200), "cxx"), J("cxx", "", (400, 20), (20000, 100), "cxxgcc"),
                         J("objects", "", (500, 30), (25000, 150), "objects"), J("objects", "", (200, 20), (10000, 100), "objectsgcc"),
                         J("programs", "own", (16, 40), (800, 150), "preloadcxx")]}
PROPS["C30"] = {"jobs": [J("protect", "", (300, 40), (10000, 150)), J("protect", "diff", (300, 40), (10000, 150)), J("protect", "threads", (300, 40), (10000, 150)),
                         J("protect", "", (80, 20), (3000, 80), "spin"), J("protect", "threads", (80, 20), (3000, 80), "spin"), J("protect", "diff", (80, 20), (3000, 80), "nozero")]}
PROPS["C31"] = {"jobs": [J("rand", "", (400, 40), (4000, 250)), J("rand", "", (60, 20), (1500, 150), "smallmem"), J("rand", "", (40, 20), (1000, 100), "tags")]}
PROPS["C32"] = {"jobs": [J("fault", "", (150, 40), (10000, 250), "fault"), J("fault", "", (150, 40), (10000, 250), "faultall"), J("fault", "", (80, 30), (5000, 150), "faultsample")]}
PROPS["C33"] = {"jobs": [J("profiler", "", (1200, 40), (60000, 300), "prof"), J("profiler", "", (500, 30), (30000, 200), "profgcc")]}
PROPS["C34"] = {"jobs": [J("uaf", "", (1500, 40), (60000, 300), "uaf"), J("uaf", "", (700, 30), (30000, 200), "uafgcc")]}
PROPS["C36"] = {"jobs": [J("life", "", (600, 20), (60000, 120), "life"), J("life", "", (1500, 30), (60000, 150), "lifeclean"), J("life", "", (600, 20), (60000, 120), "lifeauto"),
                         J("life", "", (700, 20), (60000, 120), "lifeautoclean"), J("life", "", (500, 20), (60000, 120), "lifecleanall"), J("life", "", (300, 20), (40000, 100), "lifecleanone")]}
PROPS["C38"] = {"jobs": [J("fence", "", (400, 30), (30000, 200), "fence"), J("fence", "", (250, 20), (20000, 150), "fenceall"), J("fence", "", (150, 20), (15000, 120), "fencenone"), J("fence", "", (200, 20), (15000, 120), "fencesample")]}
PROPS["C39"] = {"jobs": [J("pin", "", (1500, 30), (60000, 250), "coresim"), J("pin", "", (700, 20), (40000, 150), "coresimone")]}
PROPS["C42"] = {"jobs": [J("retire", "", (400, 25), (30000, 300), "life")]}
PROPS["C41"] = {"jobs": [J("uninit", "", (1500, 40), (60000, 300), "uninit"), J("threads", "real", (100, 15), (5000, 100), "uninit")]}
# Values of conf.h the documentation invites users to change: the contract must not depend on them.
def tune(**kw):
    return [["conf.h", r"(#define\s+%s\s+)[^\n]*" % k, r"\g<1>%s" % v] for k, v in kw.items()]


def zones(small, *z):
    return [["conf.h", r"(?s)#define SMALLEST_CHUNK_SZ SZ_ALIGNMENT\nconst static uint64_t default_zones\[\] = \{.*?\};",
             "#define SMALLEST_CHUNK_SZ %s\nconst static uint64_t default_zones[] = {%s};" % (small, ", ".join("ZONE_%d" % x for x in z))]]


TUNES = {
    "max128k": tune(SMALL_SIZE_MAX=131072, CHUNK_QUARANTINE_SZ=16),
    "max32k": tune(SMALL_SIZE_MAX=32768, BIG_ZONE_WASTE=65536, ZONE_ALLOC_RETIRE=4),
    "max16k": tune(SMALL_SIZE_MAX=16384, CANARY_COUNT_DIV=5, ZONE_CACHE_SZ=1),
    "quarantine1": tune(CHUNK_QUARANTINE_SZ=1, ZONE_CACHE_SZ=32, BIG_ZONE_ALLOC_RETIRE=1),
    "quarantine1000": tune(CHUNK_QUARANTINE_SZ=1000, BIG_ZONE_MAX_FREE_LIST=2, MIN_RAND_FREELIST=64),
    "retire1": tune(ZONE_ALLOC_RETIRE=1, BIG_ZONE_MAX_FREE_LIST=0, CANARY_COUNT_DIV=9),
    "tiny": zones("ZONE_16", 32, 32, 64, 64, 128, 128),
    "pages": zones("ZONE_512", 512, 1024, 2048, 4096),
    "sixteen": [["iso_alloc_internal.h", r"(#define\s+SZ_ALIGNMENT\s+)\d+", r"\g<1>16"]],
    "middle": zones("ZONE_64", 64, 64, 256, 256, 8192) + tune(ZONE_ALLOC_RETIRE=8, MAX_ZONES=65535),
}
for _t in TUNES:
    CONFIGS["tune_" + _t] = {"subst": TUNES[_t], "hflags": ["-DWORLD_CONF_H=1"] + (["-DSZ_ALIGNMENT=16"] if _t == "sixteen" else [])}
    CONFIGS["tlife_" + _t] = {"subst": TUNES[_t], "hflags": ["-DWORLD_CONF_H=1"], "redef": LIFE}
PROPS["C45"] = {"jobs": [J("hist", p, (n, 10) if n else None, (2500, 25), "tune_" + t) for t in TUNES
                         for p, n in (("general", 30), ("checks", 25), ("zones", 20), ("big", 20), ("realloc", 0), ("quarantine", 0), ("leaks", 0))] +
                        [J("hist", "quarantine", (30, 10), None, "tune_" + t) for t in ("quarantine1", "quarantine1000")] +
                        [J("retire", "", (60, 10), (4000, 50), "tlife_" + t) for t in ("max32k", "quarantine1", "quarantine1000", "retire1", "middle", "tiny")] +
                        [J("canary", "", (150, 10), (5000, 40), "tune_" + t) for t in ("max16k", "retire1", "tiny", "pages", "sixteen")]}
PROPS["C40"] = {"jobs": [J("abort", "edge", (1000, 25), (100000, 250), "fuzzmode"), J("abort", "edge", (600, 15), (60000, 150), "fuzzmodeone"), J("hist", "mild", (60, 20), (10000, 100), "fuzzmode")]}
PROPS["C37"] = {"jobs": [J("canary", "", (1500, 30), (60000, 250)), J("canary", "", (400, 20), (20000, 120), "smallmem"), J("canary", "", (300, 20), (20000, 120), "O0")]}
PROPS["C44"] = {"jobs": [J("secrets", "", (1000, 25), (20000, 200), "sim"), J("secrets", "", (500, 20), (10000, 120), "simguards"), J("secrets", "", (400, 20), (10000, 120), "simtags"), J("secrets", "", (60, 10), (5000, 60), "simplain")]}
PROPS["C43"] = {"jobs": [J("names", "", (700, 25), (40000, 200), "named"), J("names", "", (400, 20), (20000, 120), "namedtags"), J("names", "", (200, 15), (15000, 100), "namedsample"), J("names", "", (100, 10), (5000, 40), "unnamed")]}
