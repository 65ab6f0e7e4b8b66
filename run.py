#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01   (VERIF_TIER, VERIF_SEED from the environment)

The library is compiled from /repo's working tree for every build configuration the property needs,
linked with a generated-input harness (see harness/), and driven for the given number of cases.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: a replayable failure was found.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from jobs import PROPS, CONFIGS, BASE  # noqa: E402

BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
NCPU = os.cpu_count() or 8


CRASHES = (-4, -6, -7, -8, -11)


def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "include"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def harness_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(HERE, "harness", "*"))):
        h.update(os.path.basename(p).encode())
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def sh(cmd, timeout=300):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd)[-300:] + "\n" + r.stdout.decode(errors="replace")[-3000:])


def config_flags(name):
    c = CONFIGS[name]
    d = dict(BASE)
    d.update(c.get("d", {}))
    return ["-D%s=%s" % (k, v) if v is not None else "-D%s" % k for k, v in d.items()], c


def build(harness, cfg, hashes):
    """Compiles the library in configuration cfg with a harness; returns the executable."""
    flags, c = config_flags(cfg)
    cc = c.get("cc", ["clang", "-O2"])
    cxx = ["clang++"] if cc[0].startswith("clang") else ["g++"]
    opt = cc[1:]
    lib = c.get("lib", False)  # the library as a shared object, the program linked to it
    extra_c = c.get("cflags", [])
    ld = c.get("ld", [])
    key = hashlib.sha256(json.dumps([harness, flags, c, hashes], sort_keys=True).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, key)
    exe = os.path.join(d, "h")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, key + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            return exe
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        inc = ["-I" + os.path.join(REPO, "include")]
        if c.get("subst"):  # tunable constants set to values that make rare events frequent
            shutil.copytree(os.path.join(REPO, "include"), os.path.join(d, "include"))
            for f, pat, rep in c["subst"]:
                p = os.path.join(d, "include", f)
                if os.path.exists(p):
                    with open(p) as fh:
                        t = fh.read()
                    with open(p, "w") as fh:
                        fh.write(re.sub(pat, rep, t))
            inc = ["-I" + os.path.join(d, "include")]
        common = ["-w", "-pthread", "-g", "-fno-omit-frame-pointer"] + flags + inc
        jobs, objs, hobjs = [], [], []
        for s in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(o)
            jobs.append([cc[0], "-std=c11", "-fvisibility=hidden", "-fPIC"] + opt + extra_c + common + ["-c", s, "-o", o])
        if c.get("cpp"):
            for s in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
                o = os.path.join(d, os.path.basename(s) + ".o")
                objs.append(o)
                jobs.append(cxx + ["-std=c++17", "-fPIC"] + opt + extra_c + common + ["-DCPP_SUPPORT=1", "-c", s, "-o", o])
        src = os.path.join(HERE, "harness", harness + ".cpp")
        hflags = ["-std=" + c.get("std", "c++17"), "-O1", "-fno-builtin", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-w", "-pthread", "-g"] + flags + inc + ["-DCPP_SUPPORT=1", "-DCFG_" + cfg.replace("-", "_").replace("+", "_")]
        o = os.path.join(d, "harness.o")
        hobjs.append(o)
        jobs.append(cxx + hflags + c.get("hflags", []) + ["-c", src, "-o", o])
        for extra in c.get("with", []):
            o = os.path.join(d, extra + ".o")
            hobjs.append(o)
            jobs.append(cxx + hflags + ["-c", os.path.join(HERE, "harness", extra), "-o", o])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(sh, jobs))
        redef = c.get("redef", [])  # the library's own definitions of libc functions, under other names
        if redef:
            for o in objs:
                sh(["objcopy"] + ["--redefine-sym=%s=hk_%s" % (f, f) for f in redef] + [o])
        san = [f for f in extra_c if f.startswith("-fsanitize")]
        if lib:
            so = os.path.join(d, "libisoalloc.so")
            sh([cxx[0] if c.get("cpp") else cc[0], "-shared", "-pthread"] + san + ld + objs + ["-o", so, "-ldl"])
            if lib == "preload":
                sh(cxx + san + hobjs + ["-o", exe, "-pthread", "-ldl", "-lrt"] + c.get("hld", []))
            else:
                sh(cxx + san + hobjs + ["-o", exe, "-L" + d, "-lisoalloc", "-Wl,-rpath," + d, "-rdynamic", "-pthread", "-ldl", "-lrt"] + c.get("hld", []))
        else:
            sh(cxx + san + ld + objs + hobjs + ["-o", exe, "-rdynamic", "-pthread", "-ldl", "-lrt"])
        open(os.path.join(d, "ok"), "w").close()
    return exe


def prune():
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, x))]
        ds.sort(key=os.path.getmtime)
        for x in ds[:-150]:
            shutil.rmtree(x, ignore_errors=True)
            try:
                os.unlink(x + ".lock")
            except OSError:
                pass
    except OSError:
        pass


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: "):])
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = PROPS[prop]
    joblist = [j for j in spec["jobs"] if tier in j]
    for d in (EVID, REPLAYS):
        os.makedirs(d, exist_ok=True)
    hashes = [tree_hash(), harness_hash()]
    # Build everything first, in parallel.
    pairs = []
    for j in joblist:
        if (j["h"], j["cfg"]) not in pairs:
            pairs.append((j["h"], j["cfg"]))
    exes = {}
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            for pr, e in zip(pairs, ex.map(lambda pr: build(pr[0], pr[1], hashes), pairs)):
                exes[pr] = e
    except BuildError as e:
        print("the tree does not build: %s" % e)
        sys.exit(2)
    tb = time.time() - t0
    env = dict(os.environ)
    for k in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS"):
        env.pop(k, None)
    env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    # The run is bounded by case counts; the time limits only keep a pathological tree from hanging.
    results, violations, errors = [], [], []
    runs_out = os.path.join(BUILD, "out")
    scratch = os.path.join(BUILD, "scratch-%d" % os.getpid())  # what the programs write goes here
    os.makedirs(runs_out, exist_ok=True)
    os.makedirs(scratch, exist_ok=True)
    for n, j in enumerate(joblist):
        cases, secs = j[tier]
        if os.environ.get("VERIF_SCALE"):
            cases = max(1, int(cases * float(os.environ["VERIF_SCALE"])))
            secs = secs * max(1.0, float(os.environ["VERIF_SCALE"]))
        out = os.path.join(runs_out, "%s-%d-%d.json" % (prop, os.getpid(), n))
        cmd = [exes[(j["h"], j["cfg"])], "--seed", str(seed), "--cases", str(cases), "--max-seconds", str(secs),
               "--jobs", str(j.get("jobs", NCPU)), "--out", out, "--prop", prop, "--config", j["cfg"], "--harness", j["h"],
               "--extra", j.get("extra", ""), "--replay-dir", REPLAYS]
        try:
            # binutils-free isolation: own process group, so nothing outlives a hung job
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch, start_new_session=True)
            try:
                so, se = p.communicate(timeout=secs + 420)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                so, se = p.communicate()
                errors.append("%s/%s: no answer" % (j["h"], j["cfg"]))
                continue
        except OSError as e:
            errors.append(str(e))
            continue
        for l in so.decode(errors="replace").splitlines():
            if l.startswith("FAIL "):
                path, _, msg = l[5:].partition(" ")
                violations.append((path, msg, j))
            elif l.startswith("NOTE "):
                print(l)
        if p.returncode in CRASHES and b"FAIL " not in so:
            # The harness itself uses the allocator in some configurations.  If it dies of it, twice, that is an answer.
            p2 = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch, start_new_session=True)
            try:
                so2, se2 = p2.communicate(timeout=secs + 120)
            except subprocess.TimeoutExpired:
                os.killpg(p2.pid, 9)
                so2, se2 = p2.communicate()
            if p2.returncode in CRASHES:
                msg = "the process that runs the cases is terminated by signal %d: %s" % (-p.returncode, se.decode(errors="replace")[-300:].replace("\n", " "))
                path = os.path.join(REPLAYS, "%s-%s-%s-%s-start.txt" % (prop, j["cfg"], j["h"], seed))
                with open(path, "w") as fh:
                    fh.write("# property %s\n# harness %s\n# config %s\n# extra %s\n# failure %s\n# command: %s\nentropy 1 0 0\n" % (prop, j["h"], j["cfg"], j.get("extra", ""), msg, " ".join(cmd)))
                violations.append((path, msg, j))
                if tier == "quick":
                    break
                continue
        if p.returncode not in (0, 1):
            errors.append("%s/%s: exit %s %s" % (j["h"], j["cfg"], p.returncode, se.decode(errors="replace")[-300:]))
        sys.stderr.write(se.decode(errors="replace")[-2000:])
        try:
            with open(out) as fh:
                d = json.load(fh)
            os.unlink(out)
            d["harness"] = j["h"]
            d["cases_asked"] = cases
            results.append(d)
        except (OSError, ValueError):
            if p.returncode == 0:
                errors.append("%s/%s: no statistics" % (j["h"], j["cfg"]))
        if violations and tier == "quick":
            break
    shutil.rmtree(scratch, ignore_errors=True)
    ev = sum(r["evaluations"] for r in results)
    dn = sum(r["distinct_nontrivial"] for r in results)
    classes = {}
    for r in results:
        for k, v in r["classes"].items():
            if v:
                classes[k] = classes.get(k, 0) + v
    rules = []
    for r in results:
        s = "%s: %s" % (r["harness"] + (":" + r["extra"] if r["extra"] else ""), r["rule"])
        if s not in rules:
            rules.append(s)
    kf = known_findings(prop)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn,
            "rule": "operation sequences generated from the seed; a case is non-trivial when: " + " | ".join(rules),
            "samples": [s for r in results for s in r["samples"]][:12],
            "operations": sum(r["ops"] for r in results),
            "inconclusive": sum(r["inconclusive"] for r in results),
            "excluded_known": sum(r["excluded"] for r in results),
            "classes": classes,
            "runs": [{k: r[k] for k in ("harness", "config", "extra", "cases_asked", "evaluations", "nontrivial", "distinct_nontrivial",
                                        "inconclusive", "excluded", "ops", "deadline_hit", "wall", "violations")} for r in results],
            "build_s": round(tb, 2),
            "known_findings": kf,
        },
        "wall_s": round(time.time() - t0, 2),
    }
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    prune()
    for k in kf:
        print("KNOWN-FINDING: " + k)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d operations, %.1f s (build %.1f s)" % (
        prop, tier, seed, ev, dn, evidence["coverage"]["operations"], time.time() - t0, tb))
    if violations:
        for path, msg, j in violations:
            print("  %s [%s %s]" % (msg[:600], j["h"], j["cfg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        for e in errors:
            print("error: " + e)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
