#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the prose below, with tables from jobs.py, properties.jsonl, known_findings.txt and design_data.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from jobs import PROPS, CONFIGS
NOTES = json.load(open(os.path.join(H, "tools", "notes.json")))
DATA = json.load(open(os.path.join(H, "tools", "design_data.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]

# id: (generated, oracle, why the tests cannot)
T = {
"C01": ("histories of 5 to 250 calls of every allocation and free interface, sizes around every boundary, private zones, large blocks, bulk fills of whole zones",
        "interval model: every block handed out is disjoint from all live ones over its whole usable size, aligned, inside accessible memory; each is filled with its own pattern to the last usable byte",
        "the tests check single blocks; disjointness is a statement about every pair in every history"),
"C02": ("histories that fill, drain and retire zones of one size again and again, with survivors, interleaved with everything else",
        "every live block keeps its pattern to the last byte, verified at random points and at each free",
        "needs zones to be retired and replaced under live neighbours, tens of thousands of calls"),
"C03": ("calloc after frees of patterned blocks of the same size classes, small and large", "every byte of the request reads zero", "only recycled memory can be dirty"),
"C04": ("sizes and products at and around 2^16, 2^32, 2^63, 2^64 and the allocator's own limits, for every call that takes a size, with live blocks around",
        "null (or an abort where ABORT_ON_NULL is set) exactly where the mathematical size is impossible, and never a block smaller than the mathematical size; live state untouched",
        "the wrapping sizes form thin intervals that a fixed list misses (two defects were found there)"),
"C05": ("chains of resizes of many blocks, shrinking and growing across small/large, null and zero", "contents up to the smaller size preserved, old block gone, new one in the model", "history dependent"),
"C06": ("size queries mixed into histories, repeated", "exact and stable answer, at least the request; asking changes nothing (leaks, later frees, later placement)", "the defect found here needed a free after a query"),
"C07": ("strings and limits of generated length, embedded terminators, source at the end of a mapping", "differential against libc strdup/strndup, in general and private zones", "lengths around limits, no read past the limit"),
"C08": ("histories that end in a second free, after generated numbers of other frees (quarantine not full, full, flushed)", "the process must die of SIGABRT/SIGSEGV before the call or the flush that follows returns; histories in which the block was handed out again are excluded by the model", "the tests have one fixed distance"),
"C09": ("histories ending in an invalid free or query: interior pointers of every offset, pointers from the stack, data, libc heap, guard pages, wrong zone handles, wrong sizes", "must die", "the space of invalid pointers"),
"C10": ("overflow and underflow into a freed neighbour: any of the protected bytes, any chunk position, followed by a generated trigger (free of the neighbour, reuse, verification)", "must die at the trigger; verified precisely which trigger looks at which canary", "one test, one byte, one position"),
"C11": ("linear overwrites of the record of a large block from either side, found by scanning memory", "must die at the next operation that uses the record", "record position is random"),
"C12": ("correct histories with every self check called at random points, in general and with sampling and tags", "no termination, checks return, state unchanged", "false alarms depend on history"),
"C13": ("general and private zones of equal and different sizes, created and destroyed, filled", "each memory area (from the process map) belongs to one owner and one chunk size for its life", "ownership is global"),
"C14": ("private zones of every size driven to exhaustion, refilled, destroyed, with handles kept", "the advertised count is delivered, then null; after frees the same capacity again; null for unsupported sizes; destroyed memory unreadable", "capacity depends on canary placement, random per zone"),
"C15": ("permanent frees of small and large blocks mixed with heavy reuse of the size class", "no later block overlaps one", "needs long histories"),
"C16": ("frees and allocations at generated distances", "no block is handed out while the model says it waits in the quarantine; it is handed out again eventually", "order dependent"),
"C17": ("repeating workloads (18 kinds, generated parameters), warmed up, run in windows", "mapped bytes and number of mappings do not grow between windows", "a leak of a page per cycle is invisible to a test"),
"C18": ("histories of large blocks of sizes around pages, huge pages and reuse limits", "page alignment, size, reuse rule, contents, guards present (configurations), freed ones inaccessible (configuration)", "reuse depends on list order and retirement counters"),
"C19": ("zones of all kinds created, retired, replaced, destroyed", "the page below and above each zone's user pages faults (probed without faulting) and is reported without access; two zones never share an accessible range", "replacement zones are only made after long histories"),
"C20": ("zero-size requests through every call, freed, resized and queried", "the result faults on access, has size 0, frees silently", "combinations"),
"C21": ("histories with every kind of free, then reports", "leak and usage reports equal an exact model (small chunks, bytes of large blocks, zones)", "exactness over histories; found errors of one"),
"C22": ("requests of one size into areas made for others", "size-class of each area fixed; waste limit; with strict isolation only the exact rounded size", "zone choice depends on which zones have room"),
"C23": ("tag, untag and verify round trips on chunks of every size, freed and reused, wrong pointers", "round trip, mismatch dies, tags of neighbours and reuse differ beyond chance", "found three defects for sizes that are not powers of two"),
"C24": ("blocks of patterned contents released in every way", "memory is read back through the map: no byte of the old contents where the configuration promises it", "every way of freeing times every size"),
"C25": ("histories with sampling at 1 in 3, with overruns, underruns and use after free at generated offsets", "sampled blocks lie against guard pages; access must fault or the canary check must abort; correct histories pass with the same contract", "at 1 in 10,000 tests almost never sample"),
"C26": ("memcpy, memmove, memset with generated lengths, offsets, alignments and overlaps, within and beyond chunks", "byte model (libc); overruns of a chunk must be stopped", "all alignments and overlaps"),
"C27": ("sequences of every malloc-family call under several builds; inputs to 16 real programs, run plain and preloaded", "model of live blocks; equality of output and status", "whole-program behaviour"),
"C28": ("sequences of all 18 operator forms; objects of 20 types through compiler-generated operators", "model as C27, exceptions and new-handler calls", "combinations of sized, aligned, array, nothrow"),
"C29": ("programs of 2 to 4 threads and a schedule: a seeded scheduler decides at every basic block, load and store and mutex call which thread runs; and free-running threads", "model of exclusivity and contents, no crash, no deadlock, leak report equal at the end", "schedules are sampled once by tests"),
"C30": ("windows of protection with calls inside, from the same and other threads", "calls inside fault or wait; what happens after equals the same history without windows", "tests do not enter the window"),
"C31": ("one history in 24 processes that differ in entropy only", "metamorphic: positions, steps and distances differ; equal entropy gives equal addresses", "needs many runs"),
"C32": ("every position of a generated history at which an entropy, mapping, protection or advice request can fail, once or from then on", "the call returns null or aborts deliberately; hints may fail freely; nothing is quietly wrong after", "tests cannot make the system fail"),
"C33": ("call paths through 96 generated stacks", "records are paths taken, counts and bounds within what the model allows; the file repeats them", "sampling is random"),
"C34": ("pointers stored at every alignment in live blocks, freed in every way", "only dangling pointers change, only to the reserved page; they do eventually; its use is reported", "odds of one in a million per free in the default build"),
"C35": ("the histories of C01 to C06, C12, C14, C21 under 12 pairwise-covering option combinations (each option alone in thorough)", "same model", "the tests run one build per fixed program"),
"C36": ("1 to 14 life cycles: start (explicit, by the constructor, by the first allocation, before any constructor), histories of all calls with leftovers, repeated initialisation, a second thread, destruction (explicit, at exit, both)",
        "the library's mmap/munmap calls are counted: with cleanup nothing but permanently freed addresses is left mapped; without it everything in use stays intact and usable; each cycle starts with empty reports and equal usage; repeated initialisation takes nothing", "one test destroys around a single allocation"),
"C37": ("zones of every size up to 8192 bytes, private and general, filled, drained, refilled; one protected byte range of one reserved chunk changed, or one freed", "the chunks left when a zone is full: number, constancy, contents; process death at the generated detection point", "no test fills a zone and looks at what remains"),
"C38": ("histories of everything that maps memory, root protected or not, in four configurations", "each accessible run of each recorded mapping is bordered by inaccessible pages of the same mapping, checked in the memory map after every mapping call", "a missing guard has no other visible effect"),
"C39": ("histories with migrations between 2 to 4 (of 4096) simulated cores, frees on other cores, zone replacement, threads", "the core at the mmap of a chunk's zone equals the core of the caller; capacity at home, null elsewhere; bounded number of zones", "needs migrations and many cores"),
"C40": ("histories, corruption of a freed chunk, and any next call", "the next call dies", "tests are not built with the option"),
"C41": ("first accesses to samples: reads, writes, concurrent writes, release untouched, resizing", "a first read is the end; nothing else ever is; no deadlock", "samples are one in ten thousand; the feature is never built by tests"),
"C42": ("histories around the lifetime limits of zones and large blocks", "a counting model of every mapping: replaced exactly when due", "16 thousand allocations are needed to get there, and which zone serves is not visible"),
"C43": ("histories of allocation, zones, naming, renaming, destruction and replacement, with the system accepting names or not", "a model of which page bears which name, fed by the redirected prctl calls, against every live block and fence", "the system's answer is not visible to a test, and many kernels refuse names"),
"C44": ("the same generated history in three processes that see the same mmap addresses and differ only in what getrandom returned", "no random-looking word, handle or recovered secret occurs in two of them; no word of the library's memory points into a zone or at bookkeeping", "one process with random addresses shows neither a constant secret nor a missing mask"),
"C45": ("ten builds with other documented values of conf.h (largest small size 16 to 128 KB, quarantine of 1 to 1000, zone cache of 1 to 32, lifetimes of 1 to 32, other default zones and smallest chunks, 65535 zones), each with the histories of C01, C12, C14, C16, C18, C37 and C42", "the same models, which take the limits from the changed conf.h", "tests run with the default values only")
}

out = []
w = out.append
w("""# Design: property-based testing and fuzzing of struct/isoalloc

`properties.jsonl` states 45 properties; all 45 are decided by generated-input search against an explicit
oracle, none is listed as not applicable.  There are no hooks in `/repo`: every check compiles the
sources of the working tree itself and observes the allocator through its interfaces, the process
memory map, signals, and (for C29, C31, C32, C36, C38, C39, C43 and C44) the libc functions the library calls, which are
redirected to stand-ins in the harness with `objcopy --redefine-sym`.  The checks judge behaviour, never
source text, so a refactoring leaves them quiet.

## Machinery

- `harness/pbt.hpp` - the engine.  A case is an entropy seed and a list of operations `(kind, a, b, c)`.
  Each runs in a forked child that starts with a pristine allocator, may be expected to die, and reports
  through shared memory.  `peek`/`readable`/`writable` probe memory through a pipe without faulting.
  Workers run on all cores.  A failure is re-run, shrunk by delta debugging over the operations and then
  their arguments, must reproduce three times, and is written to `replays/` (`h --replay FILE`).
  Cases are determined by the seed and their index; budgets are counts of cases, time limits only guard
  against a tree that hangs.
- `harness/world.hpp` - the reference model: live blocks as intervals with content patterns, zones,
  pending and permanent frees, areas, fences, reports.  Each property switches on its own oracles so that
  one defect raises one alarm.
- `run.py` builds (cached by a hash of sources, harness and configuration), runs the jobs of `jobs.py`,
  merges the statistics into `evidence/<id>.json` and prints `VIOLATION` / `KNOWN-FINDING` lines.  Random
  choices of the library come from `getrandom` as they are, except in C31, where they are controlled.
  A harness process that dies of a crash twice (in the configurations where it runs on the allocator
  itself) is a violation too.
- `tools/setup.py` builds nothing outside `/verif/build` (ignored by git).

An evaluation is one generated case.  Each harness states the rule by which a case counts as non-trivial;
the evidence file has the counts per class of event, and samples.

Levels: every claim is `exploration`.  Nothing is proved; what is not generated is not covered.

## The properties

Cost is the wall time of a quick run on 8 cores, building included; thorough runs are 5 to 20 minutes.
""")
w("| id | title | quick cost | builds (quick / all) |\n|---|---|---|---|")
for p in props:
    i = p["id"]
    if i in PROPS:
        q = {j["cfg"] for j in PROPS[i]["jobs"] if "quick" in j}
        a = {j["cfg"] for j in PROPS[i]["jobs"]}
        w("| %s | %s | %s | %d / %d |" % (i, p["title"], DATA["cost"].get(i, "-"), len(q), len(a)))
    else:
        w("| %s | %s | - | - |" % (i, p["title"]))
w("")
for p in props:
    i = p["id"]
    g, o, y = T[i]
    w("### %s %s\n" % (i, p["title"]))
    w("- *Deciding method*: %s." % NOTES.get(i, ["-"])[0])
    w("- *Generated*: %s." % g)
    w("- *Oracle*: %s." % o)
    w("- *Beyond the tests*: %s." % y)
    if i in PROPS:
        js = []
        for j in PROPS[i]["jobs"]:
            if len(js) < 7:
                js.append("%s%s/%s %s" % (j["h"], ":" + j["extra"] if j.get("extra") and j["extra"] != "x" else "", j["cfg"], "/".join(str(j[t][0]) if t in j else "-" for t in ("quick", "thorough"))))
        more = len(PROPS[i]["jobs"]) - len(js)
        w("- *Runs* (harness/build, cases quick/thorough): %s%s." % ("; ".join(js), "; and %d more" % more if more > 0 else ""))
    n = NOTES.get(i, ["", ""])[1]
    n = n.split("harness/world.hpp.", 1)[-1].strip() if "harness/world.hpp." in n else n
    if n:
        w("- *Bounds*: %s" % n)
    w("")
w("""The checks that use `world.hpp` explore histories of mostly up to 250 operations plus bulk steps (a bulk
step is hundreds to thousands of calls); the model and the kernel's memory map are trusted.

## Defects found

Every line is a defect of the pinned tree that a check showed on the real code.  Those marked *fixed* were
repaired by the commit named, whose message starts with `fix:`; the check reports them again if they return.
""")
for l in open(os.path.join(H, "known_findings.txt")):
    l = l.strip()
    if l.startswith("fixed:"):
        w("- " + l[7:].replace("property=", "", 1) + " (*fixed*)")
w("")
for l in open(os.path.join(H, "known_findings.txt")):
    l = l.strip()
    if l.startswith("finding:"):
        w("- " + l[9:].replace("property=", "", 1) + " (*recorded, not repaired*: repairing it means changing how zone slots are recycled)")
w("\n## Noted, not claimed\n\nOddities met while reading, which break no listed property or lie outside this host:\n")
for x in DATA["noted"]:
    w("- " + x)
w("\n## Limits of wording\n")
for x in DATA["limits"]:
    w("- " + x)
w("\n## False alarms met, and what was corrected\n")
for x in DATA["false_alarms"]:
    w("- " + x)
w("\n## Planted bugs\n\nEach was written from a property's text and the code, confirmed to build, to pass the repository's stable\ntests and to fail its own demonstration, and then run against the checks.\n")
w("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    try:
        m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    except OSError:
        continue
    w("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), DATA["caught"].get(d, m["property"])))
w("")
for x in DATA["mutants"]:
    w(x)
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
