#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one place)."""
import json, os
A='src/iso_alloc.c'; I='src/iso_alloc_interfaces.c'; S='src/iso_alloc_sanity.c'; U='src/iso_alloc_util.c'
H='src/malloc_hook.c'; L='src/libc_hook.c'; X='src/iso_alloc.cpp'; T='src/iso_alloc_mem_tags.c'; P='src/iso_alloc_profiler.c'
D='include/iso_alloc_ds.h'; C='include/conf.h'; R='src/iso_alloc_random.c'; Q='src/iso_alloc_search.c'; G='src/iso_alloc_signal.c'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    props.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Live allocations are disjoint, aligned, writable and as large as requested",
 "Every non-null pointer an allocation call returns is at least 8-byte aligned and gives the caller exclusive use of at least the requested number of readable and writable bytes. Two allocations that are live at the same time never share a byte, and no allocation reaches into memory that the allocator itself uses.",
 ["histories","inputs"],"every sequence of allocation, reallocation, duplication and free calls of any sizes from 1 byte to several megabytes, including private zones",
 "The tests allocate fixed size ladders and free them in order; they never compare the returned ranges with each other, and mixed histories that reuse, fill and overflow zones are not sampled.",
 [A,I,D],[("bit slot allocation and in-use check","_iso_alloc_bitslot_from_zone"),("free slot cache and bitmap scans","fill_free_bit_slots, is_zone_usable"),("zone selection by size","find_suitable_zone"),("big zone list reuse","_iso_big_alloc")],
 ["pointers returned by the public allocation calls","usable-size query"],[("zone bitmap","two bits per chunk: free, in use, was used, canary",A)])
p("C02","A live allocation keeps its contents and stays valid through long histories",
 "Bytes a program wrote into a live allocation read back unchanged until that allocation is freed, whatever other allocations, frees, flushes, zone creations, zone destructions or zone replacements happen in between. The allocator keeps serving valid requests without aborting however long the program runs and however many times its zones fill up, drain and are replaced.",
 ["histories"],"every valid history, including ones long enough to fill zones, create many zones of one size, and retire and replace zones repeatedly",
 "The tests run short fixed loops; zone replacement after many lifetime allocations of each default size, and histories that mix replacement with live data elsewhere, are reached by none.",
 [A,D,C],[("zone retirement and replacement","_is_zone_retired, _iso_alloc_destroy_zone_unlocked"),("zone lookup tables","zone_lookup_table, chunk_lookup_table in _iso_new_zone"),("prepared small bitmaps","_iso_new_zone")],
 ["contents of live allocations","process termination"])
p("C03","calloc memory is zero over the whole requested area",
 "Every byte of the area returned by a zeroing allocation of n elements of a given size reads as zero, whatever was stored there by earlier owners. The area is at least n times the element size bytes long.",
 ["histories","inputs"],"every element count and size, on fresh and on recycled memory of every size class, after arbitrary dirtying histories",
 "The tests call calloc a few times and do not read the memory back after dirtying it.",
 [A,I],[("zero fill of the computed total","_iso_calloc")],["bytes of the returned area"])
p("C04","Requests that cannot be met fail cleanly instead of returning a short chunk",
 "A request whose byte count overflows, exceeds the largest supported size, or does not fit the chosen pool yields a null pointer (or terminates the process where the documentation or build option says so), never a pointer to fewer bytes than requested. A request that failed with null leaves all live allocations and later requests unaffected. In builds configured to abort instead of returning null, these failures terminate the process, except that overflowing array requests (calloc, reallocarray) still return null.",
 ["inputs","configurations"],"every size and count in the 64-bit range for every allocation call, with arbitrary live allocations around it",
 "The tests try one or two huge sizes; the values just below the wrap-around and products that wrap are never tried.",
 [A,I,H],[("size rounding","_iso_alloc"),("multiplication overflow checks","_iso_calloc, iso_reallocarray"),("big size limit","_iso_big_alloc")],["return values"])
p("C05","realloc preserves contents and the original on failure",
 "Resizing an allocation returns a new block whose first min(old, new) bytes equal the old contents, releases the old block exactly once, and acts as allocation for a null pointer and as free for size zero. When resizing fails, null is returned and the original allocation stays valid and unchanged.",
 ["histories","inputs"],"every chain of resizes across all size classes (small, default, large, private), with other live allocations",
 "The tests resize a handful of small blocks and never compare contents, never cross into or between the large sizes repeatedly.",
 [I,A],[("allocate, copy, free","iso_realloc"),("array variant","iso_reallocarray"),("sized free of the old block","_iso_free_size")],["contents after resize","later free of the block"])
p("C06","The usable-size query is exact, stable and has no side effects",
 "Asking for the usable size of a live allocation returns a value at least as large as the request, the whole of which can be used without affecting anything else, and the same value until it is freed; null and zero-size allocations report zero. Asking any number of times at any point changes nothing about later allocations, frees, reports or checks.",
 ["histories","inputs"],"every live allocation of every size and kind, with the query inserted at arbitrary points of a history",
 "The tests query a few small chunks right before freeing them; a query on large allocations followed by further list operations is not exercised.",
 [I,A],[("size lookup","_iso_chunk_size"),("large allocation lookup without removal","iso_find_big_zone")],["query result","subsequent behaviour"])
p("C07","String duplication yields an independent, terminated, equal string",
 "Duplicating a string returns a new, independently owned and NUL-terminated copy equal to the source, and the bounded variant returns the terminated prefix of at most n characters, exactly as the C library's functions do; a null source yields null. The same holds when the copy is made from a private pool whose chunks are large enough.",
 ["inputs","histories"],"every string (length 0 to tens of kilobytes), every bound, on recycled memory holding other data",
 "The tests duplicate one constant string into fresh zeroed memory, where a missing terminator cannot show.",
 [I],[("copy routines","iso_strdup_from_zone, iso_strndup_from_zone")],["returned string"])
p("C08","Freeing an allocation twice terminates the process",
 "If a program frees an allocation a second time without it having been handed out again before that second free takes effect, by any combination of the freeing calls, the process is terminated at the latest when pending frees are flushed, and the memory is never handed to two owners. This holds for small, large, private and permanently freed allocations.",
 ["histories","inputs"],"every history containing exactly one double free, for every pair of freeing calls, size class and distance between the two frees",
 "The tests contain two fixed double frees (one small, one large) with the default free call only.",
 [A],[("in-use bit check","iso_free_chunk_from_zone"),("used/free big lists","iso_find_big_zone, iso_free_big_zone")],["process termination"])
p("C09","Freeing anything but a live allocation's own pointer terminates the process",
 "Freeing a pointer that is not the start of a live allocation of this allocator - misaligned, inside a chunk, inside a large block, outside every zone, or handed to the wrong private pool or with a size larger than the chunk - terminates the process at the latest when pending frees are flushed. Freeing null or a zero-size allocation is always harmless.",
 ["inputs","histories"],"every address class (offset within chunk, neighbouring, stack, static, unmapped), every freeing call, in arbitrary surrounding histories",
 "The tests contain one example each of a wild, an unaligned and an interior free, and one sized free.",
 [A],[("alignment check","_iso_free"),("zone range lookup","iso_find_zone_range"),("multiple of chunk size check","iso_free_chunk_from_zone"),("size checks","_iso_free_size")],["process termination"])
p("C10","Corrupting a freed chunk's edge is detected",
 "After a small chunk has been freed, any change to the protected bytes at its beginning or end - by a use after free or by an overflow or underflow from a neighbour - terminates the process at the latest when the chunk is handed out again, when an adjacent chunk is freed, when the zone is checked, or when the allocator is shut down.",
 ["histories","inputs"],"every freed chunk, every non-zero change of its first or last eight bytes (excluding the one unchecked byte value), every detection point, every size class and private pools",
 "The tests do one linear overflow and one underflow over a block of memory and rely on the probability of hitting something.",
 [A,S],[("canary write on free","write_canary"),("canary check","check_canary in _iso_alloc_bitslot_from_zone, iso_free_chunk_from_zone, _verify_zone")],["process termination"])
p("C11","Overwriting a large allocation's bookkeeping is detected",
 "A linear overwrite, from either direction, of the record that describes a large allocation terminates the process as soon as that record is next visited by a free, an allocation that searches the list, or an integrity check.",
 ["histories","inputs"],"every large allocation, live or on the free list, every overwrite direction, length and pattern, every detecting call",
 "One test smashes one canary field of one large block and frees it.",
 [A,S],[("two canaries per record","check_big_canary, _iso_big_alloc"),("list walk checks","_verify_big_zone_list, iso_find_big_zone")],["process termination"])
p("C12","Integrity checks, flushes and reports never fire on or disturb a correct program",
 "On a program that uses the interface correctly, integrity checks of one or all zones, cache flushes, usage and leak reports, and the shutdown verification never terminate the process and never change any allocation, at whatever points they are called.",
 ["histories"],"every valid history with check, flush, report and shutdown calls inserted at arbitrary points",
 "The tests call the checks a few times at the end of a run, after everything is freed.",
 [S,A,P],[("zone verification","_verify_all_zones, _verify_zone"),("flush","flush_caches"),("reports","_iso_alloc_detect_leaks, _iso_alloc_mem_usage"),("shutdown","_iso_alloc_destroy")],["process termination","contents of live allocations"])
p("C13","Private zones share memory with nobody",
 "Memory of a private zone is handed out only by requests that name that zone: general allocations never return it and different private zones never overlap, throughout the life of the zone. A request naming a private zone never returns memory from anywhere else.",
 ["histories"],"every interleaving of general allocations and operations on many private zones of equal, similar and different sizes, with caches warm and with freed chunks",
 "The tests create a few private zones and allocate in loops without comparing where the chunks lie.",
 [A,I],[("internal flag checks","find_suitable_zone, populate_zone_cache, is_zone_usable"),("lookup table excludes private zones","_iso_new_zone")],["addresses of returned chunks"])
p("C14","A private zone delivers its advertised capacity and a clean end of life",
 "A private zone hands out at least as many chunks as it reports it can hold, each usable for the zone's chunk size; when exhausted it returns null rather than memory from elsewhere, and freed chunks become available again. Creating a zone for an unsupported chunk size yields null, and destroying a zone makes all of its chunks inaccessible while every other allocation and zone keeps working.",
 ["histories","inputs"],"every chunk size from 1 byte to the maximum, every interleaving of filling, draining, refilling and destroying zones",
 "The pool test fills zones of a few power-of-two sizes once; odd sizes, refilling after exhaustion and destruction with live neighbours are not tried.",
 [A,I],[("chunk count minus canaries","iso_zone_chunk_count"),("free slot search on refill","is_zone_usable, iso_scan_zone_free_slot_slow"),("destruction","_iso_alloc_destroy_zone_unlocked")],["number of successful allocations","accessibility after destroy"])
p("C15","Permanently freed memory is never handed out again",
 "A chunk freed permanently is never returned by any later allocation during the lifetime of its zone, its old contents are gone, and for large allocations the pages become inaccessible. All other chunks keep being usable and integrity checks keep passing.",
 ["histories"],"every history mixing permanent and ordinary frees of small, private and large allocations followed by allocation pressure that exhausts the zone",
 "The tests permanently free a few chunks and do not check that the address stays retired.",
 [A],[("both bits left set","iso_free_chunk_from_zone"),("big pages protected","iso_free_big_zone")],["addresses of later allocations","contents and accessibility of the freed memory"])
p("C16","Ordinary frees are delayed by the quarantine",
 "A chunk released with the ordinary free call is not handed out again before the quarantine that holds it is flushed, which happens when it is full or when the program asks for a flush; after a flush the chunk is available again and nothing freed through the quarantine is lost.",
 ["histories"],"every history of ordinary frees and allocations, with and without explicit flushes, for all size classes and private zones",
 "No test looks at when a freed address comes back.",
 [A,I,C],[("chunk quarantine","_iso_free, flush_chunk_quarantine")],["addresses of later allocations"])
p("C17","A bounded working set keeps memory use bounded",
 "A program whose live data stays bounded and which repeats its allocation pattern forever reaches a steady state: the address space and the number of mappings held by the allocator stop growing. This covers small, large, resized and private-zone allocations, including creating and destroying zones over and over.",
 ["histories"],"every cyclic workload over any size mix, repeated long enough to pass retirement and free-list limits",
 "Tests run for fractions of a second and never measure the process's mappings.",
 [A,U],[("slot reuse","insert_free_bit_slot, fill_free_bit_slots"),("big free list limits and unmapping","iso_free_big_zone"),("zone destruction and replacement","_iso_alloc_destroy_zone_unlocked")],["process mappings over time"])
p("C18","Large allocations are page-backed, reused tightly and released for good",
 "An allocation above the small-size limit starts on a page boundary, is usable for the whole of its reported size, and that size exceeds the request by at most the documented reuse waste plus page rounding. A freed large block is handed out again only to a large request that fits it, and where the build protects free large blocks or adds guard pages around them, touching a free block or running off either end of a live one faults.",
 ["histories","configurations"],"every sequence of large allocations and frees of arbitrary sizes, in all large-block build options",
 "The large-block test allocates a fixed ladder of sizes; reuse decisions, retirement and guard placement are not observed.",
 [A,U,C],[("free list best-fit window","_iso_big_alloc"),("ttl and list limits","iso_free_big_zone"),("guard options","BIG_ZONE_GUARD, PROTECT_FREE_BIG_ZONES")],["addresses, reported sizes, faults"])
p("C19","Zone memory is fenced by inaccessible guard pages",
 "Reading or writing just below the first or just above the last byte of the area that holds a zone's chunks faults, for every zone the allocator ever creates, general or private, first or replacement. No chunk of one zone is ever reachable by running linearly out of another.",
 ["histories","configurations"],"every zone created by any history, under every build option that changes zone layout",
 "No test reads beyond a zone; the overflow tests stay inside.",
 [A,U],[("guard pages above and below","_iso_new_zone, mmap_guarded_rw_pages, create_guard_page")],["memory map of the process","faults"])
p("C20","Zero-size allocations are unique-purpose, inaccessible and harmless",
 "A plain allocation request of zero bytes returns a non-null pointer that can be passed to every general freeing, resizing and size call any number of times, and any read or write through it faults. Other zero-size requests (zero elements, or elements of zero size) return null or a block like any other. Zero-size requests never consume or expose memory of other allocations.",
 ["inputs","histories"],"every allocation call given a zero size or zero product, in every order with the freeing and resizing calls",
 "One test allocates zero bytes and writes to it once.",
 [A],[("protected page","_iso_alloc zero path, _iso_free, _iso_free_size, _iso_chunk_size")],["faults","return values"])
p("C21","Leak and usage reports equal what the history says",
 "With leak detection built in, the leak report of a zone equals the number of its live chunks, and the overall report equals the number of live small chunks plus the bytes of live large allocations, at every point of every history (pending frees count until flushed). Usage reports grow exactly with the zones and large blocks the allocator holds.",
 ["histories"],"every valid history queried at arbitrary points, with permanent frees, private zones and large allocations",
 "The leak test checks one fixed number.",
 [P,A],[("bitmap walk","_iso_alloc_zone_leak_detector"),("big list walk","_iso_alloc_detect_leaks"),("usage sums","__iso_alloc_mem_usage, __iso_alloc_big_zone_mem_usage")],["report values"])
p("C22","An address range only ever serves one chunk size",
 "Within the area of one zone all chunks ever handed out have the same size and start at multiples of that size, so memory of one size class is never reused for another while the zone exists, and a request above one kilobyte is never served from a chunk eight or more times its rounded size. With strict size isolation configured, a small request is served only by a zone whose chunk size is exactly the rounded request.",
 ["histories","configurations"],"every history over all sizes, with zones of many sizes created, filled, emptied and replaced",
 "No test relates addresses to sizes over time.",
 [A],[("first fit with waste limit","is_zone_usable, find_suitable_zone"),("strict isolation option","STRONG_SIZE_ISOLATION in is_zone_usable")],["addresses and usable sizes"])
p("C23","Memory tags round-trip, verify, and change when memory is released",
 "With memory tagging built in, tagging a private-zone chunk and untagging it returns the original pointer, verifying or freeing a correctly tagged pointer never terminates a correct program, and verifying or freeing through a pointer whose tag does not match the chunk's current tag terminates the process. Freeing a chunk gives it a fresh random tag and leaves the tags of other chunks alone, except that a zone without live chunks gets fresh tags for all chunks once it has gone through a quarter of its lifetime, for every chunk size a private zone supports.",
 ["histories","inputs"],"every chunk of private zones of every size, every tag value, across frees, reuse and tag refresh",
 "The tagging tests use one power-of-two chunk size and a few chunks.",
 [T,A],[("tag storage and lookup","_iso_alloc_get_mem_tag"),("verify and untag","_iso_alloc_verify_tag, _untag_ptr"),("refresh","_refresh_zone_mem_tags, _iso_free_internal_unlocked")],["pointer values","process termination"])
p("C24","Released data does not survive where the build promises to wipe it",
 "With sanitizing of freed memory built in, the previous contents of every freed small chunk (outside the bytes used for corruption detection) are overwritten with a fixed non-zero byte when the free takes effect, and contents of freed large blocks are not readable by their next owner. A permanently freed small chunk is overwritten in every build.",
 ["histories","inputs","configurations"],"every chunk size and freeing call, contents of any pattern",
 "No test inspects freed memory.",
 [A],[("poison fill","iso_free_chunk_from_zone, iso_free_big_zone")],["bytes of freed memory and of the next owner's memory"])
p("C25","Sampled page-level allocations behave like ordinary ones and catch overruns",
 "With allocation sampling built in, sampled and unsampled allocations are indistinguishable to a correct program: disjoint, aligned, large enough, content preserving and freeable by every call, and private-zone requests are never sampled. An overrun past a page-end-placed sample faults, and changes to the unused bytes of a sampled page terminate the process when it is freed.",
 ["histories","inputs"],"every history long enough for samples to occur, all sizes below a page, all freeing calls",
 "Sampling happens once in ten thousand allocations; the tests never know whether a sample occurred.",
 [S,A],[("sampling","_iso_alloc_sample"),("canary page fill and check","write_sanity_canary, check_sanity_canary"),("release","_iso_alloc_free_sane_sample")],["contents, faults, process termination"])
p("C26","The replacement memory-copy functions equal the standard ones and stop overruns",
 "With the checked memory functions built in, copying, moving and filling produce exactly the bytes the standard functions produce for every length, alignment and overlap that is valid, and return the destination. An operation longer than the chunk it reads from or writes to, in a zone the fast lookup knows, terminates the process instead of overrunning.",
 ["inputs"],"every length, offset, overlap and fill byte; every chunk size; in-bounds and out-of-bounds lengths",
 "The tests do one oversized copy, move and fill each.",
 [S,L],[("checked copies","_iso_alloc_memcpy, _iso_alloc_memmove, _iso_alloc_memset")],["buffer contents","process termination"])
p("C27","Programs using the standard malloc family run correctly on the library",
 "When the library replaces the C allocation functions, every standard call (malloc, calloc, realloc, reallocarray, free, posix_memalign, aligned_alloc, memalign, malloc_usable_size) meets its standard contract for any sequence of calls, including memory passed between different calls of the family, up to the very end of the process (memory still in use when the library's destructor runs stays usable unless cleanup on exit was built in). Invalid alignments are rejected without allocating anything and the alignment requested from posix_memalign is honoured up to a page.",
 ["histories","inputs","programs"],"every sequence of standard allocation calls, every alignment and size, in a process where the library is preloaded or linked",
 "The tests call the native interface; the standard entry points are covered by one posix_memalign call.",
 [H],[("forwarders","malloc_hook.c"),("alignment by size class","__posix_memalign")],["return values, alignment, contents"])
p("C28","C++ new and delete work in every form",
 "Every form of operator new and delete (scalar, array, sized, nothrow, aligned) allocates at least the requested memory and releases it exactly once in any matching combination, including sized delete of any size. A throwing new that cannot be satisfied throws the standard exception and a non-throwing one returns null.",
 ["histories","inputs","programs"],"every sequence of C++ allocation operators with all sizes, including impossible ones",
 "The C++ test allocates fixed arrays with plain new and delete.",
 [X],[("operator overrides","iso_alloc.cpp")],["exceptions, return values, contents"])
p("C29","All guarantees hold under concurrent use from many threads",
 "Threads that allocate, resize, query, free their own and each other's memory, create and destroy zones, tag and check pointers of a zone they share, and call checks and reports at the same time never receive overlapping memory, never lose contents, and never crash, abort or deadlock. This holds with either locking option and with zones pinned to processors.",
 ["schedules","histories","configurations"],"every interleaving of valid per-thread histories, with memory handed between threads",
 "The thread test starts a few threads that allocate and free privately in fixed loops.",
 [A],[("root lock","LOCK_ROOT"),("big zone locks","LOCK_BIG_ZONE_USED, LOCK_BIG_ZONE_FREE"),("thread-local zone cache","zone_cache")],["contents, addresses, termination, progress"])
p("C30","Protecting the root disables the allocator until it is unprotected",
 "While the allocator's root is protected, no allocator call that needs the allocator's state completes or changes anything, from any thread (freeing null, asking the size of null and repeated initialisation need none): a call in the same thread faults or blocks, and a call from another thread waits or faults. After unprotecting, everything continues as if nothing had happened.",
 ["histories","schedules"],"every history with protect/unprotect pairs at arbitrary points and every call attempted in between",
 "One test protects and unprotects once with nothing in between.",
 [A],[("mprotect of the root under the lock","_iso_alloc_protect_root, _iso_alloc_unprotect_root")],["faults, blocking, state afterwards"])
p("C31","Addresses are handed out in an unpredictable order",
 "With free-list randomization built in, the order in which a fresh or refilled zone hands out chunks is neither sequential nor the same from one run to the next, and zones are mapped at addresses that differ between runs. The order is a function of the entropy source only.",
 ["inputs","histories"],"every default and private chunk size with enough chunks to shuffle, every entropy value",
 "One test compares a single sequence with sorted order.",
 [A,U,R],[("shuffle of the slot cache","fill_free_bit_slots"),("random mapping hints","mmap_pages"),("generator","us_rand_uint64, rand_uint64")],["sequence of returned addresses"])
p("C32","Failure of the operating system's resources never yields bad memory",
 "If obtaining entropy, mapping or protecting memory fails at any point, the call either fails with null or deliberately terminates the process; it never returns memory that is overlapping, unwritable, unprotected where protection is promised, or predictable because the entropy was missing. Only size-based mapping hints may fail over to ordinary pages.",
 ["fault_sequences","histories"],"every position at which a single or persistent failure of an entropy, map or protect request can be injected, over varied histories",
 "No test injects a failure.",
 [U,R,A],[("abort on failed mmap/mprotect","mmap_pages, mprotect_pages"),("abort without entropy","rand_uint64")],["return values, process termination"])
p("C33","Heap profiler traces are complete and consistent",
 "With the profiler built in, the trace queries return as many records as they report, all filled in, with size bounds that bracket the sampled requests (as rounded to the allocator's granularity) and no more than the documented maximum; resetting empties them. Profiling never changes what the program's allocations return, and the profile file written at exit reports the true number of allocations, and of frees made through the ordinary free call.",
 ["histories"],"every history long enough to be sampled, from varied call paths and sizes, with queries and resets at arbitrary points",
 "Tests with the profiler only check that the programs still run.",
 [P],[("sampling","_iso_alloc_profile, _iso_free_profile"),("trace export","_iso_get_alloc_traces, _iso_get_free_traces"),("file output","_iso_output_profile")],["trace records, profile file"])
p("C34","Dangling-pointer poisoning hits only dangling pointers",
 "With the use-after-free pointer page built in, the only change the allocator ever makes to live data is to replace a stored pointer to a chunk that has just been freed by an address whose use faults, and this eventually happens for programs that keep such pointers. With the signal handler built in, dereferencing it terminates the process with a report.",
 ["histories"],"every history of frees with stored dangling and live pointers, long enough for the random trigger",
 "The trigger fires once in a million frees; no test reaches it.",
 [Q,G,A],[("heap search","_iso_alloc_ptr_search"),("trigger","_iso_free_internal_unlocked"),("handler","handle_signal")],["contents of live allocations, faults"])
p("C35","Every supported build option preserves the allocator's contract",
 "Whatever combination of documented build options the library is built with, a correct single-threaded program sees the same contract: disjoint, aligned, sufficiently large, content-preserving allocations, zeroed calloc, working resize and private zones, and no spurious termination.",
 ["configurations","histories"],"every documented option on its own and random combinations of options, each over generated histories",
 "Each option's test run repeats the same fixed programs.",
 [A,S,U,I,"Makefile"],[("conditional code for each option","#if blocks throughout src")],["same observations as C01-C06 per configuration"])
p("C36","Explicit initialise and destroy give a complete, clean life cycle",
 "The allocator is usable from the first call after initialisation (explicit, automatic, or by the first allocation), repeated initialisation is harmless and keeps all allocations, and destroying it succeeds for every valid state. With cleanup on destroy built in, destroying returns the memory of zones and large allocations to the system.",
 ["histories","configurations"],"every history between initialise and destroy, with arbitrary leaks left over, repeated initialisation, automatic and manual modes",
 "One test initialises and destroys around a single allocation.",
 [A,I],[("initialisation guard","_iso_alloc_initialize"),("teardown","_iso_alloc_destroy")],["process termination, process mappings"])
p("C37","Canary chunks are set aside, never served, and betray any change",
 "In every zone for chunks of up to 8192 bytes, at least one chunk and at most one in 128 is set aside as a canary from the start: it is never handed out and freeing it terminates the process. A change to its protected bytes terminates the process when the zone is checked, a neighbouring chunk is freed, or the allocator is shut down. The canary values in these chunks start with a zero byte and follow from a secret that differs for every zone.",
 ["histories","inputs"],"every chunk size up to 8192 bytes in private and general zones, filled, drained and refilled; every protected byte of every canary chunk; every way of detection",
 "The tests never fill a zone and look at what is left; the chunks set aside and their values are never examined.",
 [A,S,C],[("choice of canary chunks","create_canary_chunks"),("canary value","write_canary, CANARY_VALIDATE_MASK"),("checks","check_canary, _verify_zone, iso_free_chunk_from_zone")],["addresses handed out until exhaustion","contents of chunks never handed out","process termination"])
p("C38","Everything the allocator maps is fenced and never executable",
 "Every accessible piece of memory the allocator maps - zones, bitmaps, tags, caches, lookup tables, the root, sampled pages, and large blocks and their records where those guards are built in - is bordered on both sides by inaccessible pages of its own, at every point of every history. Pages of user chunks share no accessible piece with the allocator's own data, and none of its memory is executable.",
 ["histories","configurations"],"every history of allocations, zones made, retired, replaced and destroyed, large blocks made, reused and released, with the root protected or not, in four configurations",
 "The tests never look at the memory map; a missing guard changes nothing until an overflow runs on.",
 [A,U,S],[("guarded mappings","mmap_guarded_rw_pages, create_guard_page"),("zone layout","_iso_new_zone"),("prepared bitmaps","iso_alloc_initialize_global_root"),("release","unmap_guarded_pages")],["the process memory map, compared with the library's mmap and munmap calls"])
p("C39","With core pinning a zone only serves the core that created it",
 "With CPU_PIN built in, every small chunk handed out comes from a zone that was created on the processor core the caller runs on; a private zone returns null on other cores and delivers its full capacity on its own. Chunks may be freed on any core, become available to their own core again, and the number of zones stays bounded when a program keeps allocating and freeing on several cores, whatever their numbers are.",
 ["histories","schedules"],"every history of allocation, freeing, zone creation and replacement interleaved with migrations between cores numbered 0 to 4095, with and without thread support",
 "The tests do not migrate between cores, and machines with more than 256 cores are not at hand.",
 [A,U,D],[("core check","is_zone_usable"),("core of a zone","_iso_new_zone, cpu_core"),("current core","_iso_getcpu")],["addresses handed out","core at the time a zone was mapped"])
p("C40","With FUZZ_MODE the very next operation finds a corrupted chunk",
 "With FUZZ_MODE built in, every allocation of a small chunk and every free that takes effect checks all zones first: after a change to the protected bytes of any freed chunk, the next such call terminates the process, whichever zone, size and call it concerns. Correct programs are never terminated.",
 ["histories","inputs"],"every freed chunk in every kind of zone, every protected byte, every kind of next call, in arbitrary histories",
 "No test is built with this option.",
 [A,S],[("check on every call","_iso_alloc, _iso_free_internal_unlocked"),("check of all zones","_verify_all_zones")],["process termination"])
p("C41","Reads of a sampled allocation before any write are detected",
 "With UNINIT_READ_SANITY built in, reading any byte of a sampled allocation before any byte of it was written terminates the process, whichever thread reads. A program that writes first is never stopped, delayed for ever or changed: not by the first write itself, by several threads writing their parts of a fresh sample at once, by calloc and the string functions, by resizing, or by freeing a sample, written or not, in any way. Sampling itself keeps happening.",
 ["histories","inputs","schedules"],"every first access to a sample at every offset, every history of untouched and written samples, every way of releasing them, several threads writing at once",
 "Sampling happens once in ten thousand allocations, and no test is built with this option.",
 [S],[("page fault handler","_page_fault_thread_handler"),("registration","_iso_alloc_sample"),("release","_iso_alloc_free_sane_sample")],["process termination, contents, progress"])
p("C42","Zones and large blocks are replaced after their documented lifetime",
 "A general zone that has served more than 32 times the number of chunks it holds is replaced as soon as none of its chunks is in use: from then on no chunk of its old memory is handed out. It is never replaced earlier, nor while a chunk of it is in use or its free is still delayed, whichever call frees the last one. A private zone is never replaced. The memory of a large block is handed out 16 times at most and then given back; before that it is kept for reuse as long as fewer than 64 free large blocks are kept.",
 ["histories"],"every history that brings zones and large blocks up to, over and past their limits, with chunks in use, delayed frees, resizing, permanent frees and zone destruction around the limit",
 "Tests are too short to reach the limits deliberately and do not know which zone a chunk comes from.",
 [A,C],[("retirement of zones","_is_zone_retired, _iso_free_internal_unlocked"),("counters","_iso_alloc_bitslot_from_zone, iso_free_chunk_from_zone"),("retirement of large blocks","iso_free_big_zone, _iso_big_alloc")],["addresses handed out, compared with the library's mmap and munmap calls"])
p("C43","Names given to the allocator's memory label exactly that memory",
 "With NAMED_MAPPINGS built in, the system is only ever asked to name whole pages that the allocator has mapped. Every chunk lies in memory named as a default or as a private zone, according to what it is, large blocks and sampled pages bear their own names, and only inaccessible pages are called guard pages. iso_alloc_name_zone gives its name to all pages of that zone and to nothing else, keeps no reference to the caller's buffer, and returns 0 exactly if the system did it; the name ends with the zone. When the system refuses to name memory, nothing else changes. Without the option nothing is named and the call returns 0.",
 ["histories","configurations"],"every history of allocation, zone creation, naming and renaming, destruction and replacement, with the system accepting or refusing names",
 "The tests call it at most once and cannot see what the system was asked; kernels without the feature refuse everything.",
 [U,I],[("naming","name_mapping, mmap_pages, create_guard_page"),("naming of zones","iso_alloc_name_zone")],["the library's prctl calls compared with its mmap and munmap calls"])
p("C44","Secrets are drawn anew for every process and zone, and metadata is masked",
 "What protects the allocator's data depends on fresh randomness: the secrets behind chunk canaries and large-block bookkeeping, the masks of pointers and zone handles, and memory tags differ from process to process even when every mapping lies at the same address, and canary secrets and pointer masks differ from zone to zone. Between calls, with MASK_PTRS built in, the allocator's own memory holds no plain pointer to the chunks or the bitmap of a zone or to the bookkeeping of a large block, and no zone handle is an address of the allocator. The bookkeeping of large blocks lies at varying places in its page, holds no word that follows from its addresses alone, and the addresses asked of the system are random.",
 ["histories","configurations"],"every history of allocation and release of chunks, large blocks and private zones, compared between processes that differ only in the randomness they were given",
 "A test sees one process, whose addresses are random anyway, and none of the allocator's records.",
 [A,U],[("secrets","iso_alloc_initialize_global_root, _iso_new_zone, _iso_big_alloc"),("masking","MASK_ZONE_PTRS, MASK_BIG_ZONE_NEXT, UNMASK_ZONE_HANDLE"),("generators","us_rand_uint64, rand_uint64"),("address hints","mmap_pages")],["the words of the library's own mappings, found through its redirected mmap calls"])
p("C45","The documented tuning values of conf.h never change the contract",
 "The values conf.h invites users to change - the largest small size (powers of two up to 131072), the smallest chunk and the default zones, lengths of the quarantine, the zone cache and the free lists, lifetimes of zones and large blocks, reuse waste, the share of canaries, the number of zones - trade memory and speed for strength and nothing else. With any documented values a correct program sees the same contract: disjoint, sufficiently large, aligned, content-preserving allocations, private zones with their advertised capacity, exact reports, failing impossible requests, no spurious termination; and the configured lifetime, quarantine length, waste limit and canary share are the ones that are observed.",
 ["configurations","histories"],"every documented value of every tunable, with every history of calls",
 "The tests are built with the default values only.",
 ["include/conf.h",A,I],[("tunables","SMALL_SIZE_MAX, SMALLEST_CHUNK_SZ, default_zones, ZONE_ALLOC_RETIRE, CHUNK_QUARANTINE_SZ, ZONE_CACHE_SZ, CANARY_COUNT_DIV, BIG_ZONE_WASTE, BIG_ZONE_MAX_FREE_LIST, BIG_ZONE_ALLOC_RETIRE, MAX_ZONES, MIN_RAND_FREELIST"),("uses","_iso_alloc, _iso_new_zone, _iso_free_size, _is_zone_retired, flush_chunk_quarantine, create_canary_chunks, _iso_big_alloc")],["return values, contents, termination, and the library's mmap and munmap calls in each build"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in props:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(props))
