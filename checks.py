"""Per property: which binaries decide it, what a case is, and how much must
have been observed for the run to count."""
A = "asan"
def b(name, src, mode=A, **kw):
    return dict(name=name, src=[src] if isinstance(src, str) else src, mode=mode, **kw)

CHECKS = {
"C26": dict(
    bins=[b("join", "c26_join.cc")],
    title="merge joins vs. run-decomposition oracle",
    rule="case = pair of sorted ranges (random / exhaustive over 4 keys x <=2 copies / large) joined in 6 ways in one of 9 container+comparator flavours; non-trivial = both sides non-empty, distinct by key sequences",
    min=dict(evaluations=5000, joins=30000)),
"C27": dict(
    bins=[b("sorted_diff", "c27_sorted_diff.cc")],
    title="sorted_diff vs. pairing oracle and replay of the events",
    rule="case = pair of sorted (key,value) ranges (random edit scripts / exhaustive 3 keys x <=2 copies / large / string sets) in one of 4 container kinds, ascending or descending; non-trivial = both sides non-empty, distinct by contents",
    min=dict(evaluations=10000, diffs=10000)),
"C28": dict(
    bins=[b("power_set", "c28_power_set.cc")],
    title="power_set_intersection vs. all-pairs oracle with element identity",
    rule="case = pair of sorted ranges; every reported pair is resolved to element positions by address; non-trivial = some common key, distinct by key sequences",
    min=dict(evaluations=8000, pairs=100000)),
"C29": dict(
    bins=[b("equal_ranges", "c29_equal_ranges.cc")],
    title="equal_ranges / equal_ranges_linear vs. run-decomposition oracle",
    rule="case = key sequence (random / runs / exhaustive over 3 keys up to length 6 / large) through one sorted and one linear flavour; non-trivial = length > 1, distinct by keys",
    min=dict(evaluations=10000, ranges=50000)),
"C30": dict(
    bins=[b("nwise", "c30_nwise.cc")],
    title="nwise/pairwise windows checked by element address, lifetime counters",
    rule="case = element sequence run through nwise<1,2,3,4,5,9> and pairwise over 5 container kinds as lvalue, const, owned temporary, moved and copied range; non-trivial = non-empty, distinct by contents",
    min=dict(evaluations=1500, windows=100000)),
"C31": dict(
    bins=[b("zip", "c31_zip.cc")],
    title="zip/czip tuples checked by element address, copy/move/lifetime counters, size-mismatch oracle",
    rule="case = up to 5 containers zipped in all variants (lvalue/const/owned/moved), iterator walks, mismatching sizes (all triples below 8 plus random); distinct by size vector and container mix",
    min=dict(evaluations=6000, tuples=100000, mismatch=3000)),
"C32": dict(
    bins=[b("enumerate", "c32_enumerate.cc", fallback="post-increment/decrement of an enumerate iterator")],
    title="enumerate pairs checked by position and address; iterator walks vs. position model",
    rule="case = container (vector/list/deque/forward_list/set/map/string/array/pointers/temporaries) with a random iterator walk; distinct by kind and size",
    min=dict(evaluations=4000, elements=100000) | {"walk-steps": 10000}),
"C34": dict(
    bins=[b("inplace", "c34_inplace.cc", fallback="sort_by on const collections")],
    title="sequence-model oracle for insert_sorted/erase/erase_if/erase_duplicates/sort_by",
    rule="case = collection (random keys with duplicates, exhaustive short ones, large) of ints, heap-backed values or strings in vector/deque/list/set; non-trivial = non-empty, distinct by contents",
    min=dict(evaluations=5000, inserts=10000, erases=3000, dedups=4000, sorts=2000)),
"C35": dict(
    bins=[b("convert", "c35_convert.cc", fallback="to_set(begin, end, op)")],
    title="element-by-element oracle with call counting and lifetime accounting for to_vec/transform_to/to_set/repeat_n/concat",
    rule="case = input collection of one of six kinds through every conversion form; non-trivial = non-empty, distinct by contents",
    min=dict(evaluations=4000, conversions=15000)),
"C36": dict(
    bins=[b("goc", "c36_get_or_create.cc")],
    title="history monitor vs. map model (creator call counting, throwing and re-entrant creators)",
    rule="case = history of up to 200 lookups/erasures on an ordered or hashed map; distinct by operation outcome sequence",
    min=dict(evaluations=3000, lookups=20000, indices=50000, throws=1000, nested=500)),
"C37": dict(
    bins=[b("predicates", "c37_predicates.cc", fallback="is_uniform on a const collection or on a collection with a function")],
    title="definition-level oracle for collection predicates, is_uniform and set-bit iteration",
    rule="case = collection (all sequences over 3 values up to length 6, random, large) or bit pattern (all bytes, one-hot, random) through every function; distinct by contents",
    min=dict(evaluations=9000, predicates=20000, uniform=10000, bits=50000)),
"C39": dict(
    bins=[b("verify", "c39_verify.cc")],
    title="exception/log-stream/evaluation-count monitor for the verification helpers",
    rule="case = condition value with random message texts and arguments through every helper with the log stream captured; distinct by message",
    min=dict(evaluations=6000, failures=20000, passes=10000)),
"C33": dict(
    bins=[b("pipes", ["c33_a.cc", "c33_b.cc", "c33_c.cc", "c33_d.cc", "c33_e.cc"])],
    title="randomised pipelines (every chain of <=3 adaptors, all sources and sinks) vs. the eager computation, lifetime-tracking elements",
    rule="case = source contents x chain of <=3 adaptors with random parameters x all sinks; non-trivial = more than one source element and at least one adaptor, distinct by chain, source kind, parameters and result size",
    min=dict(evaluations=8000, pipelines=40000, sinks=5000)),
}
CHECKS.update({
"C40": dict(
    bins=[b("dispatch", ["c40_dispatch.cc", "c40_init_a.cc", "c40_init_b.cc", "c40_init_c.cc", "c40_init_d.cc", "c40_init_e.cc", "c40_init_f.cc", "c40_init_g.cc"])],
    title="dispatch oracle from compile-time convertibility tables; address/storage oracle for init_from",
    rule="case = dynamic type x handler order (match), argument sequence (overloaded), source state with random null pattern for 1..31 members (init_from)",
    min=dict(evaluations=1500, matches=5000, overloads=5000)),
"C41": dict(
    bins=[b("text", "c41_text.cc", repo_src=["src/timer.cc"])],
    title="text oracle for enums, log lines, time stamps (own calendar) and timers under a controlled steady clock",
    rule="case = point in time / log statement with random items / timer usage script; distinct by time, texts and elapsed steps",
    min=dict(evaluations=8000, times=5000, enumerators=1000) | {"log-lines": 1000, "timer-lines": 2000, "controlled-clock-reads": 3000}),
})
CHECKS.update({
"C38": dict(
    bins=[b("facade", "c38_facade.cc", fallback="sentinels, advance-only iterators and wrappers of list iterators")],
    title="iterator laws and standard algorithms vs. position model over 11 facade flavours",
    rule="case = random string sequence with random positions/offsets/walks through one flavour group; non-trivial = more than one element, distinct by contents",
    min=dict(evaluations=4000, laws=100000) | {"primitive-calls": 100000}),
})
CHECKS.update({
"C10": dict(
    bins=[b("generator", "c10_generator.cc")],
    title="coroutine plans vs. delivered values; frame-object lifetime probes; moves at random points",
    rule="case = yield plan (values, exception point, yield form) x consumption pattern x abandonment point x move point for 5 element types; distinct by those parameters",
    min=dict(evaluations=10000, values=50000, exceptions=500, moves=1000, probes=50000)),
"C11": dict(
    bins=[b("guards", "c11_guards.cc", fd_exact=True)],
    title="ownership model over histories of creating/moving/overwriting/destroying guards; unwinding at random points",
    rule="case = guard history or nested-scope program with a random exception point; distinct by operation trace",
    min=dict(evaluations=15000, guards=20000, unwinds=500, raiis=3000)),
})
CHECKS.update({
"C12": dict(
    bins=[b("buffer", "c12_buffer.cc", "asan_nd", alloc_mb=9000)],
    title="history monitor vs. byte-string model under ASan with allocator balance hooks and failing allocations",
    rule="case = history of up to 30 constructions/moves/self-moves/resizes/failing resizes/writes/destructions over 4 buffers; distinct by operation trace",
    min=dict(evaluations=6000, operations=50000) | {"failed-allocations": 1000, "heap-events": 10000}),
"C13": dict(
    bins=[b("files", "c13_files.cc", fd_exact=True, alloc_mb=20000)],
    title="byte-exact oracle on real files, descriptor accounting with interposed close(), failing opens/reads/writes",
    rule="case = file contents (sizes around stdio buffers and pages, all byte values) with a random script of reads/writes/moves; distinct by contents",
    min=dict(evaluations=5000, reads=5000, writes=4000) | {"open-errors": 1500, "io-errors": 1500, "handle-histories": 1000}),
"C14": dict(
    bins=[b("mmap", "c14_mmap.cc", fd_exact=True)],
    title="position-model oracle for mixed reads; descriptor and /proc/self/maps balance after every construction/move/destruction",
    rule="case = two files with a history over three readers; distinct by contents",
    min=dict(evaluations=3000, reads=5000, lines=20000, moves=200, opens=1000) | {"open-errors": 400}),
})

CHECKS.update({
"C15": dict(
    bins=[b("cstr", "c15_cstr.cc")],
    title="cstr vs. std::string on exactly sized heap texts under ASan/UBSan",
    rule="case = text (random over all bytes with emphasis on NUL, blanks and bytes >= 0x80; exhaustive over 5 characters; pairs for comparison) put through every operation; views are compared by content and address; distinct by text",
    min=dict(evaluations=20000, views=100000)),
"C16": dict(
    bins=[b("tokens", "c16_tokens.cc")],
    title="split model oracle for token/line splitting, iterator walks, skip_lines",
    rule="case = (text, separator), random or exhaustive over small alphabets with separators and carriage returns; pieces compared by offset and length; distinct by text and separator",
    min=dict(evaluations=15000, tokens=20000, lines=40000) | {"iterator-steps": 20000}),
})

CHECKS.update({
"C17": dict(
    bins=[b("readers", "c17_readers.cc", mode="asan_nd")],
    title="line readers vs. newline split model; progress trace; line_range over moved and referenced readers",
    rule="case = text (all byte values, CR/LF mixes, line ends around page and stream buffer sizes, exhaustive short texts) read through buf_reader, line_range, mmap_reader, for_each_line_in_file (file and standard input); distinct by text",
    min=dict(evaluations=6000, lines=50000) | {"progress-calls": 10000, "line-ranges": 2000}),
})

CHECKS.update({
"C18": dict(
    bins=[b("ints", "c18_ints.cc")],
    title="integer parsing vs. 128-bit decimal oracle for 11 integer types under UBSan",
    rule="case = (type, spelled number, following text): values around the limits, powers of ten and two, all 8- and 16-bit values, leading zeros and signs; texts without digits; out-of-range and random bytes; distinct by type and text",
    min=dict(evaluations=60000, values=100000, junk=15000) | {"no-digits": 10000}),
"C19": dict(
    bins=[b("floats", "c19_floats.cc")],
    title="floating point parsing vs. correctly rounded long double with a bound linear in the digit count",
    rule="case = number text [-]digits[.digits] (0-300 digits per group, limits of the integer types, exhaustive short ones) with following text, as float and double; distinct by type and text",
    min=dict(evaluations=80000, values=80000, junk=25000)),
"C20": dict(
    bins=[b("args", "c20_args.cc")],
    title="boolean language oracle (all case combinations and single-byte mutations), byte-exact strings and paths from exactly sized buffers",
    rule="case = text; booleans: all case combinations, prefixes, extensions, every single-byte change; strings: random and exhaustive over separators, NUL, newline; distinct by text",
    min=dict(evaluations=15000, strings=8000) | {"bool-good": 40, "bool-bad": 50000}),
})

CHECKS.update({
"C21": dict(
    bins=[b("csv", "c21_csv.cc", mode="asan_nd")],
    title="CSV texts generated from typed tables, read back and compared cell by cell",
    rule="case = table (0-300 rows, shuffled/missing/unknown columns up to 64, quoting, separators , ; tab |, LF/CRLF/mixed, missing trailing fields, unterminated last line) for four tuple types, in memory and from files; exhaustive short field contents; distinct by text",
    min=dict(evaluations=15000, rows=40000, fields=5000)),
})

CHECKS.update({
"C22": dict(
    bins=[b("csv8", "c22_p1.cc", mode="asan_nd"), b("csv1", "c22_p2.cc", mode="asan_nd"), b("csvd", "c22_p3.cc", mode="asan_nd")],
    title="CSV texts generated from typed rows, streamed through csv_range and compared field by field, also with the table reader",
    rule="case = text generated from rows (as C21, with optional byte order mark) streamed through vec, for_each, composed stages, count, referenced readers and memory-mapped files for three row structs; distinct by text",
    min=dict(evaluations=8000, rows=20000, files=800) | {"with-bom": 1000}),
})

CHECKS.update({
"C23": dict(
    bins=[b("fuzz", "c23_fuzz.cc", mode="asan_nd", env={})],
    title="every parser on arbitrary bytes in exactly sized heap blocks under ASan/UBSan, CPU watchdog, view position monitor",
    rule="case = byte string (CSV-like with mutations, random with hot characters, exhaustive short ones over quotes/separators/line ends, column counts around the limit, 40 kB runs) put through every parser; distinct by text",
    min=dict(evaluations=30000, texts=25000, views=100000, threw=1000)),
"C25": dict(
    bins=[b("split", "c25_split.cc", mode="asan_nd")],
    title="lines generated from typed columns, split and compared",
    rule="case = line for one of six column type lists and four separators, with quoting, empty, missing and surplus columns; exhaustive short lines; distinct by line",
    min=dict(evaluations=15000, columns=40000) | {"short-lines": 2000}),
})

CHECKS.update({
"C24": dict(
    bins=[b("cmdline", "c24_cmdline.cc")],
    title="argument vectors vs. a scan model; description and printed values checked line by line",
    rule="case = argument vector (flags by either name, repeated, with values that look like flags, near-miss names, missing values) for four option structs; distinct by vector",
    min=dict(evaluations=15000, parsed=8000, printed=5000, missing=2000, described=4)),
})

CHECKS.update({
"C01": dict(
    bins=[b("pf", "c01_parallel_for.cc", mode="sched", rt_src=["sched_rt.cc"]),
          b("pf_real", "c01_parallel_for.cc", mode="asan_nd", rt_src=["real_rt.cc"], shards=4, args=["--scale", "0.05"])],
    title="parallel loops under seeded schedule control, event log checked offline for exactly-once, ordering and joining",
    rule="case = loop form x job count x hardware thread count (0-16) x schedule strategy and seed x delays; distinct by the sequence of scheduling decisions",
    min=dict(evaluations=40000, distinct=12000, jobs=200000) | {"runs-on-several-threads": 8000, "context-switches": 400000}),
})

REAL = lambda name, src, **kw: b(name + "_real", src, mode="asan_nd", rt_src=["real_rt.cc"], shards=4, args=["--scale", "0.05"], wall=100, **kw)
SCHED = lambda name, src, **kw: b(name, src, mode="sched", rt_src=["sched_rt.cc"], **kw)
CHECKS.update({
"C02": dict(
    bins=[SCHED("err", "c02_errors.cc"), REAL("err", "c02_errors.cc")],
    title="parallel loops with failing jobs and callbacks under seeded schedule control, event log and error list checked offline",
    rule="case = loop form x strategy x subset of jobs failing in the job or its callback with four exception types x hardware thread count x schedule; distinct by the sequence of scheduling decisions",
    min=dict(evaluations=40000, distinct=15000, errors=50000) | {"quit-threw": 8000, "quit-stopped-early": 3000, "failures-on-several-threads": 5000, "lifetimes": 1000}),
})

CHECKS.update({
"C03": dict(
    bins=[SCHED("tl", "c03_threadlocal.cc"), REAL("tl", "c03_threadlocal.cc")],
    title="state objects of the thread-local parallel loop: construction, use and destruction events per object and thread checked offline",
    rule="case = state type (immovable, aggregate, class, scalar) x job count x failing jobs x strategy x hardware thread count x schedule; distinct by the sequence of scheduling decisions",
    min=dict(evaluations=25000, distinct=12000, states=40000) | {"runs-with-several-states": 10000, "objects-reused": 10000, "threw": 2000}),
})

CHECKS.update({
"C04": dict(
    bins=[SCHED("pool", "c04_pool.cc"), REAL("pool", "c04_pool.cc")],
    title="histories of batches on a thread pool under seeded schedule control with spurious wake-ups, event log checked offline; deadlock detection",
    rule="case = history of 0-160 batches (0-25 jobs) on one pool x hardware thread count x idle periods x delays x schedule; distinct by the sequence of scheduling decisions",
    min=dict(evaluations=30000, distinct=15000, batches=80000, jobs=200000) | {"batches-on-several-threads": 10000, "empty-batches": 8000, "spurious-wakeups": 20000}),
"C05": dict(
    bins=[SCHED("life", "c05_lifecycle.cc"), REAL("life", "c05_lifecycle.cc")],
    title="thread pool construction, use and destruction under seeded schedule control; initializer, job and finalizer events per worker checked offline",
    rule="case = history of batches (also none) x destruction point x hardware thread count x delays x schedule; distinct by the sequence of scheduling decisions",
    min=dict(evaluations=20000, distinct=10000, workers=60000) | {"unused-pools": 3000, "destroyed-before-all-workers-started": 1500, "destroyed-right-after-a-batch": 4000, "workers-without-job": 10000}),
})

TRK = ["src/progress_tracker.cc"]
CHECKS.update({
"C06": dict(
    bins=[SCHED("races", "c06_races.cc", repo_src=TRK),
          b("races_tsan", "c06_races.cc", mode="tsan", rt_src=["real_rt.cc"], repo_src=TRK, shards=4, args=["--scale", "0.15"], wall=90),
          REAL("races", "c06_races.cc", repo_src=TRK)],
    title="concurrent use of loops, pools, trackers and registry watched by a vector-clock race detector under seeded schedule control, by ThreadSanitizer and by ASan on real threads",
    rule="case = concurrent workload (loop form, pool history, tracker or registry operations per thread) x hardware thread count x schedule; everything shared is plain memory; distinct by the sequence of scheduling decisions",
    min=dict(evaluations=10000, distinct=6000) | {"loop-jobs": 20000, "pool-batches": 10000, "tracker-ops": 15000, "registry-ops": 15000, "memory-accesses": 5000000}),
})

CHECKS.update({
"C07": dict(
    bins=[SCHED("trk", "c07_tracker.cc", repo_src=TRK), b("trk_real", "c07_tracker.cc", mode="asan_nd", rt_src=["real_rt.cc"], repo_src=TRK, shards=4, args=["--scale", "0.1"], wall=60)],
    title="tracker updates vs. a display model; concurrent updates under seeded schedule control, final value checked against all orders of the recorded history",
    rule="case = configuration x sequence of updates (one thread) or updates of 2-4 threads x schedule; distinct by configuration and sequence, resp. by the sequence of scheduling decisions",
    min=dict(evaluations=60000, distinct=40000, updates=200000, callbacks=60000) | {"no-change": 50000, "overlapping-runs": 15000, "runs-with-several-outcomes": 3000, "sweeps": 1000}),
})

CHECKS.update({
"C08": dict(
    bins=[SCHED("cfg", "c08_config.cc", repo_src=TRK), b("cfg_real", "c08_config.cc", mode="asan_nd", rt_src=["real_rt.cc"], repo_src=TRK, shards=4, args=["--scale", "0.1"], wall=60)],
    title="setter chains vs. a configuration model, probed through the display; concurrent chains under seeded schedule control",
    rule="case = history of updates and setter chains (valid, rejected, without effect) on one tracker, resp. chains of 2-4 threads x schedule; distinct by history, resp. by the sequence of scheduling decisions",
    min=dict(evaluations=50000, distinct=40000, chains=80000, callbacks=40000) | {"resets": 30000, "rejected": 20000, "nothing-changed": 4000, "concurrent-chains": 10000}),
})

CHECKS.update({
"C09": dict(
    bins=[SCHED("reg", "c09_registry.cc", repo_src=TRK), b("reg_real", "c09_registry.cc", mode="asan_nd", rt_src=["real_rt.cc"], repo_src=TRK, shards=4, args=["--scale", "0.1"], wall=60)],
    title="histories of registry, scope and print operations vs. a registry model and an emulated terminal; concurrent histories under seeded schedule control",
    rule="case = history of 3-32 operations on the global registry, resp. operations of 2-4 threads x schedule; distinct by history, resp. by the sequence of scheduling decisions",
    min=dict(evaluations=20000, distinct=15000, operations=150000, frames=10000) | {"lines": 30000, "scopes": 8000, "clears": 3000, "no-active": 2000, "concurrent-lookups": 15000}),
})

MULTI = ["c43_main.cc", "c43_a.cc", "c43_b.cc"]
CHECKS.update({
"C42": dict(
    bins=[b("names", "c42_thread_names.cc", mode="asan_nd")],
    title="names of all live threads read back from the system after every naming",
    rule="case = history of namings (by the thread itself or by another, 0-15 bytes) over 2-5 live threads, resp. threads naming themselves at the same time; distinct by history",
    min=dict(evaluations=1000, distinct=800) | {"names-set": 8000, "names-read": 20000}),
"C43": dict(
    bins=[SCHED("multi", MULTI, repo_src=TRK),
          b("multi_tsan", MULTI, mode="tsan", rt_src=["real_rt.cc"], repo_src=TRK, shards=4, args=["--scale", "0.3"], wall=90),
          REAL("multi", MULTI, repo_src=TRK)],
    title="threads using the library on their own objects and shared constants, each result compared with the one obtained alone, every access watched by a vector-clock race detector under seeded schedule control and by ThreadSanitizer",
    rule="case = 2-4 threads x 1-3 programs each (18 kinds covering parsers, readers, algorithms, pipelines, guards, generators, trackers) x shared constant inputs x schedule; distinct by the sequence of scheduling decisions",
    min=dict(evaluations=2000, distinct=1200) | {"programs": 8000, "same-function-runs": 1000, "shared-file-runs": 500, "memory-accesses": 1000000}),
})

CHECKS.update({
"C44": dict(
    bins=[b("exc", "c44_exceptions.cc", mode="asan_nd", fd_exact=True)],
    title="every user call, element copy, comparison and allocation made to fail in turn; exceptions, later calls, object and heap balance, descriptors and inputs watched",
    rule="case = one of 20 kinds of operation with random inputs, run once undisturbed and then once per failure point (at most 40 of each kind); distinct by operation and inputs with at least one failure point",
    min=dict(evaluations=2000, distinct=1500) | {"user-failures": 15000, "allocation-failures": 4000}),
})

CHECKS.update({
"C45": dict(
    bins=[b("reentrant", ["c45_reentrant.cc", "c43_a.cc", "c43_b.cc"], repo_src=TRK)],
    title="programs run from inside the functions, comparators, stream operators and generator bodies other programs hand to the library; every inner and outer result compared with the one obtained alone",
    rule="case = outer program (18 kinds) x 1-4 inner programs (a third of the same kind) x points where they run x depth up to 3; distinct by outer program, number of inner ones and hooks passed",
    min=dict(evaluations=4000, distinct=1000) | {"inner-programs": 10000, "hooks": 100000, "deeper-than-one": 500}),
})
