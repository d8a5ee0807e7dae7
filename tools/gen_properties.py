#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
I = "include/utl/"

# ---------------------------------------------------------------- concurrency
p("C01", "Parallel-for runs every job exactly once and joins",
  "A parallel-for call (parallel_for_run, parallel_for_run_threadlocal, parallel_for over a mutable or const container, and the labelled parallel_for) whose jobs do not fail calls the job function exactly once for every index in [0, n), respectively for every element of the container itself (not a copy), and for nothing else. The progress callback is called exactly once per job, with that job's index, after the job has finished. When the call returns, every job and callback has finished, no worker thread is left, and the returned error list is empty.",
  ["schedules", "inputs", "configurations"],
  "every number of jobs (0, fewer/more than workers, large), every reported number of hardware threads, every container kind, every thread interleaving",
  "No existing test calls parallel_for at all; exactly-once and joining depend on the interleaving of the workers on the shared index counter.",
  [I+"parallel_for.h"],
  [("shared atomic index counter", I+"parallel_for.h parallel_for_run"), ("join of all workers before returning", I+"parallel_for.h")],
  ["the job function", "the progress callback", "the return of the call"])
p("C02", "Parallel-for error strategies report failures faithfully",
  "With the continue strategy every job still runs exactly once and the returned list holds exactly one entry per failing job (a job fails if its function or its progress callback throws), carrying that job's index and the exception it threw. With the quit strategy (the default), if some job fails the call throws the exception of one of the failing jobs; each job ran at most once, the jobs that ran are a prefix of the index range, at most one job per worker is started after the first failure was recorded, and all of them have finished when the exception reaches the caller. A failing job never terminates the process and never deadlocks the call.",
  ["schedules", "inputs", "fault_sequences"],
  "every subset of failing jobs, every exception type, both strategies, every worker count and interleaving",
  "No existing test throws from a job; which worker records which failure first depends on the schedule.",
  [I+"parallel_for.h"],
  [("catch(...) + mutex-protected error list", I+"parallel_for.h"), ("quit flag", I+"parallel_for.h")],
  ["job invocations", "returned errors_t", "exception seen by the caller"])
p("C03", "Per-worker state in parallel-for is private and cleaned up",
  "In the thread-local form of parallel-for every job receives a state object that was freshly value-initialised by its worker, is used by one thread only, and is never used by two jobs at the same time. At most one state object exists per hardware thread, a worker keeps using the same object for all its jobs, and every state object is destroyed exactly once, on its worker, before the call returns or throws.",
  ["schedules", "inputs", "configurations"],
  "all job counts, worker counts, interleavings and failure patterns",
  "No existing test uses the thread-local form; sharing would show only under particular interleavings.",
  [I+"parallel_for.h"],
  [("thread-local object on the worker's stack", I+"parallel_for.h parallel_for_run_threadlocal")],
  ["construction/destruction of the state type", "job invocations"])
p("C04", "Thread pool executes each batch exactly once, as a barrier",
  "For every sequence of batches given to one thread pool (any number of batches, any job counts including zero), execute calls the batch's function exactly once for each index in [0, n), never calls a function of an earlier batch, and returns only after every one of these calls has finished. execute always returns once its jobs have.",
  ["schedules", "histories", "configurations"],
  "every history of batches on a pool, every worker count, every interleaving including spurious and late wake-ups",
  "No existing test uses the thread pool; lost wake-ups and stale batches exist only in particular schedules over several batches.",
  [I+"thread_pool.h"],
  [("counter + active-worker count under mutex/condition variable", I+"thread_pool.h execute and worker loop")],
  ["job invocations", "return of execute"])
p("C05", "Thread pool worker lifecycle",
  "Each worker of a thread pool (one per hardware thread) runs the initializer exactly once before its first job and the finalizer exactly once after its last job, on the worker's own thread, and all jobs run on these workers. Destroying the pool - never used, idle, or immediately after a batch - terminates, and by then every initializer and finalizer has finished and no worker is left.",
  ["schedules", "histories", "configurations"],
  "every history of batches before destruction, worker counts and interleavings of construction, execution and destruction",
  "No existing test constructs a thread pool.",
  [I+"thread_pool.h"],
  [("worker loop with stop flag", I+"thread_pool.h"), ("destructor: stop, notify, join", I+"thread_pool.h")],
  ["initializer/finalizer/job callbacks", "return of the destructor"])
p("C06", "Concurrent components are free of data races",
  "Within their contracts the concurrent components have no data race: parallel-for and thread pool make everything written before the call visible to the jobs and everything the jobs wrote visible to the caller afterwards, without further synchronisation. Any number of threads may concurrently update, increment or set the status of the same progress tracker, look up and activate trackers in the global registry, and trigger printing.",
  ["schedules", "histories"],
  "all interleavings of the listed operations",
  "Tests run each component from one thread (the tracker test is not even built); races need a detector observing many interleavings.",
  [I+"parallel_for.h", I+"thread_pool.h", I+"progress_tracker.h", "src/progress_tracker.cc"],
  [("mutexes, atomics and joins", "parallel_for.h, thread_pool.h, progress_tracker.cc")],
  ["memory accesses and synchronisation operations of all threads"])
p("C07", "Progress tracker shows the right value and notifies on change",
  "A tracker's displayed value always lies within its output bounds and, once all updates have returned, equals its input's proportional position in the bounds rounded to the configured step; concurrent increments are never lost, and a monotonic update never lowers the input. The callback is invoked whenever the displayed value changes and not when it stays the same, and the callback that follows the last change sees the final value.",
  ["schedules", "inputs", "histories"],
  "all bounds, steps, input maxima, sequences of updates, and concurrent interleavings of updates",
  "The tracker test is single threaded, uses three configurations, and is not built here.",
  [I+"progress_tracker.h", "src/progress_tracker.cc"],
  [("atomic input, exchange of the output value, clamp", "src/progress_tracker.cc update_out")],
  ["the displayed value", "callback invocations"])
p("C08", "Progress tracker configuration updates are atomic and validated",
  "A chained configuration update applies every setting in the chain; if any bound changed, input restarts at zero and the displayed value at the lower bound; and the callback runs exactly once at the end of the chain if anything changed and not at all otherwise. Lower bounds above upper bounds and non-positive steps are rejected with an exception that leaves the bounds as they were and the tracker usable.",
  ["inputs", "histories"],
  "all chains of setters with arbitrary values, including rejected ones",
  "The tracker test checks a handful of chains and is not built here.",
  [I+"progress_tracker.h", "src/progress_tracker.cc"],
  [("tracker_update guard object", "src/progress_tracker.cc")],
  ["tracker fields", "callback invocations"])
p("C09", "Global tracker registry and progress-bar scope",
  "Looking up a name in the global registry returns the same tracker every time until the registry is cleared and different trackers for different names; the active tracker is the one activated last, asking for it without one throws, and get-or-activate returns the active one or else creates and activates the named one. A progress-bars scope sets the silent flag, and on exit restores the previous one and clears registry and active tracker. Printing writes nothing when silent and otherwise exactly one line per registered tracker showing its name, its percentage with a bar of matching length if shown, and its status; successive prints redraw these lines in place, and a visible change of a registered tracker triggers a print.",
  ["histories", "schedules"],
  "all histories of lookups, activations, clears, scopes and prints, also from several threads",
  "Only one path through the registry is tested, single threaded, and that test is not built here.",
  [I+"progress_tracker.h", "src/progress_tracker.cc"],
  [("registry map under a mutex", "src/progress_tracker.cc")],
  ["returned tracker pointers", "bytes written to stdout"])

# ---------------------------------------------------------------- resources
p("C10", "Coroutine generator yields the exact sequence and owns its frame",
  "A generator delivers exactly the values its coroutine yields, in order, whether consumed by test-and-call, by repeated tests, or by collecting them into a vector, and then tests false. An exception thrown in the coroutine reaches the consumer at the point where the next value would have been delivered. The coroutine frame with its locals and arguments is destroyed exactly once however far the generator was consumed, including when the generator is moved.",
  ["inputs", "histories", "fault_sequences"],
  "all yield sequences, element types (including move-only), consumption patterns, exception points and moves",
  "No existing test uses the generator.",
  [I+"generator.h"],
  [("coroutine handle ownership", I+"generator.h")],
  ["values delivered", "destructors of coroutine locals"])
p("C11", "Scope guards run their cleanup exactly once",
  "The cleanup of a scope guard (finally, UTL_FINALLY) runs exactly once: when the guard that finally owns it goes out of scope or is overwritten, normally or by an exception, in reverse order of declaration, and never from a moved-from guard. A raii wrapper passes its element to the destruct function exactly once at scope exit unless destruction was omitted, and gives access to the same element meanwhile.",
  ["histories", "fault_sequences"],
  "all sequences of creating, moving, overwriting and destroying guards, and all exception points",
  "No existing test uses these guards.",
  [I+"raii.h"],
  [("exec flag / omit flag", I+"raii.h")],
  ["calls of the cleanup function"])
p("C12", "Byte buffer keeps its contents and never leaks",
  "A byte buffer holds exactly the bytes and size it was constructed with; resizing to any size, including zero, keeps the common prefix and sets the size; a failed resize throws and leaves the buffer unchanged; moving transfers contents, size and ownership and leaves the source empty and usable. Over any history of constructions, moves (including self-moves), resizes and destructions no memory is leaked, freed twice or accessed after it was freed.",
  ["inputs", "histories", "fault_sequences"],
  "all sizes, contents and histories of operations, and allocation failures",
  "No existing test uses the buffer directly.",
  [I+"parser/buffer.h"],
  [("malloc/realloc/free ownership", I+"parser/buffer.h")],
  ["buffer contents and size", "allocator state"])
p("C13", "Whole-file reading and writing is byte exact",
  "Reading a file (utl::file content as buffer or string, utl::read_file) returns exactly its bytes, for any size including zero and any byte values, every time it is asked; what was written through a file handle reads back identically. A file that cannot be opened is reported by exception (file) or an empty optional (read_file), and every opened handle is closed exactly once, also after errors or moves.",
  ["inputs", "histories", "fault_sequences"],
  "all file sizes and contents, repeated and interleaved reads/writes, missing or unreadable files",
  "No existing test reads or writes a file.",
  [I+"parser/file.h", I+"read_file.h"],
  [("fseek/ftell + fread", I+"parser/file.h"), ("ifstream ate + read", I+"read_file.h")],
  ["returned bytes", "open file descriptors"])
p("C14", "Memory-mapped reader returns the file's bytes and releases it",
  "A memory-mapped reader over any regular file, including an empty one, returns the file's bytes in order through any mixture of fixed-size reads (never more than asked or than remain) and line reads, and its progress is the consumed fraction in [0, 1]. A file that cannot be opened raises an exception. Every file descriptor and mapping is released exactly once over any history of construction, moves and destruction, also when construction fails.",
  ["inputs", "histories", "fault_sequences"],
  "all file contents and sizes around page boundaries, all mixtures of reads and moves, missing files",
  "No existing test maps a file.",
  [I+"parser/mmap_reader_unix.h"],
  [("RAII file + mapping", I+"parser/mmap_reader_unix.h")],
  ["bytes returned", "/proc/self/fd and /proc/self/maps"])

# ---------------------------------------------------------------- parsing
p("C15", "String views agree with plain string semantics",
  "The string view type (cstr) agrees with std::string over all byte values, including NUL and bytes >= 0x80: equality and inequality compare length and all bytes, ordering is a strict total order consistent with equality and lexicographic for ASCII, sub-strings by (position, size), (begin, end) with begin <= end, (begin) or field descriptor are clamped to the text, and contains, starts_with, first-offset search, indexing, iteration, conversions and advancing match. Trimming removes exactly the leading and trailing spaces and newlines, and no operation reads outside the viewed text.",
  ["inputs"],
  "all byte strings and all argument values (positions and sizes from 0 to the maximum)",
  "Existing tests sample a few short ASCII strings.",
  [I+"parser/cstr.h"],
  [("clamping and comparisons", I+"parser/cstr.h struct cstr")],
  ["returned values", "memory accesses"])
p("C16", "Token and line splitting conserves the text",
  "Splitting a text at a separator (for_each_token, its numbered and early-breaking forms) yields exactly the pieces between separators in order - a text ending with a separator has no empty last piece and an empty text no piece - so joining them with the separator restores the text up to one trailing separator; breaking stops immediately and numbering counts 1, 2, .... Splitting into lines (for_each_line, its numbered form, the lines range and its iterator arithmetic) yields the pieces at newlines with one carriage return removed from the end of each, and all forms agree. skip_lines returns the text starting at the first line that must not be skipped, and get_until/get_line return the piece before the first delimiter.",
  ["inputs"],
  "all byte strings, separators, line-ending conventions, break points and predicates",
  "Existing tests sample about twenty short texts.",
  [I+"parser/cstr.h"],
  [("get_until / strip_cr / line_iterator", I+"parser/cstr.h")],
  ["the sequence of pieces"])
p("C17", "All line readers see the same lines",
  "Reading a text line by line through the buffer reader, the memory-mapped reader, or for_each_line_in_file yields exactly its newline-separated lines in order (carriage returns kept, no extra line after a final newline, blank lines distinguishable from the end), and a line range over a reader yields the same lines for texts without blank lines. The buffer reader's progress consumer is called after each newline-terminated line with the number of bytes consumed so far.",
  ["inputs"],
  "all file contents, with and without final newline, any line lengths",
  "No existing test compares the readers; line ranges are tested on two tiny inputs that are not built here.",
  [I+"parser/buf_reader.h", I+"parser/mmap_reader_unix.h", I+"parser/line_range.h", I+"for_each_line_in_file.h"],
  [("memchr for newline", I+"parser/buf_reader.h"), ("getline", I+"for_each_line_in_file.h")],
  ["sequence of lines", "progress callbacks"])
p("C18", "Integer arguments parse exactly for every width",
  "For every integer type, text consisting of an optional plus sign (or, for signed types, minus sign) and decimal digits denoting a representable value - including the type's minimum and maximum and leading zeros - parses to exactly that value, leaves the cursor right behind the last digit, and reports success exactly if the whole text was consumed. Text with no digits at that place yields the default value and failure; arbitrary bytes and out-of-range digits never cause undefined behaviour. parse, parse with default, parse_verify (which throws on failure) and the stream operator agree with this.",
  ["inputs"],
  "all byte strings, all integer types and defaults",
  "Existing tests (not built here) sample about ten numbers, mostly of one width.",
  [I+"parser/arg_parser.h"],
  [("parse_arg for integral types", I+"parser/arg_parser.h")],
  ["parsed value, cursor and result flag", "undefined-behaviour reports"])
p("C19", "Floating-point arguments parse to the nearest value",
  "Text of the form [-]digits[.digits] (either digit group may be empty if the other is not) parses, as float and as double and for any number of digits, to the denoted value up to rounding error proportional to the digit count, consumes exactly that text, and reports success exactly if nothing follows; text holding anything but signs, digits and points never reports success. Arbitrary bytes never cause undefined behaviour.",
  ["inputs"],
  "all such texts, including integer parts beyond 32 and 64 bits, long fractions and negative fractions below one",
  "Existing tests (not built here) sample a few short numbers.",
  [I+"parser/arg_parser.h"],
  [("parse_fp", I+"parser/arg_parser.h")],
  ["parsed value, cursor and result flag"])
p("C20", "Boolean, string and path arguments parse faithfully",
  "true and false in any letter case, and nothing else, parse successfully as booleans to their value; other text fails, and yields the default if it starts with neither t nor f in any letter case. Parsing to std::string, string view, library string or filesystem path yields exactly the viewed bytes - no more, no less - and the typed helpers agree: parse and parse_verify return the same values (parse_verify throws on failure), skip_line consumes up to and including the next newline, expect_char exactly the expected character, and the stream operator exactly the characters of the number or boolean it read.",
  ["inputs"],
  "all byte strings, including views into larger, not NUL-terminated texts",
  "Existing tests (not built here) use NUL-terminated samples.",
  [I+"parser/arg_parser.h"],
  [("parse_arg overloads", I+"parser/arg_parser.h")],
  ["parsed values and cursor", "memory accesses"])
p("C21", "CSV tables are read back exactly",
  "Reading a CSV text with a header and no blank lines into tuples delivers one tuple per data line in order, each column taken from the header column of that name whatever the column order, ignoring unknown columns and leaving default values for missing columns and missing trailing fields. Quoted fields may contain separators and doubled quotes, numbers may be preceded by spaces, lines may end in LF or CRLF, the last line may lack its terminator, and the separator is configurable; string fields come back byte for byte.",
  ["inputs"],
  "all tables (field contents, column orders, quoting choices, line endings, separators) without line breaks inside fields",
  "Existing tests (not built here) sample about ten tables.",
  [I+"parser/csv.h"],
  [("parse_column / read_header / read_row", I+"parser/csv.h"), ("unescape_quoted_string", I+"parser/csv.h")],
  ["returned tuples"])
p("C22", "Streaming CSV rows match the table",
  "The streaming CSV reader (a line source piped into csv<T>) delivers one struct per data line in order, with each named field taken from the header column of that name whatever the column order, an optional UTF-8 byte order mark before the header ignored, unknown columns ignored and missing ones left default, for texts without blank lines. Quoting, separators, line endings and number formats are treated as by the table reader, and rows compose with the pipeline operations.",
  ["inputs"],
  "all tables as for the table reader, over buffer and memory-mapped readers",
  "Existing tests (not built here) sample about five tables.",
  [I+"parser/csv_range.h", I+"parser/line_range.h", I+"parser/csv.h"],
  [("read_header / csv_range::read_row", I+"parser/csv_range.h")],
  ["delivered rows"])
p("C23", "Parsers are memory safe on arbitrary bytes",
  "For every byte string, every parser (CSV table and streaming reader, tuple split, typed arguments, token and line splitting, line readers) terminates without reading or writing outside the given text, without undefined behaviour, and either returns or throws a std::exception. Every string view it hands out lies inside the given text.",
  ["inputs"],
  "all byte strings, including truncated quotes, stray carriage returns, NULs and not NUL-terminated input",
  "Tests use well-formed, NUL-terminated samples and no sanitizer.",
  [I+"parser/cstr.h", I+"parser/arg_parser.h", I+"parser/csv.h", I+"parser/csv_range.h", I+"parser/split.h", I+"parser/buf_reader.h"],
  [("length checks in parsers", I+"parser/*.h")],
  ["sanitizer reports", "addresses of returned views"])
p("C24", "Command-line flags are parsed and described exactly",
  "Each declared flag takes the value following an argument equal to its short or long name (a boolean flag becomes true), the last occurrence winning; arguments that match no flag change nothing, unset flags keep their defaults, and a missing required flag throws naming that flag. The description lists every flag on its own line with its names, required mark and description, and the printed flags show each current value.",
  ["inputs", "configurations"],
  "all argument vectors over the declared flags and other text, including a flag without value at the end",
  "Two existing tests (not built here) use one argument vector each.",
  [I+"cmd_line_parser.h"],
  [("parse_flags / description / print_flags", I+"cmd_line_parser.h")],
  ["resulting configuration struct", "exceptions", "generated text"])
p("C25", "Splitting a line into a typed tuple",
  "split delivers the separated columns of a line converted to the requested types in order, honouring the chosen separator and quotes (a quoted column is the text between its quotes, doubled quotes left as they are), leaving default values for columns the line does not have and ignoring columns beyond the requested ones.",
  ["inputs"],
  "all lines, separators and tuple types",
  "No existing test uses split.",
  [I+"parser/split.h", I+"parser/csv.h"],
  [("parse_column + parse_arg per element", I+"parser/split.h")],
  ["returned tuple"])

# ---------------------------------------------------------------- algorithms
p("C26", "Merge joins report every group exactly once",
  "For two sorted ranges, inner, left and full join call the match function exactly once for each key occurring in both, with exactly the full run of equal elements of each side, and the left/right functions exactly once for each run occurring on one side only (left join: left side only; inner join: neither). Keys are reported in ascending order within each side's stream, and together the reported runs cover each reported side completely without overlap, for iterator and container forms, with default or custom comparators between different element types.",
  ["inputs"],
  "all pairs of sorted ranges with duplicates, empty ranges, disjoint/nested/interleaved keys, custom comparators, forward iterators",
  "Existing tests sample a few pairs.",
  [I+"join.h"],
  [("join_impl", I+"join.h")],
  ["sequence of callback invocations with their ranges"])
p("C27", "Sorted diff transforms one range into the other",
  "For two ranges sorted by the given order, sorted_diff reports deletions, additions and changes such that applying them to the first range yields the second: a key only in the first is deleted, only in the second added, paired elements that differ deeply are reported as changed exactly once with (old, new), and equal ones not at all. Reports come in key order, and equal keys pair up one to one in order.",
  ["inputs"],
  "all pairs of sorted ranges, including duplicates, empties and elements equal by key but different deeply",
  "One existing test uses one pair.",
  [I+"sorted_diff.h"],
  [("merge loop", I+"sorted_diff.h")],
  ["sequence of callback invocations"])
p("C28", "Intersection reports every equal pair exactly once",
  "For two sorted ranges power_set_intersection calls the function exactly once for every pair of an element of the first and an equivalent element of the second - always in the order (first, second) - and for no other pair, also with duplicates on both sides and custom comparators, passing references to the elements themselves.",
  ["inputs"],
  "all pairs of sorted ranges with duplicates, custom comparators",
  "One existing test uses one pair.",
  [I+"power_set_intersection.h"],
  [("merge loop with two inner scans", I+"power_set_intersection.h")],
  ["multiset of reported pairs"])
p("C29", "Equal ranges partition the collection",
  "equal_ranges sorts the collection and calls the function once per distinct key, in ascending order, with the complete run of equivalent elements, so that the runs partition the collection and its elements are preserved. equal_ranges_linear calls the function, in order and without reordering, for each maximal run of consecutive elements equal to the run's first element, the runs partitioning the input; iterator, container and custom comparison forms agree.",
  ["inputs"],
  "all collections and comparators, including empty and all-equal ones",
  "No existing test uses equal_ranges.",
  [I+"equal_ranges.h", I+"equal_ranges_linear.h"],
  [("sort + upper_bound", I+"equal_ranges.h"), ("linear scan", I+"equal_ranges_linear.h")],
  ["sequence of reported ranges", "collection contents"])
p("C30", "Sliding windows deliver every adjacent tuple",
  "nwise<N> (and pairwise for N = 2) over a collection of n elements delivers exactly n-N+1 windows (none if n < N), window i consisting of references to elements i ... i+N-1 in order, and reports that number as its size. Owned temporaries stay alive as long as the range, and elements of a mutable collection can be changed through the windows.",
  ["inputs"],
  "all collection sizes and kinds (forward, bidirectional, random access), all window sizes",
  "Existing tests sample three sizes with N = 2.",
  [I+"nwise.h", I+"pairwise.h"],
  [("array of N iterators", I+"nwise.h")],
  ["delivered tuples", "size()"])
p("C31", "Zip iterates collections in lock step",
  "Zipping k collections of equal size n delivers exactly n tuples, the i-th holding references to the i-th elements (const references for czip), so writes reach the originals, which are neither copied nor moved when passed as lvalues; temporaries are owned by the range. Collections of different sizes make zip and czip throw, and size, indexing, reverse stepping and comparisons of the zip range agree with the underlying collections.",
  ["inputs"],
  "all numbers, kinds and sizes of collections",
  "Existing tests sample sizes two to four.",
  [I+"zip.h", I+"forward_type.h"],
  [("tuple of iterators", I+"zip.h"), ("check_dimensions", I+"zip.h")],
  ["delivered tuples", "identity of referenced elements"])
p("C32", "Enumerate pairs each element with its position",
  "enumerate over any iterable delivers each element exactly once, in order, with its zero-based position, referring to the element itself (writes reach it; a container of pointers delivers the pointee's address), owning temporaries it is given. Its iterators step back and forth, jump and measure distances consistently with the underlying iterators.",
  ["inputs"],
  "all iterable kinds and sizes, forward to random access, and all iterator walks",
  "No existing test uses enumerate.",
  [I+"enumerate.h"],
  [("index + iterator pair", I+"enumerate.h")],
  ["delivered (index, element) pairs", "iterator differences"])
p("C33", "Pipelines compute what the eager computation would",
  "A pipeline built from a source (container, iterator pair, integer range, generator, owning temporary), any chain of transform, remove_if, take_while and unique, and a sink (vec, to, emplace_back, insert, emplace, for_each, count, find, accumulate, sum, max, avg, iterable loop) produces exactly the elements - in order - and the result of applying the corresponding eager operations to the source sequence. It terminates on finite sources, never evaluates beyond the end of a source, leaves its source unmodified, and never refers to destroyed temporaries.",
  ["inputs", "programs"],
  "all sources, sizes, element types, adaptor chains and sinks",
  "Existing tests cover about fifteen fixed pipelines, most of one stage.",
  [I+"pipes/all.h", I+"pipes/make_range.h", I+"pipes/range.h", I+"pipes/transform.h", I+"pipes/remove_if.h", I+"pipes/take_while.h", I+"pipes/unique.h", I+"pipes/iota.h", I+"pipes/generate.h", I+"pipes/iterable.h", I+"pipes/vec.h", I+"pipes/insert.h", I+"pipes/map.h", I+"pipes/avg.h", I+"pipes/sum.h", I+"pipes/max.h", I+"pipes/count.h", I+"pipes/find.h", I+"pipes/accumulate.h", I+"pipes/emplace_back.h", I+"pipes/for_each.h"],
  [("begin/valid/read/next protocol", I+"pipes/*.h")],
  ["resulting elements and values", "memory accesses"])
p("C34", "In-place insertion, removal and sorting keep the right elements",
  "insert_sorted (with an order under which equivalent elements are equal) keeps the collection sorted, inserts exactly if no equal element is present, and returns an iterator to the element and whether it was inserted. erase and erase_if remove exactly the matching elements and keep the others in order; erase_duplicates leaves a sorted collection with exactly one element per distinct value (its range form touching only that range). sort_by returns its arguments permuted by one common permutation that sorts the first, leaving the inputs unchanged.",
  ["inputs"],
  "all collections, elements, comparators under which equivalent elements are equal, and predicates",
  "No existing test uses these helpers.",
  [I+"insert_sorted.h", I+"erase.h", I+"erase_if.h", I+"erase_duplicates.h", I+"sort_by.h"],
  [("lower_bound/insert, remove/erase, sort/unique", I+"*.h")],
  ["collection contents", "returned values"])
p("C35", "Collection conversions keep all elements in order",
  "to_vec and transform_to deliver the (transformed) elements of the whole range in order, calling the operation exactly once per element; to_set delivers the set of transformed elements; repeat_n delivers n copies of the element; and concat appends all elements of the second collection to the first in order and returns a reference to the first. Inputs are left unchanged unless they are the destination.",
  ["inputs"],
  "all collections, sizes, element types and operations",
  "No existing test targets these helpers.",
  [I+"to_vec.h", I+"to_set.h", I+"repeat_n.h", I+"concat.h"],
  [("std::transform into a reserved vector", I+"to_vec.h")],
  ["returned collections", "calls of the operation"])
p("C36", "Get-or-create never recreates and numbers keys densely",
  "get_or_create returns a reference to the value stored under the key, creating it with the function exactly when the key is absent (the function is not called otherwise, and if it throws the map is unchanged). get_or_create_index gives keys consecutive indices from zero in order of first use and the same index forever after.",
  ["inputs", "histories", "fault_sequences"],
  "all histories of keys on ordered and hashed maps",
  "No existing test uses these helpers.",
  [I+"get_or_create.h", I+"get_or_create_index.h"],
  [("find then emplace", I+"get_or_create.h"), ("size as next index", I+"get_or_create_index.h")],
  ["returned references and indices", "calls of the create function"])
p("C37", "Collection predicates and bit iteration match their definition",
  "all_of, any_of, none_of, find, find_if, count_if, sort, nth_element, is_sorted, fill, equal, max_element and min_element over a whole collection give what their definition over the sequence gives (equal requires equal length). is_uniform tells whether all elements - or their images under the given function - are the same, without modifying the collection. for_each_set_bit visits exactly the set bits of an unsigned integer of any width in ascending order, consistently with has_bit_set.",
  ["inputs"],
  "all collections, predicates and integers",
  "One existing test covers is_uniform on two inputs; nothing covers the rest.",
  [I+"helpers/algorithm.h", I+"is_uniform.h", I+"for_each_bit_set.h"],
  [("forwarding to the standard algorithms", I+"helpers/algorithm.h")],
  ["returned values", "collection contents"])
p("C38", "Iterator facade derives consistent iterators",
  "An iterator built on the iterator facade from its few primitive operations (random access from advance and distance, bidirectional from increment and decrement, forward, single-pass, or sentinel-terminated) obeys the iterator laws: dereference, pre/post increment and decrement, +, -, +=, -=, subscript, differences and all comparisons agree with the positions of the underlying sequence, and its advertised category matches. Standard algorithms therefore give the same results on it as on the underlying sequence; the same holds for the wrapper facade around an existing iterator.",
  ["inputs", "programs"],
  "all sequences, positions, offsets and facade flavours",
  "No existing test uses the facade.",
  [I+"iterator_facade.h"],
  [("operators defined via primitives", I+"iterator_facade.h")],
  ["dereferenced values, differences, comparison results"])
p("C39", "Verification helpers throw exactly on failure, with the message",
  "verify, utl_verify, verify_silent and verify_ex do nothing when the condition holds and throw exactly when it does not: the first three a std::runtime_error whose text is the formatted message, verify_ex the given exception; fail builds such an error. verify, utl_verify and fail also log one line ending in the message to the log stream, verify_silent logs nothing, and utl_verify evaluates its condition exactly once and message arguments only on failure.",
  ["inputs"],
  "all conditions, formats and arguments",
  "No existing test exercises a failing verification directly.",
  [I+"verify.h"],
  [("fail / verify", I+"verify.h")],
  ["exceptions and their text", "bytes written to the log stream"])
p("C40", "Type dispatch and struct initialisation pick the right target",
  "match calls exactly one handler: the first whose pointer type the object's dynamic type converts to, with that object, returning its result, and throws if none fits; overloaded dispatches to the handler taking the argument's type and ignores arguments no handler takes. init_from initialises every reference or pointer member of the target from the first source member of that type (directly or through its pointer), referring to the source's own storage, and returns nothing exactly if a referenced source pointer is null.",
  ["inputs", "programs"],
  "all dynamic types, handler orders, and source states",
  "One existing test each with fixed types; the init_from test is not built here.",
  [I+"match.h", I+"overloaded.h", I+"init_from.h"],
  [("dynamic_cast chain", I+"match.h"), ("tuple search by type", I+"init_from.h")],
  ["handler calls", "addresses stored in the target"])
p("C41", "Printable enums, log lines and timers print the right text",
  "A printable enum converts every enumerator, and streams it, as exactly its declared name. A log statement writes one line of level tag, UTC time stamp, file:line and all streamed items to the log stream; time formatting gives the UTC ISO-8601 form of any time from year 1000 to 9999; scoped and manual timers log their name on start and their name with the elapsed milliseconds on print and stop.",
  ["inputs", "configurations"],
  "all enumerators, points in time, messages and timer usages",
  "One existing test prints three enumerators; nothing covers logging and timers.",
  [I+"printable_enum.h", I+"logging.h", I+"timer.h", "src/timer.cc", I+"timing.h"],
  [("stringised enumerator list", I+"printable_enum.h"), ("gmtime + strftime", I+"logging.h")],
  ["produced strings", "bytes written to the log stream"])

p("C42", "A thread name is given to exactly the named thread",
  "Setting a thread's name (its own with set_current_thread_name or another's with set_thread_name) gives exactly that thread exactly that name (names of up to the platform's 15 bytes); no other thread's name changes, the thread itself keeps running undisturbed, and the argument is left unchanged.",
  ["schedules", "inputs"],
  "all thread counts, names of up to 15 bytes, and interleavings of several threads naming themselves and each other",
  "No existing test names a thread.",
  [I+"set_thread_name.h"],
  [("pthread_setname_np / prctl", I+"set_thread_name.h")],
  ["names the operating system reports for every thread"])
p("C43", "Independent uses on several threads do not interfere",
  "Any number of threads may use the library's functions (parsing, CSV reading and writing, files, pipelines, formatting, enums, structural helpers, command line) at the same time on objects of their own or reading the same constant inputs: every call gives the result it gives when executed alone, and no data race occurs inside the library.",
  ["schedules"],
  "all interleavings of any mix of library calls that share no mutable object",
  "No existing test uses the sequential parts from more than one thread.",
  [I+"parser/*.h", I+"pipes/*.h", I+"*.h", "src/*.cc"],
  [("hidden static or shared state in any helper", I+"*.h")],
  ["results compared with those of a single-threaded run", "conflicting accesses"])
p("C44", "Failures inside sequential operations surface and leak nothing",
  "When a function, an element's copy or comparison, or a memory allocation that a sequential operation depends on throws, exactly that exception reaches the caller (read_file instead reports every failure by an empty optional) and nothing further is called. Every object ever constructed is destroyed exactly once, no memory or file descriptor is leaked, and constant inputs are unchanged; a failed insert_sorted, get_or_create or get_or_create_index leaves the collection as it was.",
  ["fault_sequences"],
  "all operations and all points at which one of their callbacks, element operations or allocations can fail",
  "No existing test injects a failure.",
  [I+"*.h", I+"pipes/*.h", I+"parser/*.h", "src/*.cc"],
  [("resource ownership across throwing calls", I+"*.h")],
  ["exceptions seen by the caller", "constructions and destructions", "live allocations and descriptors"])
p("C45", "Whatever the library calls may use the library",
  "A function, predicate, comparator, stream operator, element operation, generator body or loop body that the library runs may itself use any of the library's sequential functions on other objects, including the function that is running it, to any depth. Every call, inner or outer, gives the result it gives when executed on its own.",
  ["inputs", "histories"],
  "all nestings of library calls inside functions handed to other library calls",
  "No existing test uses the library from within a callback.",
  [I+"*.h", I+"pipes/*.h", I+"parser/*.h", "src/*.cc"],
  [("hidden per-thread or per-process scratch state in any helper", I+"*.h")],
  ["results of inner and outer calls compared with those obtained alone", "memory accesses"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
