#!/usr/bin/env python3
"""Mutation sweep: small syntactic changes to the library, each run (in a
scratch copy) against the checks of the properties anchored there until one
reports a violation. Survivors are what to look at: equivalent changes, or
blind spots. usage: mutate.py OUT.json [--par N] [--cap N] [--seed N] [file...]"""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, concurrent.futures as cf
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "include/utl/"
PROPS = {
 "join.h": "C26", "sorted_diff.h": "C27", "power_set_intersection.h": "C28", "equal_ranges.h": "C29",
 "equal_ranges_linear.h": "C29", "nwise.h": "C30", "pairwise.h": "C30", "zip.h": "C31", "forward_type.h": "C31 C32",
 "enumerate.h": "C32", "insert_sorted.h": "C34 C44", "erase.h": "C34", "erase_if.h": "C34", "erase_duplicates.h": "C34",
 "sort_by.h": "C34", "to_vec.h": "C35", "to_set.h": "C35", "repeat_n.h": "C35", "concat.h": "C35",
 "get_or_create.h": "C36 C44", "get_or_create_index.h": "C36 C44", "helpers/algorithm.h": "C37", "is_uniform.h": "C37",
 "for_each_bit_set.h": "C37", "iterator_facade.h": "C38", "verify.h": "C39", "match.h": "C40", "overloaded.h": "C40",
 "init_from.h": "C40", "printable_enum.h": "C41", "logging.h": "C41", "timer.h": "C41", "timing.h": "C41",
 "set_thread_name.h": "C42", "parallel_for.h": "C01 C02 C03 C06", "thread_pool.h": "C04 C05 C06",
 "progress_tracker.h": "C07 C08 C09 C06", "generator.h": "C10 C44", "raii.h": "C11 C44", "parser/buffer.h": "C12",
 "parser/file.h": "C13 C44", "read_file.h": "C13 C44", "parser/mmap_reader_unix.h": "C14 C17", "parser/cstr.h": "C15 C16 C23 C21",
 "parser/buf_reader.h": "C17 C23", "parser/line_range.h": "C17 C22", "for_each_line_in_file.h": "C17",
 "parser/arg_parser.h": "C18 C19 C20 C23", "parser/csv.h": "C21 C25 C22 C23", "parser/csv_range.h": "C22 C23",
 "parser/split.h": "C25 C23", "cmd_line_parser.h": "C24",
}
FILES = {U + k: v.split() for k, v in PROPS.items()}
for f in sorted(os.listdir("/repo/" + U + "pipes")):
    FILES[U + "pipes/" + f] = ["C33"]
FILES["src/progress_tracker.cc"] = ["C07", "C08", "C09", "C06"]
FILES["src/timer.cc"] = ["C41"]

SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" < ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
        (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r"\+\+(?=\w)", "--"), (r"--(?=\w)", "++"), (r"\+\+(?=\w)", ""), (r" \+= ", " -= "), (r" -= ", " += "),
        (r" \+= ", " = "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[\w(])", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
        (r"\b([2-9]\d*)\b", lambda m: str(int(m.group(1)) + 1)), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\bif \((?!constexpr)(.*)\) \{", r"if (true || (\1)) {"),
        (r"\bif \((?!constexpr)(.*)\) \{", r"if (false && (\1)) {"), (r"\bwhile \((.*)\) \{", r"if (\1) {"), (r"std::move\(([^()]*)\)", r"\1"),
        (r"\b(?:std::)?size_t\b", "unsigned short"), (r"\b(?:std::)?size_t\b", "int"), (r"auto const& ", "auto const "), (r"auto& ", "auto "),
        (r"(\w) const& (\w)", r"\1 const \2"), (r"notify_all", "notify_one"), (r"std::lock_guard[^;]*;", ";"), (r"std::unique_lock[^;]*;", ";"), (r"\*this", "*this"), (r"\bbegin\(", "end("), (r"\bend\(", "begin("),
        (r"\bfirst\b", "second"), (r"\bsecond\b", "first"), (r"std::less", "std::greater"), (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"std::min\b", "std::max"), (r"std::max\b", "std::min"),
        (r"lhs", "rhs"), (r"rhs", "lhs"), (r"\bdouble\b", "float"), (r"\bunsigned\b", "int"), (r"(?<!&)& ", " "), (r"\?(.*) : ([^;]*);", r"? \2 : \1;"), (r"exchange\(([^,]*), [^)]*\)", r"\1"),
        (r"'(.)'", r"'#'"), (r"\"[^\"]+\"", '""'), (r"\.empty\(\)", ".size() == 1"), (r"uint64_t", "uint32_t"), (r"int64_t", "int32_t")]

def mutants(f, text):
    L = text.split("\n")
    out = []
    for i, l in enumerate(L):
        s = l.strip()
        if not s or s.startswith(("//", "#", "template", "using", "typename", "namespace", "static_assert", "*", "/*")):
            continue
        code = l.split("//")[0]
        for rx, to in SUBS:
            for m in list(re.finditer(rx, code))[:3]:
                n = code[:m.start()] + (m.expand(to) if isinstance(to, str) else to(m)) + code[m.end():]
                if n != code:
                    out.append((i, n))
        if s.endswith(";") and s.count("(") == s.count(")") and not re.match(r"(return|struct|class|auto |[\w:<>]+(\s+const)?[&*]? +\w+ *(=|;|\{))", s) \
                and i and re.search(r"[;{}:]\s*$", L[i - 1].split("//")[0]):
            out.append((i, ""))
        m = re.match(r"(\s*)return (.+);$", code)
        if m and m.group(2) not in ("true", "false"):
            out.append((i, "%sreturn {};" % m.group(1)))
    seen, res = set(), []
    for m in out:
        if m not in seen:
            seen.add(m)
            res.append(m)
    return res

def main():
    a = sys.argv[1:]
    outp, par, cap, seed, files = a.pop(0), 3, 40, 1, []
    while a:
        x = a.pop(0)
        if x == "--par": par = int(a.pop(0))
        elif x == "--cap": cap = int(a.pop(0))
        elif x == "--seed": seed = int(a.pop(0))
        else: files.append(x)
    jobs = []
    rng = random.Random(seed)
    for f, props in FILES.items():
        if files and f not in files and os.path.basename(f) not in files:
            continue
        t = open("/repo/" + f).read()
        ms = mutants(f, t)
        rng.shuffle(ms)
        jobs += [(f, props, i, n) for i, n in sorted(ms[:cap])]
    print(len(jobs), "mutants", flush=True)
    slots = []
    for k in range(par):
        d = tempfile.mkdtemp(prefix="mut%d-" % k)
        subprocess.run("cp -a /repo %s/repo && rm -rf %s/repo/build" % (d, d), shell=True, check=True)
        slots.append(d)
    lock = threading.Lock()
    res = []
    def run(j):
        f, props, i, n = j
        with lock:
            d = slots.pop()
        p = d + "/repo/" + f
        orig = open("/repo/" + f).read()
        L = orig.split("\n")
        old = L[i]
        L[i] = n
        try:
            open(p, "w").write("\n".join(L))
            verdict = "survived"
            for k, prop in enumerate(props):
                try:
                    r = subprocess.run(["python3", os.path.join(R, "check.py"), prop], capture_output=True, text=True, timeout=600,
                                       env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_DEV="1"))
                except subprocess.TimeoutExpired:
                    verdict = "timeout " + prop
                    break
                if r.returncode == 1:
                    verdict = "killed " + prop
                    break
                if r.returncode == 2:
                    verdict = "nocompile" if "HARNESS-ERROR" in r.stdout else "inconclusive " + prop
                    break
            return dict(file=f, line=i + 1, old=old.strip(), new=n.strip(), verdict=verdict)
        finally:
            open(p, "w").write(orig)
            with lock:
                slots.append(d)
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(run, jobs):
            res.append(r)
            if not r["verdict"].startswith(("killed", "nocomp")):
                print(r["verdict"], r["file"], r["line"], "|", r["old"], "=>", r["new"], flush=True)
            json.dump(res, open(outp, "w"), indent=0)
    for d in slots:
        shutil.rmtree(d)
    from collections import Counter
    print(Counter(r["verdict"].split()[0] for r in res))
if __name__ == "__main__":
    main()
