#!/usr/bin/env python3
"""Driver: check.py PROPERTY  - builds the property's harness binaries from
/repo's working tree, runs them sharded, judges what the monitors recorded and
writes evidence/PROPERTY.json.

exit 0: held on everything explored      exit 1: VIOLATION line printed
exit 2: harness error / inconclusive     (never folded into either verdict)
"""
import glob, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

DEV = os.environ.get("VERIF_DEV")  # tools/mutate.py: no twins, no retries
CXX = "g++"
COMMON = ["-std=c++23", "-g1", "-fno-omit-frame-pointer", "-DFMT_HEADER_ONLY",
          "-I", REPO + "/include", "-I", ROOT + "/shim", "-I", ROOT + "/harness",
          "-Wno-deprecated-declarations", "-w"]
CLANG_ASAN = ["-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]
MODES = {
    # clang -O0 plus a g++ -O1 twin (see judge)
    "asan": dict(cxx="clang++", flags=["-O0", "-fsanitize=address,undefined"] + CLANG_ASAN +
                 ["-D_GLIBCXX_DEBUG"], link=[], twin="asan_gcc"),
    "asan_nd": dict(cxx="clang++", flags=["-O0", "-fsanitize=address,undefined"] + CLANG_ASAN +
                    ["-D_GLIBCXX_ASSERTIONS"], link=[], twin="asan_gcc_nd"),
    "asan_gcc": dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
                        "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
                        "-D_GLIBCXX_DEBUG"], link=[]),
    # no debug containers: for layouts/complexity where they get in the way
    "asan_gcc_nd": dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
                                "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
                                "-D_GLIBCXX_ASSERTIONS"], link=[]),
    "tsan": dict(flags=["-O1", "-fsanitize=thread", "-DVF_TSAN"], link=[]),
    # controlled scheduler: tsan instrumentation, own runtime
    "sched": dict(flags=["-O1", "-fsanitize=thread", "-DVF_SCHED", "-ftrivial-auto-var-init=pattern"], link=[],
                  nolink_sanitizer=True),
    "plain": dict(flags=["-O2"], link=[]),
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_leaks=0:"
                    "hard_rss_limit_mb=6000:detect_stack_use_after_return=1:handle_abort=1:"
                    "symbolize=1:max_allocation_size_mb=2048",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:report_signal_unsafe=0",
    "TZ": "UTC", "LC_ALL": "C",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


class HarnessError(Exception):
    pass


def compile_one(job):
    """one object; what the changed library no longer compiles with is, in this
    order: a use the property covers (the bin's `fallback`: reported), a use of
    it with unusual element types only (left out under VF_LEAN), this source"""
    cmd, f = job
    r = sh(cmd)
    if r.returncode == 0:
        return "ok", ""
    if DEV:
        return "failed", r.stdout[:600]
    r = sh(cmd)  # once more: the first failure may be a resource hiccup
    if r.returncode == 0:
        return "ok", ""
    if f and sh(cmd + ["-DVF_FALLBACK"]).returncode == 0:
        return "fallback", r.stdout[:6000]
    if sh(cmd + ["-DVF_LEAN"] + (["-DVF_FALLBACK"] if f else [])).returncode == 0:
        return "lean", r.stdout[:6000]
    return "failed", "compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:])


def build(prop, cfg, bdir):
    """compile every binary of the check; returns [(binspec, path)], the uses
    that do not compile, and what had to be left out"""
    jobs, objs, who = [], {}, []
    for b in cfg["bins"]:
        mode = MODES[b["mode"]]
        flags = COMMON + mode["flags"] + b.get("flags", [])
        srcs = [os.path.join(ROOT, "harness", s) for s in b["src"]]
        srcs += [os.path.join(REPO, s) for s in b.get("repo_src", [])]
        for i, s in enumerate(srcs):
            o = os.path.join(bdir, "%s.%d.o" % (b["name"], i))
            own = i < len(b["src"])
            jobs.append(([mode.get("cxx", CXX)] + flags + ["-c", s, "-o", o], own and b.get("fallback")))
            who.append((b, o, own))
        for i, s in enumerate(b.get("rt_src", [])):  # runtime: not instrumented
            o = os.path.join(bdir, "%s.rt%d.o" % (b["name"], i))
            jobs.append(([CXX] + COMMON + ["-O2", "-c", os.path.join(ROOT, "harness", s), "-o", o], None))
            who.append((b, o, False))
    uncompilable, dropped, broken, errors = [], [], set(), []
    with cf.ThreadPoolExecutor(8) as ex:
        for (cmd, f), (b, o, own), (how, text) in zip(jobs, who, ex.map(compile_one, jobs)):
            if how == "fallback":
                uncompilable.append((b, text))
            elif how == "lean":
                dropped.append("%s: unusual element types in %s" % (b["name"], os.path.basename(o)))
            elif how == "failed":
                errors.append(text)
                if own and len(b["src"]) > 1:
                    dropped.append("%s: %s" % (b["name"], os.path.basename(o)))
                    continue
                broken.add(b["name"])
            objs.setdefault(b["name"], []).append(o)
    out = []
    for b in cfg["bins"]:
        if b["name"] in broken:
            dropped.append("binary " + b["name"])
            continue
        mode = MODES[b["mode"]]
        exe = os.path.join(bdir, b["name"])
        san = [] if mode.get("nolink_sanitizer") else [f for f in mode["flags"] if f.startswith("-fsanitize")]
        link = lambda more: sh([mode.get("cxx", CXX)] + san + objs.get(b["name"], []) + more + ["-o", exe, "-lpthread", "-rdynamic"] + b.get("libs", []))
        r = link([])
        if r.returncode != 0:  # definitions may have moved to sources this check does not name
            used = {os.path.join(REPO, s) for s in b.get("repo_src", [])}
            more = []
            for i, s in enumerate(sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cc"), recursive=True))):
                o = os.path.join(bdir, "%s.more%d.o" % (b["name"], i))
                if s not in used and sh([mode.get("cxx", CXX)] + COMMON + mode["flags"] + b.get("flags", []) + ["-c", s, "-o", o]).returncode == 0:
                    more.append(o)
            if more:
                r = link(more)
        if r.returncode != 0:
            errors.append("link failed: %s" % r.stdout[-4000:])
            dropped.append("binary " + b["name"])
            continue
        out.append((b, exe))
    if not out:
        raise HarnessError(errors[0] if errors else "no binary")
    return out, uncompilable, dropped


# when a violation was found, the rest of the check gets GRACE more seconds
FOUND, GRACE = [], 40


def run_one(exe, b, seed, tier, shard, shards, wdir, tag, extra=(), wall=600):
    out = os.path.join(wdir, tag + ".out")
    st = os.path.join(wdir, tag + ".status")
    err = os.path.join(wdir, tag + ".err")
    work = os.path.join(wdir, tag + ".work")
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ)
    env.update(ENV)
    env["VF_WORKDIR"] = work
    env.update(b.get("env", {}))
    if b.get("fd_exact"):  # the RSS watcher thread opens /proc/self/statm now and then
        env["ASAN_OPTIONS"] = re.sub(r"hard_rss_limit_mb=\d+:?", "", env["ASAN_OPTIONS"])
    if "alloc_mb" in b:
        env["ASAN_OPTIONS"] = re.sub(r"max_allocation_size_mb=\d+", "max_allocation_size_mb=%d" % b["alloc_mb"], env["ASAN_OPTIONS"])
    seed += b.get("seed_offset", 0)
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (shard, shards),
           "--out", out, "--status", st] + list(extra)
    t0 = time.time()
    timed_out = stuck = False
    with open(err, "wb") as ef, open(os.devnull, "rb") as nul:
        p = subprocess.Popen(cmd, stdin=nul, stdout=ef, stderr=ef, env=env, cwd=work,
                             start_new_session=True)
        def pos():
            try:
                return open(st, "rb").read(104)
            except OSError:
                return None
        half, rc, cut = None, None, False
        while rc is None:
            try:
                rc = p.wait(timeout=1)
            except subprocess.TimeoutExpired:
                spent = time.time() - t0
                if half is None and spent >= wall / 2:
                    half = pos()
                gone = cut = bool(FOUND) and time.time() - FOUND[0] > GRACE
                if spent >= wall or gone:
                    timed_out = True
                    stuck = half is not None and half == pos()
                    os.killpg(p.pid, 9)
                    rc = p.wait()
    lines = []
    if os.path.exists(out):
        with open(out, errors="replace") as f:
            for l in f:
                try:
                    lines.append(json.loads(l))
                except ValueError:
                    pass
    scen, idx, note = "?", 0, ""
    try:
        raw = open(st, "rb").read()
        scen = raw[:96].split(b"\0")[0].decode(errors="replace")
        idx = int.from_bytes(raw[96:104], "little")
        note = raw[112:].split(b"\0")[0].decode(errors="replace")
    except OSError:
        pass
    with open(err, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 60000))
        errtxt = f.read().decode(errors="replace")
    shutil.rmtree(work, ignore_errors=True)
    return dict(rc=rc, lines=lines, scen=scen, idx=idx, note=note, err=errtxt,
                timed_out=timed_out, stuck=stuck, cut=timed_out and cut, wall=time.time() - t0, cmd=cmd)


SAN = [
    (re.compile(r"(Error: attempt to [^\n.]*)"), "libstdcxx-debug"),
    (re.compile(r"ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)"), "asan"),
    (re.compile(r"WARNING: ThreadSanitizer: ([a-zA-Z -]+)"), "tsan"),
    (re.compile(r"runtime error: (.*)"), "ubsan"),
    (re.compile(r"AddressSanitizer: (hard rss limit exhausted)"), "asan"),
    (re.compile(r"(VF-CPU-LIMIT)"), "nontermination"),
    (re.compile(r"(Assertion [^\n]*failed)"), "assert"),
    (re.compile(r"terminate called( after throwing[^\n]*)?"), "terminate"),
    (re.compile(r"VF-SCHED: ([a-z-]+)"), "sched"),
]


def crash_key(r):
    for rx, kind in SAN:
        m = rx.search(r["err"])
        if m:
            d = (m.group(1) or "") if m.groups() else ""
            d = re.sub(r"0x[0-9a-f]+", "ADDR", d)
            d = re.sub(r"-?\d+", "N", d)
            return kind + ":" + d.strip()[:120]
    return "exit:%s" % r["rc"]


def main():
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    bdir = os.path.join(ROOT, "build", prop + "-" + str(os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    keep = "--keep" in sys.argv
    try:
        rc = judge(prop, cfg, seed, tier, t0, bdir, rdir)
    except HarnessError as e:
        print("HARNESS-ERROR property=%s %s" % (prop, e))
        rc = 2
    finally:
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def judge(prop, cfg, seed, tier, t0, bdir, rdir):
    # the same harness once more as g++ -O1 code (other code generation and
    # evaluation order), with other random cases; quick runs it on fewer
    twins = [dict(b, name=b["name"] + "_gcc", mode=MODES[b["mode"]]["twin"], seed_offset=7919,
                  args=list(b.get("args", [])) + (["--scale", "0.3"] if tier == "quick" else []))
             for b in cfg["bins"] if MODES[b["mode"]].get("twin") and not b.get("no_twin")]
    cfg = dict(cfg, bins=cfg["bins"] + ([] if DEV else twins))
    bins, uncompilable, dropped = build(prop, cfg, bdir)
    built = {b["name"] for b, _ in bins}
    for b, _ in bins:  # a twin that has to stand in for its original runs at full scale
        if b["name"].endswith("_gcc") and b["name"][:-4] not in built and "--scale" in b.get("args", []):
            b["args"] = b["args"][:-2]
    tbuild = time.time() - t0
    counters, evals, samples, hashes = {}, {}, [], set()
    viols, inconclusive = [], []
    known = []
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("findings", []) if k.get("property") == prop]
    listed = bool(known)
    for f, text in uncompilable:
        viols.append(dict(bin=f["name"], mode=f["mode"], scenario="compile", case=0,
                          key="compile/" + f["fallback"], detail=f["fallback"] + " does not compile", report=text))
    default_wall = 150 if tier == "quick" else 3000
    jobs = []
    for b, exe in bins:
        n = b.get("shards", 8)
        for i in range(n):
            jobs.append((b, exe, i, n))

    def work(j):
        if FOUND and time.time() - FOUND[0] > GRACE:
            return j, [], None
        r = work_on(j)
        if not listed and ((r[2] and r[2][0] == "violation") or any(l.get("t") == "violation" for x in r[1] for l in x["lines"])):
            FOUND.append(time.time())
        return r

    def work_on(j):
        b, exe, i, n = j
        wall = b.get("wall", default_wall)
        extra = list(b.get("args", []))
        r = run_one(exe, b, seed, tier, i, n, bdir, "%s-%d" % (b["name"], i), extra, wall)
        res = [r]
        ended = any(l.get("t") == "end" for l in r["lines"])
        if r["rc"] in (0, 1) and ended:
            return j, res, None
        if r["cut"]:
            return j, res, None
        # abnormal end: replay the single case that was running
        rr = run_one(exe, b, seed, tier, 0, 1, bdir, "%s-%d-replay" % (b["name"], i),
                     extra + ["--only", r["scen"], "--case", str(r["idx"])], min(wall, 90))
        rr_end = any(l.get("t") == "end" for l in rr["lines"])
        if r["cut"] or rr["cut"]:
            return j, res, None
        if r["timed_out"]:
            if rr["timed_out"]:
                return j, res, ("violation", "hang", r, rr)
            if not (rr["rc"] == 0 and rr_end):
                return j, res, ("violation", crash_key(rr), rr, rr)
            if FOUND:
                return j, res, ("inconclusive", "wall timeout", r, rr)
            r2 = run_one(exe, b, seed, tier, i, n, bdir, "%s-%d-again" % (b["name"], i), extra, wall * 2)
            if r2["rc"] in (0, 1) and any(l.get("t") == "end" for l in r2["lines"]):
                return j, [r2], None
            if r2["cut"]:
                return j, res, None
            if r["stuck"] and r2["timed_out"] and r2["stuck"]:
                # twice the run stopped at one case of a few ms and never left it
                return j, res, ("violation", "hang", r2, rr)
            return j, res, ("inconclusive", "wall timeout", r2, rr)
        if r["rc"] in (-9, 3) or r["scen"] == "?":
            return j, res, ("inconclusive", "killed or not started (rc=%s)" % r["rc"], r, rr)
        if r["rc"] == 97 and rr["rc"] == 0 and rr_end:
            return j, res, ("inconclusive", "cpu limit not reproduced", r, rr)
        return j, res, ("violation", crash_key(r), r, rr)

    maxw = cfg.get("parallel", 8)
    with cf.ThreadPoolExecutor(maxw) as ex:
        for j, res, verdict in ex.map(work, jobs):
            b, exe, i, n = j
            for r in res:
                for l in r["lines"]:
                    t = l.get("t")
                    if t == "counter":
                        counters[l["k"]] = counters.get(l["k"], 0) + l["v"]
                    elif t == "evals":
                        k = b["name"] + ":" + l["k"]
                        evals[k] = evals.get(k, 0) + l["v"]
                    elif t == "sample" and len(samples) < 24:
                        s = "%s: %s" % (l["k"], l["v"])
                        if s not in samples:
                            samples.append(s)
                    elif t == "hashes":
                        hashes.update(l["v"])
                    elif t == "violation":
                        viols.append(dict(bin=b["name"], mode=b["mode"], scenario=l["scenario"],
                                          case=l["idx"], key=l["scenario"] + "/" + l["key"],
                                          detail=l["detail"], seed_offset=b.get("seed_offset", 0)))
            if verdict:
                kind, key, r, rr = verdict
                ent = dict(bin=b["name"], mode=b["mode"], scenario=r["scen"], case=r["idx"],
                           key=r["scen"] + "/" + key,
                           detail=r["note"], seed_offset=b.get("seed_offset", 0), report=r["err"][-8000:], replay_report=rr["err"][-3000:],
                           replay_rc=rr["rc"])
                (viols if kind == "violation" else inconclusive).append(ent)

    real, seen_known = [], {}
    for v in viols:
        m = next((k for k in known if re.fullmatch(k["key"], v["key"])
                  and (not k.get("detail") or re.search(k["detail"], v["detail"]))), None)
        if m:
            seen_known[m["key"]] = m
        else:
            real.append(v)
    total = sum(evals.values())
    cov = dict(evaluations=total, distinct_nontrivial=len(hashes), rule=cfg["rule"],
               samples=samples or ["(none)"], observed=dict(sorted(counters.items())),
               cases_per_scenario=dict(sorted(evals.items())),
               binaries=[dict(name=b["name"], build=b["mode"]) for b, _ in bins],
               build_s=round(tbuild, 1), left_out=dropped)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=len(real), inconclusive=[dict(key=x["key"]) for x in inconclusive],
              known_findings=sorted(seen_known))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        # a listed finding is announced whether or not this run's sample hit it
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if real:
        uniq = {}
        for v in real:
            uniq.setdefault(v["key"], v)
        for n, (k, v) in enumerate(list(uniq.items())[:5]):
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            v = dict(v, property=prop, seed=seed, tier=tier,
                     replay_cmd="VERIF_SEED=%d VERIF_TIER=%s ./check.py %s --keep, then build/%s-*/%s --seed %d --tier %s --only %s --case %d"
                     % (seed, tier, prop, prop, v["bin"],
                        seed + v.get("seed_offset", 0), tier, v["scenario"], v["case"]))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s case=%s/%d\n  %s" % (k, v["scenario"], v["case"], v["detail"][:600]))
        return 1
    if inconclusive:
        for x in inconclusive:
            print("INCONCLUSIVE property=%s %s case=%d\n%s" % (prop, x["key"], x["case"], x["report"][-1500:]))
        return 2
    for name, mn in cfg.get("min", {}).items():
        got = total if name == "evaluations" else len(hashes) if name == "distinct" else counters.get(name, 0)
        if dropped and got > 0:
            continue  # parts could not be built (see evidence: left_out)
        if got < mn:
            print("INCONCLUSIVE property=%s observed too little: %s=%d < %d" % (prop, name, got, mn))
            return 2
    for d in dropped:
        print("LEFT-OUT property=%s %s" % (prop, d))
    print("HELD property=%s cases=%d distinct=%d wall=%.1fs build=%.1fs" % (prop, total, len(hashes), time.time() - t0, tbuild))
    return 0


if __name__ == "__main__":
    main()
