"""Helper to write and try planted bugs (see seeded/). Not used by any check.
A spec file calls seed(...); run it as  python3 tools/seedlib.py SPEC [ids...]"""
import json, os, shutil, subprocess, sys, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {}
DEMO_SH = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++23 %(flags)s -g -w -DFMT_HEADER_ONLY -I"$r/include" -I"$d/shim" "$d/demo.cc" %(srcs)s -o "$t/demo" -lpthread || exit 2
cd "$t" && timeout %(timeout)d ./demo
"""
def seed(id, prop, edits, demo, needs, breaks, srcs=(), flags="-O1", timeout=100, shim=False):
    SPECS[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, srcs=srcs, flags=flags, timeout=timeout, shim=shim)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def clean(): sh("git -C /repo checkout -- .")
def run(s, check=True):
    d = os.path.join(R, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, o, n in s["edits"]:
        p = "/repo/" + f; t = open(p, newline="").read()
        if "\r\n" in t: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        assert t.count(o) == 1, (s["id"], f, t.count(o), o)
        open(p, "w", newline="").write(t.replace(o, n))
    open(d + "/patch.diff", "wb").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout)
    open(d + "/demo.cc", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH % dict(flags=s["flags"], srcs=" ".join('"$r/%s"' % x for x in s["srcs"]), timeout=s["timeout"]))
    os.chmod(d + "/demo.sh", 0o755)
    if s["shim"]:
        shutil.rmtree(d + "/shim", ignore_errors=True); shutil.copytree(R + "/shim", d + "/shim")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    res = {}
    try:
        r = sh("bash /opt/vp/test.sh /tmp/seed.json")
        b = json.load(open("/opt/vp/BASELINE.json")); g = json.load(open("/tmp/seed.json"))
        key = [k for k in ("passed", "pass", "stable", "tests") if k in b][0]
        miss = set(b[key]) - set(g["passed"])
        res["tests"] = "ok" if not miss else "BROKEN %s" % sorted(miss)[:3]
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); res["demo_patched"] = r.returncode
        res["demo_out"] = r.stdout[-300:]
        if check:
            t0 = time.time(); r = sh("python3 check.py %s" % s["prop"], cwd=R)
            res["check"] = r.returncode; res["check_s"] = round(time.time() - t0)
            res["check_out"] = r.stdout[:420]
    finally:
        clean()
    r = sh("bash %s/demo.sh" % d, cwd="/repo"); res["demo_clean"] = r.returncode
    if r.returncode: res["clean_out"] = r.stdout[-800:]
    ok = res["tests"] == "ok" and res["demo_patched"] not in (0, 2) and res["demo_clean"] == 0
    print("%-28s %s %s  %s" % (s["id"], s["prop"], "VALID" if ok else "INVALID", "caught" if res.get("check") == 1 else "MISSED rc=%s" % res.get("check")), "%ss" % res.get("check_s"))
    if not ok or res.get("check") != 1: print(json.dumps(res, indent=1))
    sys.stdout.flush()
PAR = int(os.environ.get("SEED_PAR", "4"))
def isolated(id, slot):
    """run one seed with private copies of /repo and /verif mounted over them"""
    w = "/tmp/seedw.%d.%d" % (os.getpid(), slot)
    sh("rm -rf %s; mkdir -p %s/verif && cp -a /repo %s/repo && cd /verif && tar c --exclude=.git --exclude=./build --exclude=./evidence . | tar x -C %s/verif" % (w, w, w, w))
    r = sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mkdir -p %s/verif/evidence && mount --bind %s/verif /verif && cd /verif && exec env SEED_CHILD=1 python3 tools/seedlib.py %s %s'" % (w, w, w, os.path.abspath(sys.argv[1]), id))
    print(r.stdout, end="", flush=True)
    sh("mkdir -p /verif/seeded && rm -rf /verif/seeded/%s && cp -a %s/verif/seeded/%s /verif/seeded/ && rm -rf %s" % (id, w, id, w))
if __name__ == "__main__":
    sys.modules["seedlib"] = sys.modules["__main__"]
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), globals())
    ids = sys.argv[2:] or list(SPECS)
    if os.environ.get("SEED_CHILD"):
        for i in ids: run(SPECS[i])
    else:
        from concurrent.futures import ThreadPoolExecutor
        import queue
        q = queue.Queue()
        for i in range(PAR): q.put(i)
        def job(i):
            s = q.get()
            try: isolated(i, s)
            finally: q.put(s)
        with ThreadPoolExecutor(PAR) as ex: list(ex.map(job, ids))
