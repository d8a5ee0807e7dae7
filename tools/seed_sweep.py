#!/usr/bin/env python3
"""run each planted bug's property check against a scratch copy of /repo with
the bug applied; results in tools/seed_results.json. args: ids (default all)"""
import json, os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(R, "tools", "seed_results.json")
res = json.load(open(out)) if os.path.exists(out) else {}
have = sorted(os.listdir(os.path.join(R, "seeded")))
ids = sys.argv[1:] or have
def run(i):
    p = json.load(open(os.path.join(R, "seeded", i, "meta.json")))["property"]
    d = tempfile.mkdtemp(prefix="sweep-")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        a = subprocess.run(["git", "-C", d + "/repo", "apply", os.path.join(R, "seeded", i, "patch.diff")], capture_output=True, text=True)
        if a.returncode:
            return i, p, "does not apply", ""
        r = subprocess.run(["python3", os.path.join(R, "check.py"), p], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_NO_EVIDENCE="1"))
        v = "caught" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "missed" if r.returncode == 0 else "exit %d" % r.returncode
        l = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "key=" in x]
        return i, p, v, (l[0] if l else "")[:200]
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(int(os.environ.get("SEED_PAR", "2"))) as ex:
    for i, p, v, l in ex.map(run, ids):
        res[i] = dict(property=p, verdict=v)
        print(i, p, v, l, flush=True)
        json.dump(res, open(out, "w"), indent=1, sort_keys=True)
res = {k: v for k, v in res.items() if k in have}
json.dump(res, open(out, "w"), indent=1, sort_keys=True)
