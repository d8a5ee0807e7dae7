#!/usr/bin/env python3
"""Behaviour-preserving edits (refactorings/*.diff): each is applied to a scratch
copy of /repo and the checks anchored in the files it touches must stay quiet.
No check reads them.   refac.py --make SPEC   refac.py [--par N] [name...]"""
import concurrent.futures as cf, glob, os, re, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from mutate import FILES
D = os.path.join(R, "refactorings")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def make(spec):
    S = []
    exec(open(spec).read(), {"refac": lambda name, *edits: S.append((name, edits))})
    os.makedirs(D, exist_ok=True)
    for name, edits in S:
        t = tempfile.mkdtemp(prefix="refac-")
        try:
            sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (t, t))
            for f, o, n in edits:
                p = t + "/" + f
                s = open(p, newline="").read()
                if "\r\n" in s: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
                assert s.count(o) == 1, (name, f, s.count(o), o)
                open(p, "w", newline="").write(s.replace(o, n))
            b = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE).stdout
            assert b, name
            open(os.path.join(D, name + ".diff"), "wb").write(b)
        finally:
            shutil.rmtree(t)
def props(diff):
    fs = re.findall(r"^\+\+\+ b/(\S+)", open(diff, newline="").read(), re.M)
    return [x for f in fs for x in FILES.get(f, [])]
def run(name):
    diff = os.path.join(D, name + ".diff")
    t = tempfile.mkdtemp(prefix="refac-")
    out = []
    try:
        r = sh("cp -a /repo %s/repo && cd %s/repo && git apply %s && cp -a /opt/vp %s/vp" % (t, t, diff, t))
        if r.returncode: return "%s: does not apply %s" % (name, r.stdout)
        r = sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json'" % (t, t))
        import json
        try:
            g = json.load(open(t + "/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            key = [k for k in ("passed", "pass", "stable", "tests") if k in b][0]
            miss = set(b[key]) - set(g["passed"])
        except Exception: miss = [r.stdout[-500:]]
        out.append("tests ok" if not miss else "TESTS BROKEN %s" % list(miss)[:3])
        for p in dict.fromkeys(props(diff)):
            r = sh("timeout 900 python3 check.py %s" % p, cwd=R, env=dict(os.environ, VERIF_REPO=t + "/repo"))
            left = re.findall(r"^LEFT-OUT.*", r.stdout, re.M)
            out.append("%s %s%s" % (p, {0: "held"}.get(r.returncode, "ALARM rc=%d\n%s" % (r.returncode, r.stdout[-1500:])), " left-out: %s" % left if left else ""))
    finally:
        shutil.rmtree(t)
    return "%-26s %s" % (name, "; ".join(out))
if __name__ == "__main__":
    a, par, names = sys.argv[1:], 2, []
    while a:
        x = a.pop(0)
        if x == "--make": make(a.pop(0)); sys.exit()
        elif x == "--par": par = int(a.pop(0))
        else: names.append(x)
    names = names or sorted(os.path.basename(f)[:-5] for f in glob.glob(D + "/*.diff"))
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(run, names): print(r, flush=True)
