#!/bin/bash
# usage: fix.sh "<message without fix:>" PROP "what failed"  - commits the staged repair in /repo
set -e
bash /opt/vp/build.sh >/tmp/fix.build 2>&1 || { tail -30 /tmp/fix.build; exit 1; }
bash /opt/vp/test.sh /tmp/fix.json >/tmp/fix.test 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/fix.json'))
print({k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in r.items()})
def S(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
bp,rp=S(b),S(r)
miss=bp-rp
if miss: print("BROKEN",miss); raise SystemExit(1)
P
bash /verif/tools/upstream_tests.sh >/tmp/fix.up 2>&1 || { tail -30 /tmp/fix.up; exit 1; }
tail -1 /tmp/fix.up
cd /repo && git commit -qam "fix: $1" && H=$(git rev-parse --short HEAD)
python3 - "$2" "$H" "$3" <<'P'
import json,sys,os
f='/verif/known_findings.json'
d=json.load(open(f)) if os.path.exists(f) else {"findings":[],"fixed":[]}
d["fixed"].append("fixed: property=%s %s %s"%tuple(sys.argv[1:4]))
json.dump(d,open(f,'w'),indent=1)
P
git -C /repo status --short | head; git -C /repo log --oneline | head -1
