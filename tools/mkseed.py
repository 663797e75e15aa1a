#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS: capture the change made in /tmp/seedwt as seeded/ID after confirming it there:
it builds, the stable tests pass, the demonstration (seeded/ID/demo.sh) fails with it and passes without it."""
import json, os, subprocess, sys
sid, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + sid
W = "/tmp/seedwt"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
diff = sh("git -C %s diff" % W).stdout
assert diff.strip(), "no change"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
r = sh("bash /tmp/seed/test.sh /tmp/seed/out.json")
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
out = json.load(open("/tmp/seed/out.json"))
bad = sorted(base - set(out["passed"]))
print("tests broken:", bad[:5])
a = sh("bash %s/demo.sh" % d, cwd=W)
print("with the change:", a.returncode, a.stdout[-300:])
sh("git -C %s checkout -- . && bash /tmp/seed/build.sh" % W)
b = sh("bash %s/demo.sh" % d, cwd=W)
print("without:", b.returncode, b.stdout[-300:])
ok = not bad and a.returncode != 0 and b.returncode == 0
print("SEED", sid, "CONFIRMED" if ok else "REJECTED")
sys.exit(0 if ok else 1)
