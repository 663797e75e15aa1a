#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--thorough] | --replay FILE

Decides one property of bml against the TLA+ specification in spec/. Exit 0: held on everything explored. Exit 1 with a
VIOLATION line: broken. Exit 2: the check itself could not give an answer."""
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import run, profiles  # noqa: E402


def known():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return profiles.replay(sys.argv[2])
    if sys.argv[1:] == ["--setup"]:
        return profiles.setup()
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="w-%s-" % pid, dir=run.scratch())
    try:
        res = profiles.CHECKS[pid](pid, seed, tier, work, known())
    finally:
        shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=res["level"], coverage=res["coverage"], assumptions=res.get("assumptions", []),
              wall_s=round(time.time() - t0, 1), violations=len(res["violations"]))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for line in res.get("notes", []):
        print(line)
    for k, v in enumerate(res["violations"][:3], 1):
        d = os.path.join(VERIF, "out")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (pid, k))
        with open(path, "w") as f:
            json.dump(dict(property=pid, **v), f, indent=1)
        print(v["what"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s: %s (%.1f s)" % (pid, tier, "VIOLATED" if res["violations"] else "held", time.time() - t0))
    return 1 if res["violations"] else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except run.CheckError as x:
        print("ERROR: %s" % x)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
