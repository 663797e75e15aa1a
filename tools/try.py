"""Try a profile: try.py "dict(ops)" N "dict(gen kwargs)"; MPI=1 uses several ranks. S=seed, SHOW=text prints an example."""
import collections
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import gen, heap, mpi, profiles, run

ops, n = eval(sys.argv[1]), int(sys.argv[2])
kw = eval(sys.argv[3]) if len(sys.argv) > 3 else {}
par = os.environ.get("MPI")
rng = random.Random(int(os.environ.get("S", "1")))
gen.Gen.UBLOCKS = float(os.environ.get("UB", gen.Gen.UBLOCKS))
run.REPO = os.environ.get("TRY_REPO", run.REPO)
drv, g, drive = (run.build_mpi(), getattr(mpi, os.environ.get("CLS", "DistGen"))(rng, ops=ops, **kw), mpi.drive) if par else ((run.build_fortran() if os.environ.get("FORT") else run.build_omp()), gen.Gen(rng, ops=ops, **kw), run.drive)
progs = [g.program(k) for k in range(1, n + 1)]
w = "/tmp/w"
t0 = time.time()
tr = drive(drv, progs, w)
t1 = time.time()
acc, rej, d, gn = run.validate(tr, w)
print("programs", n, "events", sum(map(len, tr.values())), "drive %.1f tlc %.1f" % (t1 - t0, time.time() - t1), "rejected", len(rej))
P = {int(p[0].split()[1]): p for p in progs}
best = heap.first_bad(tr, rej, w, limit=400)
c, ex = collections.Counter(), {}
for t, k in best.items():
    e = json.loads(tr[t][k])
    line = P[t][k] if k < len(P[t]) else "?"
    sh = heap.heap_before(tr[t], k)
    arg = line.split()[1:2]
    key = (line.split()[0], e["x"], e.get("why"), tuple(sh[int(arg[0])]["m"][:2]) if arg and arg[0].isdigit() and int(arg[0]) in sh else None)
    c[key] += 1
    ex.setdefault(key, (t, k, line, tr[t][k][:1500]))
for k, v in c.most_common():
    print(v, k)
if os.environ.get("SHOW"):
    for k, v in ex.items():
        if os.environ["SHOW"] in str(k):
            print(k, v)
            print("\n".join(P[v[0]][:v[1] + 1]))
            break
