"""Checks decided by validating recorded runs of the real library against spec/BML.tla (through spec/Trace.tla)."""
import collections
import json
import os
import random
import shutil

from . import gen, run

PROBES = dict(views=2, copynew=1, trace=1, sumsq=1, free=1, meta=1)


def first_bad(traces, rej, work, limit=60, env=None):
    """Index of the first event the specification cannot explain, per rejected trace (all prefixes in one TLC run)."""
    pre, tt = {}, {}
    for t in rej[:limit]:
        for k in range(1, len(traces[t])):
            i = len(pre) + 1
            pre[i] = (t, k)
            tt[i] = [x.replace('"t":%d,' % t, '"t":%d,' % i, 1) for x in traces[t][:k]]
    best = {t: 0 for t in rej[:limit]}
    if tt:
        acc, _, _, _ = run.validate(tt, work, tag="p", env=env)
        for i in acc:
            t, k = pre[i]
            best[t] = max(best[t], k)
    return best


def heap_before(evs, k):
    """Observed state of every live matrix before event k."""
    h = {}
    for line in evs[:k]:
        e = json.loads(line)
        for d in e["d"]:
            h[d["h"]] = d
        live = set(e["live"])
        for x in list(h):
            if x not in live:
                del h[x]
    return h


def fresh_program(tid, evs, k, line, omp):
    """The call `line` on freshly imported copies of the matrices observed before it."""
    L = ["P %d 1 0" % tid if line[0] == "@" else "P %d" % tid]
    if omp:
        L.append(omp)
    for h, d in sorted(heap_before(evs, k).items()):
        ty, pr, n, m, md = d["m"]
        v = d["v"]
        if any(abs(x) >= 2000000000 for x in v):
            return None
        if pr >= 3:
            v = [y for p in range(n * n) for y in (v[p], v[n * n + p])]
        L.append("imp %d %d %d %d %d %d 0 0 %s" % (h, ty, pr, n, m, md, " ".join(map(str, v))))
    L.append(line.split(" ", 1)[1] if line[0] == "@" else line)
    L.append("E")
    return L


def opname(line):
    """The call of a program line, which may name one rank."""
    w = line.lstrip("+*").split(" ")
    return w[1] if w[0][0] == "@" else w[0]


def ample(line):
    """The same call with room for full rows."""
    w = line.split(" ")
    if w[0] in ("imp", "zero", "ident", "noinit"):
        w[5] = w[4]
    elif w[0] == "extract":
        w[6] = w[5]
    elif w[0] == "conv":
        w[5] = "64"
    return " ".join(w)


class Heap:
    def __init__(self, pid, own, profiles, quick, thorough, rule, capacity=False, fresh=True, extra=None, drive=None, cls=gen.Gen, twin=None):
        self.pid, self.own, self.profiles = pid, own, profiles
        self.count = dict(quick=quick, thorough=thorough)
        self.rule = rule
        self.capacity = capacity      # a run is a violation when the same calls are explained with ample capacity
        self.extra = extra            # further programs: extra(rng, tier, first id)
        self.drive = drive or run.drive
        self.cls = cls
        self.twin = twin              # builds the driver whose equal behaviour makes a rejected run foreign
        self.fresh = fresh            # a call that is right on fresh matrices but wrong here is a violation

    def owns(self, op, line, evs, k, prog):
        if not callable(self.own):
            return op in self.own
        return self.own(op, line, json.loads(evs[k]) if k < len(evs) else {}, [json.loads(x) for x in evs[:k]], prog, k)

    def programs(self, rng, tier):
        n = self.count[tier]
        tot = sum(p[0] for p in self.profiles)
        out = []
        for w, kw in self.profiles:
            g = self.cls(random.Random(rng.random()), **kw)
            for _ in range(max(1, int(n * w / tot))):
                out.append(g.program(len(out) + 1))
        if self.extra:
            out += self.extra(rng, tier, len(out) + 1)
        return out

    def run(self, seed, tier, work, drv, res=None, progs=None):
        rng = random.Random("%s/%s/%d" % (self.pid, tier, seed))
        if progs is None:
            progs = self.programs(rng, tier)
        res = res or dict(states=0, transitions=0, traces=0, events=0, samples=[], ops=collections.Counter(), cfg=collections.Counter(),
                   foreign=collections.Counter(), violations=[], distinct=0)
        seen = set()
        for a in range(0, len(progs), 6000):
            self.batch(drv, progs[a:a + 6000], work, res, seen)
            if len(res["violations"]) >= 3 or res.get("skipped"):
                break
        return res

    def batch(self, drv, progs, work, res, seen):
        P = {int(p[0].split()[1]): p for p in progs}
        tr = self.drive(drv, progs, work)
        missing = [t for t in P if t not in tr and t not in tr.skipped]
        if missing:
            raise run.CheckError("no trace for programs %s" % missing[:5])
        res["skipped"] = len(tr.skipped)
        acc, rej, d, g = run.validate(tr, work)
        res["states"] += d
        res["transitions"] += g
        res["traces"] += len(acc)
        for t in acc:
            res["events"] += len(tr[t])
            seen.add("\n".join(P[t][1:]))
            for line in P[t]:
                res["ops"][opname(line)] += 1
            for x in P[t]:
                w = x.split(" ", 8)[x[0] == "@":]
                if w[0] == "imp":
                    res["cfg"]["type%s/prec%s" % (w[2], w[3])] += 1
                    res["cfg"]["n=%s" % w[4]] += 1
        res["distinct"] = len(seen)
        if len(res["samples"]) < 2 and acc:
            t = sorted(acc)[len(acc) // 2]
            res["samples"].append([x[:200] for x in P[t]])
        if rej:
            self.judge(drv, P, tr, rej, work, res)

    def judge(self, drv, P, tr, rej, work, res):
        # a run that ended in a timeout is repeated once, alone
        if self.drive is not run.drive:
            slow = rej[:200]
        else:
            slow = [t for t in rej if '"op":"crash","x":"crash","a":[14]' in tr[t][-1] or '"op":"crash","x":"crash","a":[9]' in tr[t][-1]]
        late = [t for t in slow if any('"op":"crash"' in x and '"a":[14]' in x for x in tr[t])]
        slow = [t for t in slow if t not in set(late)] + late[:8]
        if slow:
            tr2 = self.drive(drv, [P[t] for t in slow], os.path.join(work, "again"), timeout=90)
            acc, _, _, _ = run.validate(tr2, work, tag="s")
            for t in slow:
                if t in tr2:
                    tr[t] = tr2[t]
            drop = set(acc)
            if set(late[:8]) <= acc:
                drop |= set(late)       # a machine under load
            rej = [t for t in rej if t not in drop]
        best = first_bad(tr, rej, work)
        suspects = []
        same = {}
        if self.twin:
            same = self.drive(self.twin(), [P[t] for t in rej[:60]], os.path.join(work, "twin"))
        for t in rej[:60]:
            k = best[t]
            if t in same and same[t][k:k + 1] == tr[t][k:k + 1]:
                res["foreign"][opname(P[t][k]) if k < len(P[t]) else "?"] += 1
                continue
            line = P[t][k] if k < len(P[t]) else "?"
            op = opname(line)
            if self.owns(op, line, tr[t], k, P[t]):
                res["violations"].append((P[t], tr[t], k, line))
            else:
                suspects.append((t, k, line, op))
        if self.capacity:
            pa = []
            for j, (t, k, line, op) in enumerate(suspects, 1):
                pa.append(["P %d" % j] + [ample(x) for x in P[t][1:k + 1]] + (["E"] if op != "E" else []))
            ta = run.drive(drv, pa, os.path.join(work, "ample")) if pa else {}
            acc = run.validate(ta, work, tag="a")[0] if pa else ()
            for j, (t, k, line, op) in enumerate(suspects, 1):
                if j in acc:
                    res["violations"].append((P[t], tr[t], k, line))
                else:
                    res["foreign"][op] += 1
            return
        if not self.fresh:
            for t, k, line, op in suspects:
                res["foreign"][op] += 1
            return
        # a call that is not this property's own subject: is it wrong on fresh matrices with the same contents as well?
        fp, back = [], {}
        for t, k, line, op in suspects:
            if op in ("P", "imp", "zero", "ident", "noinit", "omp", "?"):
                res["foreign"][op] += 1
                continue
            if op == "E":
                res["foreign"]["E"] += 1
                continue
            if line[0] == "@" and heap_before(tr[t], k) == {}:
                res["foreign"][op] += 1
                continue
            omp = next((x for x in P[t] if x.startswith("omp")), None)
            p = fresh_program(len(fp) + 1, tr[t], k, line, omp)
            if p is None:
                res["foreign"][op] += 1
                continue
            fp.append(p)
            back[len(fp)] = (t, k, line, op)
        if fp:
            tf = self.drive(drv, fp, os.path.join(work, "fresh"))
            acc, _, _, _ = run.validate(tf, work, tag="f")
            for i, (t, k, line, op) in back.items():
                if i in acc:
                    res["violations"].append((P[t], tr[t], k, line))
                else:
                    res["foreign"][op] += 1
