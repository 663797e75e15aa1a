"""C23: the communication of every call, judged in all interleavings (spec/Mpi.tla, MpiTrace.tla, MpiAll.tla)."""
import collections
import json
import math
import os
import random

from . import gen, mpi, run


def signature(s):
    """Type signature "d8i2..." as runs of <<type, count>>."""
    out, k = [], 0
    while k < len(s):
        c = s[k]
        k += 1
        j = k
        while j < len(s) and s[j].isdigit():
            j += 1
        n = int(s[k:j] or 1)
        k = j
        if n:
            if out and out[-1][0] == c:
                out[-1][1] += n
            else:
                out.append([c, n])
    return out


def windows(rec):
    """One record per call: what every rank does in it, communicators and requests renumbered."""
    by = collections.defaultdict(list)
    for e in rec["ev"]:
        by[e["c"]].append(e)
    for c in sorted(by):
        cms = {}
        p = [[] for _ in range(rec["n"])]
        rid = [dict() for _ in range(rec["n"])]
        for e in by[c]:
            r = e["r"]
            q = rid[r]
            k = e["k"]
            cm = cms.setdefault(e["cm"], len(cms) + 1) if k != "wait" else 0
            p2p = k in ("send", "recv", "isend", "irecv")
            p[r].append(dict(k=k, cm=cm, p=e["p"] + 1 if p2p else 0, g=e["g"] if p2p else 0,
                             q=q.setdefault(e["q"], len(q) + 1) if k in ("isend", "irecv") else 0,
                             s=signature(e["s"]) if p2p else [[e["s"], 1]],
                             m=[q.get(x, 0) for x in e["m"]] if k == "wait" else [x + 1 for x in e["m"]] if k == "coll" else []))
        yield c, p


def judge(recs, work, tag):
    """Validates communication records; returns (rejected indices, states, transitions)."""
    p = os.path.join(work, tag + ".ndjson")
    with open(p, "w") as f:
        for x in recs:
            f.write(json.dumps(dict(p=x)) + "\n")
    rc, o = run.tlc("MpiTrace.tla", "MpiTrace.cfg", dict(TRACE=p), work)
    if rc:
        raise run.CheckError("TLC failed (rc %d) on MpiTrace\n%s" % (rc, o[-3000:]))
    acc = {int(x[9:].rstrip(">").strip()) for x in o.splitlines() if x.startswith('<<"ACC", ')}
    g, d = run.stats(o)
    return [k for k in range(len(recs)) if not {2 * k + 1, 2 * k + 2} <= acc], d, g


def explore(recs, work, tag):
    """All interleavings of short records; returns None or what went wrong."""
    p = os.path.join(work, tag + ".ndjson")
    with open(p, "w") as f:
        for x in recs:
            f.write(json.dumps(dict(p=x)) + "\n")
    rc, o = run.tlc("MpiAll.tla", "MpiAll.cfg", dict(TRACE=p), work)
    g, d = run.stats(o)
    if rc and not any(x in o for x in ("Deadlock reached", "is violated")):
        raise run.CheckError("TLC failed (rc %d) on MpiAll\n%s" % (rc, o[-3000:]))
    return (o[-6000:] if rc else None), d, g


def model(work, tier):
    d = g = 0
    for cfg in ["MCMpi2.cfg", "MCMpi3.cfg"] + (["MCMpi.cfg"] if tier == "thorough" else []):
        rc, o = run.tlc("MCMpi.tla", cfg, {}, work, timeout=2000)
        if rc:
            raise run.CheckError("MCMpi (%s) failed (rc %d)\n%s" % (cfg, rc, o[-3000:]))
        a, b = run.stats(o)
        g, d = g + a, d + b
    return d, g


def run_comm(programs, work, tier, limit=3000):
    """programs: lists of lines. Returns coverage and violations."""
    drv = run.build_mpi()
    P = {int(p[0].split()[1]): p for p in programs}
    tr = mpi.drive(drv, programs, work)
    kinds, where = {}, {}
    calls = collections.Counter()
    total = messages = 0
    for x in mpi.commlogs(work):
        rec = json.loads(x)
        t = rec["t"]
        w = list(windows(rec))
        if rec["x"] == 1:
            w = w[:-1]              # a refused call
        for c, p in w:
            total += 1
            messages += sum(o["k"] in ("send", "isend") for q in p for o in q)
            line = P[t][c - 1] if c <= len(P[t]) else "?"
            key = json.dumps(p)
            calls[line.lstrip("+*").split()[0]] += 1
            if key not in kinds:
                kinds[key] = p
                where[key] = (t, c, line)
    keys = list(kinds)
    bad, d, g = judge([kinds[k] for k in keys], work, "comm") if keys else ([], 0, 0)
    v = [(P[where[keys[k]][0]], where[keys[k]][1], where[keys[k]][2], kinds[keys[k]]) for k in bad]
    short = {}                      # the signatures of messages do not matter for the interleavings
    for i, k in enumerate(keys):
        p = [[dict(o, s=[]) for o in q] for q in kinds[k]]
        if i not in set(bad) and math.prod(len(q) + 1 for q in p) <= limit:
            short.setdefault(json.dumps(p), p)
    short = list(short.values())
    dyn = None
    if short and not v:
        dyn, d2, g2 = explore(short, work, "all")
        d, g = d + d2, g + g2
    lost = [t for t in P if any('"x":"deadlock"' in e or '"x":"mpi"' in e for e in tr.get(t, ()))]
    return dict(total=total, kinds=len(keys), messages=messages, calls=calls, states=d, transitions=g, violations=v, dynamic=dyn,
                short=len(short), lost=lost, sample=kinds[keys[len(keys) // 2]] if keys else None)
