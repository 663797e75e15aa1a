"""Which programs decide which property."""
import collections
import json
import os
import random

from . import comm, gen, mpi, run
from .heap import Heap, PROBES, first_bad

BASE = dict(imp=3)
BIG = [17, 18, 20, 21]     # sizes at which the row capacity of block storage binds


def ops(**kw):
    d = dict(BASE)
    d.update(PROBES)
    d.update(kw)
    return d


def thr_of(line):
    """The drop threshold (in halves) a program line passes."""
    w = line.split()
    k = {"add": 5, "addnorm": 5, "addid": 3, "sai": 4, "mul": 6, "x2": 3, "mulab": 4, "muladj": 4, "emul": 4, "imp": 8, "setrow": 3,
         "setdiag": 2, "thr": 2, "thrnew": 3}.get(w[0])
    return int(w[k]) if k else 0


def own_thr(op, line, ev, past, prog, k):
    return op in ("thr", "thrnew") or thr_of(line) > 0


def own_mem(op, line, ev, past, prog, k):
    """Memory: leaks, damaged guards, crashes, and results read from uninitialised storage."""
    if op == "E" or ev.get("z") or ev.get("op") == "crash":
        return True
    return any(abs(x) >= 2000000000 for x in ev.get("r", [])) or any(abs(x) >= 2000000000 for d in ev.get("d", []) for x in d["v"])


ALLOPS = dict(imp=3, zero=1, ident=1, copynew=2, copy=2, free=2, clear=1, meta=1, add=3, addnorm=1, addid=1, sai=1, scalein=1,
              scalenew=1, scale=1, trnew=1, tr=1, thr=1, thrnew=1, mul=2, x2=1, mulab=1, muladj=1, emul=1, setel=2, setnew=1, setrow=1,
              setdiag=1, views=1, trace=1, tracemult=1, sumsq=1, sumsq2=1, sumab=1, sumsqsub=1, fnorm=1, fnorm2=1, spars=1, bw=1, gersh=1,
              offdiag=1, normalize=1, conv=1)

ALLOPS.update(diag=1, inv=1, extract=1, assign=1, m2s=1, s2m=1, halo=1, adj=1, adjg=1, group=1, reorder=1, breorder=1, adjung=1, trtri=1,
              write=1, read=1, mkfile=1, getel=1, getrow=1, getdiag=1, exp=1, null=1, rand=1, print=1)
CAPOPS = dict(imp=3, copynew=1, copy=2, add=3, addnorm=1, addid=2, sai=1, trnew=2, tr=2, mul=2, x2=2, mulab=2, muladj=2, emul=1, setel=3,
              setnew=1, setrow=2, setdiag=2, conv=2, extract=2, assign=2, s2m=1, adjung=1, read=1, mkfile=1, normalize=1, views=1)


def own_invalid(op, line, ev, past, prog, k):
    """The request that cannot be carried out is the last call of a program of this kind."""
    return k == len(prog) - 2 and ev.get("x") != "exit"


def own_attr(op, line, ev, past, prog, k):
    """Attributes of new matrices: constructors, and the attributes (not the values) of derived ones."""
    if op in ("zero", "ident", "noinit", "rand", "meta", "null"):
        return True
    if op not in ("imp", "conv", "copynew", "scalenew", "trnew", "thrnew") or ev.get("x") != "ok":
        return False
    w = [int(x) for x in line.split()[1:7] if x.lstrip("-").isdigit()]
    d = [x for x in ev.get("d", []) if x["h"] == w[0]]
    if not d:
        return True
    m = d[0]["m"]
    if op == "imp":
        want = w[1:6]
    else:
        src = None
        for e in past:
            for x in e["d"]:
                if x["h"] == w[1]:
                    src = x["m"]
        want = [w[2], src[1], src[2], w[4], w[5]] if op == "conv" else src
    if want[0] == 4:
        m, want = m[:3] + m[4:], want[:3] + want[4:]
    elif want[0] == 1:
        want = want[:3] + [want[2]] + want[4:]
    return m != want


HEAPS = {}


def heap(pid, own, profs, quick, thorough, rule, **kw):
    HEAPS[pid] = Heap(pid, own, profs, quick, thorough, rule, **kw)


heap("C01", {"add", "addnorm", "addid", "sai"},
     [(3, dict(ops=ops(add=6, addnorm=3, addid=3, sai=3, setel=1, conv=1, clear=1))),
      (1, dict(ops=ops(add=6, addnorm=3, addid=3, sai=3, setel=1), thr=1.0)),
      (0.3, dict(ops=ops(imp=5, add=6, addnorm=3, addid=3, sai=3), types=(3,), ns=BIG))],
     3000, 60000, "random programs of linear combinations (aliased operands, exact cancellation, thresholds) on every format and precision")
heap("C02", {"mul", "x2", "mulab", "muladj", "emul"},
     [(3, dict(ops=ops(mul=6, x2=2, mulab=3, muladj=2, emul=2, setel=1, ident=1, zero=1))),
      (1, dict(ops=ops(mul=6, x2=2, mulab=3, muladj=2, emul=2), thr=1.0)),
      (0.3, dict(ops=ops(imp=5, mul=6, x2=2, mulab=3, muladj=2, emul=2), types=(3,), ns=BIG))],
     2500, 50000, "random programs of products (same operands, prior content of C, alpha/beta 0, negative, thresholds)")
heap("C03", {"copynew", "copy", "scalenew", "scale", "scalein", "trnew", "tr", "clear", "free"},
     [(9, dict(big=0.3, vary=0.3, ops=ops(copynew=4, copy=4, scalenew=2, scale=3, scalein=2, trnew=2, tr=3, clear=2, setel=3, free=3, add=1, mulab=1))),
      (1, dict(ops=ops(imp=5, copynew=2, copy=4, scalenew=2, scale=4, trnew=2, tr=2, setel=1), types=(3,), ns=BIG))],
     3000, 60000, "random programs of copies, scalings, transposes and clears interleaved with later writes to source and target")
heap("C04", own_thr,
     [(2, dict(ops=ops(thr=4, thrnew=4, add=1, setel=1, conv=1), thr=1.0)),
      (2, dict(ops=ops(thr=1, thrnew=1, add=3, addnorm=1, addid=1, sai=1, mul=2, x2=1, mulab=1, emul=1, setrow=2, setdiag=2), thr=1.0))],
     3000, 60000, "random programs with thresholds that hit elements exactly, from above and below")
heap("C05", {"imp", "exp", "conv", "views"},
     [(1, dict(big=0.3, ops=ops(imp=4, conv=4, exp=3, views=2, setel=1, add=1), steps=(5, 12)))],
     3000, 60000, "random import/convert/export programs in both element orders")
heap("C06", {"setel", "setnew", "setrow", "setdiag", "views", "getel", "getrow", "getdiag"},
     [(1, dict(big=0.3, ops=ops(setel=6, setnew=3, setrow=4, setdiag=3, views=3, getel=1, getrow=1, getdiag=1, add=1, tr=1, clear=1)))],
     3000, 60000, "random sequences of element, row and diagonal writes, every view read back after each")
heap("C07", {"trace", "tracemult", "sumsq", "sumsq2", "sumab", "sumsqsub", "fnorm", "fnorm2", "spars", "bw"},
     [(0.1, dict(ops=ops(imp=5, trace=2, tracemult=2, sumsq2=4, sumab=4, fnorm=2), types=(3,), ns=BIG)),
      (1, dict(ops=ops(trace=2, tracemult=2, sumsq=2, sumsq2=3, sumab=3, sumsqsub=2, fnorm=2, fnorm2=2, spars=2, bw=2, setel=1, add=1, mulab=1)))],
     3000, 60000, "random programs of reductions on matrices with a history")
heap("C08", {"gersh", "gershp", "offdiag", "normalize"},
     [(1, dict(ops=ops(gersh=5, offdiag=3, normalize=4, add=1, setel=1, addid=1)))],
     3000, 60000, "random matrices of one sign, mixed signs, empty and dominant rows")
heap("C09", {"diag"},
     [(1, dict(ops=ops(diag=8, setel=1, add=1, tr=1, conv=1), steps=(6, 14)))],
     3000, 60000, "random symmetric/Hermitian matrices (degenerate, diagonal, indefinite, low rank, block) with small integer entries")
heap("C10", {"inv"},
     [(1, dict(ops=ops(inv=8, setel=1, add=1, tr=1, conv=1), steps=(6, 14)))],
     3000, 60000, "random non-singular matrices, among them permutations and matrices that need pivoting")
heap("C11", {"extract", "assign", "m2s", "s2m", "halo"},
     [(2, dict(big=0.3, ops=ops(extract=4, assign=4, m2s=3, s2m=4, halo=4, setel=1, add=1), types=(2,))),
      (1, dict(big=0.3, ops=ops(extract=4, assign=4, m2s=3, s2m=4, halo=4, setel=1, add=1, conv=1))),
      (1, dict(big=0.3, ops=ops(extract=4, assign=4, setel=1, add=1), types=(1, 3, 4)))],
     4000, 60000, "random blocks, offsets, unsorted index lists, second graphs and jump flags")
heap("C12", {"adj", "adjg", "group"},
     [(1, dict(ops=ops(adj=4, adjg=4, group=4, setel=1, add=1, tr=1, clear=1), types=(2,)))],
     4000, 60000, "random sparsity patterns (empty rows, missing diagonals, after updates), node lists, partitions, both bases, thresholds")
heap("C13", {"reorder", "breorder", "adjung", "trtri"},
     [(2, dict(big=0.3, ops=ops(reorder=4, adjung=4, trtri=3, setel=1, add=1), types=(1, 2))),
      (1, dict(big=0.3, ops=ops(breorder=5, setel=1, add=1), types=(3,), ns=[4, 8, 8, 12, 16])),
      (1, dict(big=0.3, ops=ops(reorder=4, breorder=4, adjung=4, trtri=3, setel=1, add=1, conv=2)))],
     4000, 60000, "random permutations and triangles on unsymmetric patterns with a history")
heap("C14", {"write", "read", "print", "printd", "printv"},
     [(1, dict(big=0.3, ops=ops(write=4, read=4, mkfile=3, print=2, setel=1, add=1, conv=1, clear=1)))],
     3000, 60000, "random matrices written and read across formats and precisions; files made independently, entries in any order")
heap("C17", lambda *a: False,
     [(4, dict(ops=CAPOPS, types=(2,), capm=1.0, over=0.7)),
      (1, dict(ops=CAPOPS, types=(2, 4), capm=1.0, over=0.7)),
      (1, dict(ops=CAPOPS, types=(3,), ns=[17, 18, 19, 20, 21, 22, 23, 24], capm=1.0, over=0.7))],
     4800, 60000, "random programs on matrices whose rows are filled up to their capacity, ending with a call that does not fit",
     capacity=True)
heap("C18", own_invalid,
     [(1, dict(ops=ALLOPS, steps=(2, 8), bad=1.0))],
     4000, 60000, "random valid histories followed by one request that cannot be carried out", fresh=False)
heap("C19", own_attr,
     [(1, dict(ops=ops(zero=3, ident=3, rand=3, null=1, meta=5, conv=2, trnew=2, thrnew=2, scalenew=2, add=1, setel=1)))],
     3000, 60000, "all constructors with all sizes, capacities, formats, precisions and modes; attributes of derived matrices", fresh=False)
def gemm_grid(rng, tier, first):
    """Every flag pair, precision and small shape for the built-in kernel; scalars and paddings vary."""
    g = gen.Gen(rng, ops={})
    calls = []
    sizes = (0, 1, 2, 3) if tier == "thorough" else (1, 2, 3)
    al = [(2, 0), (0, 0), (-2, 0), (2, 2)]
    be = [(0, 0), (2, 0), (-4, 2)]
    for pr in (1, 2, 3, 4):
        for ta in range(3):
            for tb in range(3):
                for m in sizes:
                    for n in sizes:
                        for k in sizes:
                            for a in (al if tier == "thorough" else [rng.choice(al)]):
                                for b in (be if tier == "thorough" else [rng.choice(be)]):
                                    pad = [rng.choice([0, 1, 3]) for _ in range(3)]
                                    calls.append(g.gemm(0, pr, ta, tb, m, n, k, pad, a, b, int(b == (0, 0) and rng.random() < 0.5)))
    return [["P %d" % (first + q)] + calls[x:x + 20] + ["E"] for q, x in enumerate(range(0, len(calls), 20))]


heap("C26", {"gemm"},
     [(1, dict(ops=dict(gemm=1), steps=(15, 25)))],
     800, 20000, "random and enumerated calls of the multiply kernels (all flags, precisions, shapes, leading dimensions), guards around "
     "every array; then dense products with the built-in kernel compiled in", extra=gemm_grid, fresh=False)
heap("C26b", {"mul", "x2", "mulab", "muladj"},
     [(1, dict(ops=ops(mul=6, x2=2, mulab=3, muladj=2, setel=1, ident=1, zero=1), types=(1,)))],
     500, 8000, "", fresh=False)
heap("C16", own_mem,
     [(3, dict(ops=ALLOPS, steps=(8, 20))), (1, dict(ops=ALLOPS, steps=(8, 20), capm=1.0))],
     2500, 50000, "random programs over all operations with guarded, poisoned allocations; everything is released at the end")
heap("C25", set(ALLOPS) | {"gershp", "exp", "getel", "getrow", "getdiag"},
     [(3, dict(ops=ALLOPS, steps=(10, 25))), (1, dict(ops=ALLOPS, steps=(10, 25), thr=0.0))],
     2500, 50000, "random programs over all operations, up to 16 live matrices, every live matrix observed after every call")


DIST = dict(imp=3, zero=1, ident=1, conv=1, copynew=2, copy=2, free=1, clear=1, meta=1, add=3, addnorm=1, addid=2, sai=2, scalein=1, scalenew=1,
            scale=1, trnew=2, tr=2, thr=1, thrnew=1, mul=3, x2=1, mulab=1, setrow=2, setdiag=2, getrow=2, trace=1, tracemult=2, sumsq=1, sumsq2=1,
            sumab=1, fnorm=1, spars=1, gersh=2, normalize=1, exp=2, write=1, read=2, mkfile=1, drand=1, red=1, who=1, barrier=1, diag=1)


def own_dist(op, line, ev, past, prog, k):
    """Anything but memory: values, returned scalars, attributes, agreement of the ranks, runs that do not end."""
    return op != "E" and not ev.get("z")


heap("C22", own_dist,
     [(3, dict(ops=DIST, steps=(8, 22))), (1, dict(ops=DIST, steps=(8, 22), thr=0.0)),
      (1, dict(ops=dict(imp=3, mul=5, x2=2, mulab=3, diag=2, trnew=1, setrow=1, addid=1), steps=(6, 12)))],
     4000, 60000, "random programs on matrices distributed over 1, 4 and 9 ranks, the ranks scheduled at random, with and without buffering",
     fresh=False, drive=mpi.drive, cls=mpi.DistGen)
heap("C21", {"send", "swap", "bcast"},
     [(3, dict(capm=0.3, steps=(8, 22))), (1, dict(types=(2, 3), capm=0.8, steps=(8, 22))),
      (1, dict(types=(3,), ns=[5, 9, 13, 17, 21, 25], capm=0.6, steps=(5, 12), xfer=0.8))],
     4000, 60000, "random programs of matrices owned by single ranks, changed there and sent (blocking, non-blocking, into a new matrix), swapped "
     "and broadcast from any root in communicators of some or all ranks, in order and reversed", drive=mpi.drive, cls=mpi.XferGen)
heap("C27", lambda *a: True,
     [(3, dict(ops=dict(ALLOPS, setdom=1, domop=1, exp=2, print=3, rand=2), steps=(8, 22))),
      (1, dict(ops=ops(print=2, exp=2, views=3, setel=3, setrow=2, setdiag=2, getel=1, getrow=1, getdiag=1, meta=1, diag=2, bw=1, gersh=1))),
      (1, dict(ops=ops(extract=0, m2s=3, s2m=3, halo=3, adj=2, adjg=2, group=2, reorder=2, setel=1, add=1, setdom=1, domop=2), types=(2,)))],
     3000, 60000, "random programs over all operations called through the Fortran interface: array sections, other lower bounds, absent optional "
     "arguments, handles that already hold a matrix", fresh=False, twin=run.build_omp)


def domains(rng, tier, first):
    return mpi.DomGen.defaults(rng, tier, first)


heap("C20", {"ddom", "dom", "setdom", "savedom", "restdom"},
     [(1, dict(steps=(6, 20), ns=[1, 2, 3, 5, 8, 10, 13, 30]))], 1500, 20000,
     "the default decomposition of every size up to a bound and of large sizes for 1 to 36 ranks; random histories of updates, copies, saves and "
     "restores of decompositions of dense, ellpack and csr matrices", fresh=False, drive=mpi.drive, cls=mpi.DomGen, extra=domains)
heap("C24", lambda op, *_: True,
     [(2, dict(ns=[1, 2, 3, 5, 6, 9, 10, 13], thr=0.3, steps=(6, 16))),
      (1, dict(ns=[2, 4, 5, 8, 10, 16], thr=0.6, capm=0.6, types=(2,), steps=(6, 16)))],
     3000, 40000, "random programs on dense and ellpack matrices of which every rank computes the rows of its part of an even or random "
     "decomposition (also empty parts), with gathers where a call needs all rows; scalars through the library's reductions",
     fresh=False, drive=mpi.drive, cls=mpi.RowGen)
MPIH = {"C20", "C21", "C22", "C24"}
KIND = {"C27": "fort"}


def driver(kind):
    return dict(mpi=run.build_mpi, fort=run.build_fortran, heap=run.build_omp)[kind]()


LAWS = {"C20": "MCDecomp", "C25": "MCBML"}      # models whose invariants are checked before the traces


def run_heap(pid, seed, tier, work, known):
    h = HEAPS[pid]
    kind = "mpi" if pid in MPIH else KIND.get(pid, "heap")
    drv = driver(kind)
    r = h.run(seed, tier, work, drv)
    if pid == "C26" and not r["violations"]:
        HEAPS["C26b"].run(seed, tier, work, run.build_omp("igemm", ["-DBML_INTERNAL_GEMM=yes"]), r)
    if pid in LAWS:
        rc, o = run.tlc(LAWS[pid] + ".tla", LAWS[pid] + ".cfg", {}, work)
        if rc:
            raise run.CheckError("%s failed (rc %d)\n%s" % (LAWS[pid], rc, o[-3000:]))
        gm, dm = run.stats(o)
        r["states"] += dm
        r["transitions"] += gm
    notes = []
    v = []
    for prog, evs, k, line in r["violations"][:3]:
        v.append(dict(what="%s: the specification does not explain call %d (%s)" % (pid, k, line[:120]), program=prog, event=k, line=line,
                      trace=evs[:k + 1], kind=kind))
    if r["foreign"]:
        notes.append("note: %d run(s) stopped at calls that are wrong for reasons outside this property: %s"
                     % (sum(r["foreign"].values()), dict(r["foreign"])))
    notes += run_known(pid, work, drv, known)
    cov = dict(states=r["states"], transitions=r["transitions"], traces_validated_against_impl=r["traces"], samples=r["samples"],
               events=r["events"], distinct_programs=r["distinct"], calls=dict(r["ops"]), configurations=dict(r["cfg"]), rule=h.rule)
    return dict(level="model_checking", coverage=cov, violations=v, notes=notes)


def omp_regions(lines, work, tag="omp"):
    """Validate recorded regions against spec/OmpTrace.tla; returns (number judged, distinct kinds, bad lines)."""
    kinds = {}
    for x in lines:
        e = json.loads(x)
        kinds.setdefault(json.dumps([e["nt"], e["loc"]]), x)
    reps = list(kinds.values())
    if not reps:
        return 0, 0, []
    p = os.path.join(work, tag + ".ndjson")
    with open(p, "w") as f:
        f.write("\n".join(reps) + "\n")
    rc, o = run.tlc("OmpTrace.tla", "OmpTrace.cfg", dict(TRACE=p), work)
    if rc:
        raise run.CheckError("TLC failed (rc %d) on OmpTrace\n%s" % (rc, o[-3000:]))
    acc = {int(x[9:].rstrip(">").strip()) for x in o.splitlines() if x.startswith('<<"ACC", ')}
    return len(lines), len(reps), [reps[k] for k in range(len(reps)) if k + 1 not in acc]


def run_sched(pid, seed, tier, work, known):
    """C15: controlled schedules of every parallel region."""
    drv = run.build_sched()
    rc, o = run.tlc("MCOmp.tla", "MCOmp.cfg", {}, work)
    if rc:
        raise run.CheckError("MCOmp failed (rc %d)\n%s" % (rc, o[-3000:]))
    gm, dm = run.stats(o)
    n, rounds = (2000, 3) if tier == "quick" else (12000, 12)
    rng = random.Random("C15/%s/%d" % (tier, seed))
    v, notes = [], []
    tot = dict(states=dm, transitions=gm, traces=0, events=0, regions=0, kinds=0, shared=0)
    ops_ = collections.Counter()
    samples = []
    foreign = collections.Counter()
    for rd in range(rounds):
        w = dict(ALLOPS)
        for k in ("tr", "trnew", "mul", "mulab", "x2", "add", "emul", "adjung"):
            w[k] = 3
        g = gen.Gen(random.Random(rng.random()), ops=w, threads=(2, 3, 4, 8), ns=[2, 3, 4, 5, 6, 7, 8, 9, 12, 16] if rd % 2 else [3, 4, 5, 8, 9])
        progs = [g.program(k) for k in range(1, n + 1)]
        P = {k + 1: p for k, p in enumerate(progs)}
        tr = run.drive(drv, progs, work, env=dict(DRV_SCHED=str(seed * 1000 + rd)))
        acc, rej, d, gn = run.validate(tr, work)
        log = run.omplogs(work)
        nr, nk, bad = omp_regions(log, work)
        tot["states"] += d + nk
        tot["transitions"] += gn + nk
        tot["traces"] += len(acc)
        tot["events"] += sum(len(tr[t]) for t in acc)
        tot["regions"] += nr
        tot["kinds"] += nk
        for x in log:
            ops_[json.loads(x)["op"]] += 1
        if not samples and log:
            samples = [progs[0][:6], [x[:400] for x in log if '"loc":[]' not in x][:2]]
        for x in bad[:3]:
            e = json.loads(x)
            v.append(dict(what="C15: two threads access the same bytes without order during %s" % e["op"], kind="omp", region=e,
                          program=P[e["t"]], sched=seed * 1000 + rd))
        if rej:
            # wrong under this schedule: is it right with one thread?
            first = first_bad(tr, rej, work)
            one = [["P %d" % j] + ["omp 1" if x.startswith("omp") else x for x in P[t][1:first[t] + 1]] +
                   ([] if first[t] + 1 >= len(P[t]) else ["E"]) for j, t in enumerate(first, 1)]
            t1 = run.drive(drv, one, os.path.join(work, "one"), env=dict(DRV_SCHED="1"))
            ok = run.validate(t1, work, tag="q")[0]
            for j, t in enumerate(first, 1):
                line = P[t][first[t]] if first[t] < len(P[t]) else "?"
                if j in ok:
                    v.append(dict(what="C15: call %d (%s) gives another result with several threads" % (first[t], line[:100]), kind="omp",
                                  program=P[t], sched=seed * 1000 + rd, event=first[t], trace=tr[t][:first[t] + 1]))
                else:
                    foreign[line.split(" ")[0]] += 1
        if v:
            break
    if foreign:
        notes.append("note: runs stopped at calls that are wrong with one thread as well: %s" % dict(foreign))
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"], samples=samples,
               events=tot["events"], parallel_regions=tot["regions"], distinct_region_footprints=tot["kinds"], regions_by_call=dict(ops_),
               model="MCOmp: all teams of two threads with two operations each, every interleaving: %d states" % dm,
               rule="random programs run by a controlled OpenMP runtime (2 to 8 threads, five scheduling modes, switches between any two "
                    "memory accesses); every region's shared accesses judged by the specification")
    return dict(level="model_checking", coverage=cov, violations=v, notes=notes)


def run_known(pid, work, drv, known):
    """Known findings: the exact program still fails at the listed call."""
    out = []
    for f in known["findings"]:
        if f["property"] != pid or "program" not in f:
            continue
        p = ["P 1 %d 7" % f["ranks"] if "ranks" in f else "P 1"] + f["program"] + ["E"]
        tr = (mpi.drive if "ranks" in f else run.drive)(drv, [p], os.path.join(work, "known"))
        acc, rej, _, _ = run.validate(tr, work, tag="k")
        if rej:
            out.append("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    return out


def replay(path):
    with open(path) as f:
        r = json.load(f)
    if r["kind"] == "omp":
        drv, work = run.build_sched(), os.path.join(run.scratch(), "replay")
        tr = run.drive(drv, [r["program"]], work, env=dict(DRV_SCHED=str(r["sched"])))
        rej = run.validate(tr, work)[1]
        bad = omp_regions(run.omplogs(work), work)[2]
        print("rejected" if rej else "values accepted", "; unordered accesses in: %s" % [json.loads(x)["op"] for x in bad])
        return 1 if rej or bad else 0
    if r["kind"] == "comm":
        x = comm.run_comm([r["program"]], os.path.join(run.scratch(), "replay"), "quick")
        for p in x["violations"]:
            print("rejected: communication of call %d: %s\n%s" % (p[1] - 1, p[2], json.dumps(p[3])))
        print("rejected" if x["violations"] or x["lost"] else "accepted")
        return 1 if x["violations"] or x["lost"] else 0
    if r["kind"] not in ("heap", "mpi", "fort"):
        print(json.dumps(r, indent=1))
        return 1
    par = r["kind"] == "mpi"
    drv = driver(r["kind"])
    work = os.path.join(run.scratch(), "replay")
    tr = (mpi.drive if par else run.drive)(drv, [r["program"]], work)
    acc, rej, _, _ = run.validate(tr, work)
    from .heap import first_bad
    for t in rej:
        k = first_bad(tr, [t], work)[t]
        print("not explained: call %d: %s\nobserved: %s" % (k, r["program"][k], tr[t][k]))
    print("rejected" if rej else "accepted")
    return 1 if rej else 0


CHECKS = {pid: run_heap for pid in HEAPS if len(pid) == 3}
CHECKS["C15"] = run_sched


def run_mpi(pid, seed, tier, work, known):
    """C23: the communication of distributed operations, every interleaving."""
    d, g = comm.model(work, tier)
    rng = random.Random("C23/%s/%d" % (tier, seed))
    tot = dict(total=0, kinds=0, messages=0, states=d, transitions=g, short=0)
    calls, v, samples = collections.Counter(), [], []
    n, rounds = (2100, 1) if tier == "quick" else (6000, 8)
    runs = 0
    for _ in range(rounds):
        g = [mpi.DistGen(random.Random(rng.random()), ops=DIST, steps=(8, 22)), mpi.XferGen(random.Random(rng.random())),
             mpi.RowGen(random.Random(rng.random()), ns=[1, 2, 3, 5, 6, 9, 10])]
        progs = [g[k % 3].program(k) for k in range(1, n + 1)]
        r = comm.run_comm(progs, work, tier, 3000 if tier == "quick" else 30000)
        runs += len(progs)
        for k in tot:
            tot[k] += r[k]
        calls += r["calls"]
        samples = samples or [dict(program=progs[0][:5], communication=r["sample"])]
        seen = set()
        for prog, c, line, p in r["violations"]:
            seen.add(prog[0])
            v.append(dict(what="C23: communication of call %d (%s) is not complete and uniquely matched in every interleaving" % (c - 1, line[:80]),
                          kind="comm", program=prog, call=c, communication=p))
        for t in r["lost"]:
            if progs[t - 1][0] not in seen:
                v.append(dict(what="C23: run %d ended in a deadlock or with erroneous use of the message layer" % t, kind="comm", program=progs[t - 1]))
        if r["dynamic"]:
            v.append(dict(what="C23: an interleaving of recorded communication does not end or matches differently", kind="other", trace=r["dynamic"]))
        if v:
            break
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["total"], samples=samples, runs=runs,
               distinct_communications=tot["kinds"], explored_in_every_interleaving=tot["short"], messages=tot["messages"], calls=dict(calls),
               model="MCMpi: every program of two ranks with two operations (thorough: three) and of three ranks with two blocking operations, "
                     "every interleaving, with and without buffering: %d states" % d,
               rule="random programs on distributed, transferred and row-distributed matrices; the communication of each call is one record")
    return dict(level="model_checking", coverage=cov, violations=v, notes=[])


CHECKS["C23"] = run_mpi


def setup():
    run.build_omp()
    run.build_sched()
    run.build_mpi()
    run.build_fortran()
    run.build_omp("igemm", ["-DBML_INTERNAL_GEMM=yes"])
    return 0
