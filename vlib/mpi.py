"""Runs of several ranks: the records of the ranks of one run become one record of the whole system.

A distributed matrix is the matrix assembled from its blocks; a replicated matrix must be the same on every rank that has
it; returned scalars must be the same on every rank (data that only rank 0 gets excepted)."""
import json
import math
import os

from . import gen, run

ROOT_ONLY = {"exp", "write"}


def world(prog):
    w = [int(x) for x in prog[0].split()[1:]]
    return (w + [1, 1, 0][len(w) - 1:])[:4]          # id, ranks, seed, solo


def drive(drv, programs, work, env=None, timeout=60):
    for f in os.listdir(work) if os.path.isdir(work) else ():
        if f.endswith(".ndjson.mpi"):
            os.remove(os.path.join(work, f))
    raw = run.drive(drv, programs, work, env, timeout)
    out = run.Traces()
    out.skipped = raw.skipped
    for p in programs:
        t = int(p[0].split()[1])
        if t not in raw.skipped:
            out[t] = merge(p, [json.loads(x) for x in raw.get(t, ())])
    return out


def commlogs(work):
    out = []
    for k in range(run.NPROC):
        p = os.path.join(work, "o%d.ndjson.mpi" % k)
        if os.path.exists(p):
            with open(p) as f:
                out += [x for x in f.read().split("\n") if x.startswith('{"t"') and x.endswith("}")]
    return out


def assemble(bl, p, cx):
    b = bl[0]["b"]
    out = []
    for part in range(2 if cx else 1):
        for i in range(b * p):
            for j in range(b * p):
                out.append(bl[(i // b) * p + j // b]["v"][part * b * b + (i % b) * b + j % b])
    return out


def rows(own, n, cx):
    """A matrix of which every rank has some rows."""
    at = 0
    re, im = [], []
    for d in own:
        lo, hi = d["w"]
        if lo != at or hi < lo:
            return None
        re += d["v"][lo * n:hi * n]
        if cx:
            im += d["v"][n * n + lo * n:n * n + hi * n]
        at = hi
    return re + im if at == n else None


def combine(op, evs, n):
    """Return values of one call."""
    rs = [e["r"] for e in evs]
    if op == "E":
        return [sum(abs(x) for x in r) for r in rs]
    if op in ROOT_ONLY and len(rs) > 1:
        return rs[0] if all(not r for r in rs[1:]) or all(r == rs[0] for r in rs) else None
    if op == "diag":
        return rs[0] if all(r == rs[0][:len(r)] and len(r) >= n for r in rs) else None
    return rs[0] if all(r == rs[0] for r in rs) else None


def merge(prog, raw):
    tid, R, seed, solo = world(prog)
    if solo:
        R = 1
    p = math.isqrt(R)
    by = [dict() for _ in range(R)]
    end = None
    for e in raw:
        if "rk" in e and "k" in e:
            by[e["rk"]][e["k"]] = e
        elif end is None or e["x"] != "early":
            end = e
    cur = [dict() for _ in range(R)]         # what each rank holds
    whole = {}                               # what the system holds
    out = []
    held = []

    def add(op, x, a, r=(), z=0, live=(), d=(), why=None):
        ev = dict(t=tid, op=op, x=x, a=list(a), r=list(r), z=z, live=list(live), d=list(d))
        if why:
            ev["why"] = why
        out.append(json.dumps(ev, separators=(",", ":")))

    def stop(x, why):
        add("crash", x, [0], why=why)
        return out

    for k, line in enumerate(prog, 1):
        who = [int(line[1:].split()[0])] if line[0] == "@" else range(R)
        evs = [by[r].get(k) for r in who]
        got = [e for e in evs if e]
        bad = [e for e in got if e["x"] != "ok"]
        if bad and all(e["x"] == "exit" for e in bad):
            first = held[0][0] if held else bad[0]
            add(first["op"], "exit", first["a"], live=sorted({h for e in got for h in e["live"]}))
            return out
        if bad:
            return stop(bad[0]["x"], "rank %d: %s" % (bad[0]["rk"], bad[0]["op"]))
        if len(got) < len(evs):
            return stop(end["x"] if end else "lost", end.get("why", "") if end else "ranks without a record")
        for e in evs:
            c = cur[e["rk"]]
            for h in list(c):
                if h not in e["live"]:
                    del c[h]
            for d in e["d"]:
                c[d["h"]] = d
        if line[0] == "+":                   # a call completed by the lines that follow
            held.append(evs)
            continue
        held.append(evs)
        evs = held[0]
        e0 = evs[0]
        op, a = e0["op"], e0["a"]
        if op == "P":
            a = a[:2]
        now = {}
        for h in sorted({h for c in cur for h in c}):
            own = [c[h] for c in cur if h in c]
            m = own[0]["m"]
            if any(d["m"] != m for d in own):
                return stop("ranks", "attributes of matrix %d differ between ranks" % h)
            if "b" in own[0]:
                if len(own) < R or any(d.get("b") != own[0]["b"] for d in own) or own[0]["b"] * p != m[2]:
                    return stop("ranks", "blocks of matrix %d do not form a matrix" % h)
                v = assemble(own, p, m[1] >= 3)
            elif not solo and len(own) == R > 1 and any(d["w"] != [0, m[2]] for d in own):
                v = rows(own, m[2], m[1] >= 3)
                if v is None:
                    return stop("ranks", "the rows of matrix %d do not form a matrix" % h)
            else:
                v = own[0]["v"]
                if any(d["v"] != v for d in own):
                    return stop("ranks", "ranks hold different values of matrix %d" % h)
            now[h] = dict(h=h, m=m, v=v)
        for r in range(R):
            if set(cur[r]) != set(by[r][max(j for j in by[r] if j <= k)]["live"]):
                return stop("lost", "matrices without a record")
        for x in held:
            if x[0]["op"] == "gath" and any(c[x[0]["a"][0]]["v"] != now[x[0]["a"][0]]["v"] for c in cur):
                return stop("ranks", "ranks hold different values of matrix %d after a gather" % x[0]["a"][0])
        n = 0
        if op == "diag":
            n = now[a[0]]["m"][2]
        r = combine(op, evs, n)
        if r is None:
            return stop("ranks", "ranks got different results from %s" % op)
        if op == "meta" and r[0] == 5 and now[a[0]]["m"][4] == 1:
            r = [r[1]] + r[1:]
        add(op, "ok", a, r, 1 if any(e["z"] for e in evs) else 0, sorted(now), [d for h, d in now.items() if whole.get(h) != d])
        whole = now
        for evs in held[1:]:
            r = combine(evs[0]["op"], evs, 0)
            if r is None:
                return stop("ranks", "ranks got different results from %s" % evs[0]["op"])
            add(evs[0]["op"], "ok", evs[0]["a"], r, 1 if any(e["z"] for e in evs) else 0, sorted(now))
        held = []
    if end:
        return stop(end["x"], end.get("why", ""))
    return out


class DistGen(gen.Gen):
    UBLOCKS = 0

    """Programs on matrices distributed over a square grid of ranks; rows are never limited."""

    def __init__(self, rng, ranks=(1, 4, 4, 4, 9), **kw):
        kw.setdefault("ns", [1])
        super().__init__(rng, threads=(0,), vary=0, **kw)
        self.ranks = ranks

    def start(self, tid):
        super().start(tid)
        r = self.rng
        self.R = r.choice(self.ranks)
        self.L = ["P %d %d %d" % (tid, self.R, r.randrange(1 << 20))]
        p = math.isqrt(self.R)
        self.n = p * r.choice([1, 2, 2, 3, 4, 5] if p < 3 else [1, 1, 2, 3])
        self.m = self.n
        self.md = 1

    def o_drand(self):
        h = self.free_handle()
        if h is None:
            return False
        import numpy as np
        self.emit("drand", h, self.ty, self.pr, self.n, self.m)
        self.put(h, gen.Mx(self.ty, self.pr, self.n, self.m, 1, np.zeros((self.n, self.n), dtype=np.int64), zs=True))
        return h

    def o_red(self):
        self.emit("red", self.rng.randrange(3), self.rng.randint(-20, 20), self.rng.randint(-6, 6), self.R)

    def o_who(self):
        self.emit("who", self.R)

    def o_barrier(self):
        self.emit("barrier")

    def program(self, tid):
        return ["@0 " + x if x.startswith("mkfile") else x for x in super().program(tid)]

    def o_gersh(self):
        a = self.pick(gen.intmod)
        if a is None or self.H[a].bound() > 10000:
            return False
        self.emit("gersh", a)


LOCAL = dict(imp=4, zero=1, ident=1, copynew=1, copy=1, free=2, clear=1, add=2, scalein=1, tr=1, thr=1, mulab=1, setel=2, setrow=1, conv=1,
             views=1, trace=1, addid=1)


class XferGen(gen.Gen):
    UBLOCKS = 0

    """Matrices owned by single ranks, changed there, and sent around."""

    def __init__(self, rng, ranks=(4, 4, 9), xfer=0.5, **kw):
        kw.setdefault("ops", LOCAL)
        super().__init__(rng, threads=(0,), vary=0, **kw)
        self.ranks, self.xfer = ranks, xfer

    def start(self, tid):
        super().start(tid)
        self.R = self.rng.choice(self.ranks)
        self.L = ["P %d %d %d" % (tid, self.R, self.rng.randrange(1 << 20))]
        self.rank_of = {}
        self.cur = 0

    def emit(self, *a):
        super().emit("@%d" % self.cur, *a)

    def put(self, h, X):
        self.H[h] = X
        self.rank_of[h] = self.cur

    def live(self, pred=None):
        return [h for h in super().live(pred) if self.rank_of[h] == self.cur]

    def all(self, pred=None):
        return [h for h in range(gen.NH) if self.H[h] is not None and (pred is None or pred(self.H[h]))]

    def like(self, a):
        A = self.H[a]
        return lambda B: (B.ty, B.pr, B.n, B.m) == (A.ty, A.pr, A.n, A.m)

    def roomy(self, a):
        """A non-blocking receive of a csr matrix provides for 2 M N entries (see known_findings.json)."""
        A = self.H[a]
        return A.ty != gen.CSR or (A.n * A.n if A.zs else int(A.nz().sum())) <= 2 * A.m * A.n

    def into(self, b, a):
        A, B = self.H[a], self.H[b]
        self.H[b] = gen.Mx(B.ty, B.pr, B.n, B.m, B.md, A.re.copy(), A.im.copy(), A.fuzzy, A.zs)

    def target(self, a, rank):
        """A matrix of that rank which can take a."""
        c = [h for h in self.all(self.like(a)) if self.rank_of[h] == rank and h != a]
        if c:
            return self.rng.choice(c)
        A = self.H[a]
        self.cur = rank
        old = self.m
        self.m = A.m
        h = self.o_imp(ty=A.ty, pr=A.pr, n=A.n, m=A.m, t=0)
        self.m = old
        return None if h is False else h

    def transfer(self):
        r = self.rng
        c = self.all()
        if not c:
            return False
        a = r.choice(c)
        A = self.H[a]
        k = r.choice(["send", "send", "irecv", "new", "swap", "bcast", "bcast"])
        src = self.rank_of[a]
        other = r.choice([x for x in range(self.R) if x != src])
        if k == "new":
            h = self.free_handle()
            if h is None:
                return False
            self.L.append("send 2 %d %d %d %d %d %d %d %d" % (src, a, other, h, A.ty, A.pr, A.n, A.m))
            self.cur = other
            self.put(h, A.like(A.re.copy(), A.im.copy()))
            return True
        if k in ("send", "irecv"):
            b = self.target(a, other)
            if b is None or (k == "irecv" and not self.roomy(a)):
                return False
            self.L.append("send %d %d %d %d %d" % (k == "irecv", src, a, other, b))
            self.into(b, a)
            return True
        if k == "swap":
            a2 = self.target(a, other)
            if a2 is None:
                return False
            b2, b1 = self.target(a2, other), self.target(a, src)
            if b1 is None or b2 is None or not self.roomy(a) or not self.roomy(a2) or len({a, a2, b1, b2}) < 4:
                return False
            self.L.append("swap %d %d %d %d %d %d" % (src, a, b1, other, a2, b2))
            X, Y = self.H[a], self.H[a2]
            self.into(b2, a)
            self.into(b1, a2)
            return True
        who = {src} | {x for x in range(self.R) if r.random() < r.choice([0.4, 1])}
        hs = {src: a}
        for x in sorted(who - {src}):
            b = self.target(a, x)
            if b is None:
                return False
            hs[x] = b
        self.L.append("bcast %d %d %s" % (src, r.random() < 0.3, " ".join(str(hs.get(x, -1)) for x in range(self.R))))
        for x, b in hs.items():
            if x != src:
                self.into(b, a)
        return True

    def program(self, tid):
        self.start(tid)
        r = self.rng
        names = list(self.ops)
        w = [self.ops[k] for k in names]
        for _ in range(r.randint(2, 4)):
            self.cur = r.randrange(self.R)
            self.o_imp()
        made, tries, want = 0, 0, r.randint(*self.steps)
        while made < want and tries < 12 * want:
            tries += 1
            if r.random() < self.xfer:
                ok = self.transfer()
            else:
                self.cur = r.randrange(self.R)
                ok = getattr(self, "o_" + r.choices(names, w)[0])()
            made += ok is not False
        self.L.append("E")
        return self.L


class DomGen(gen.Gen):
    UBLOCKS = 0

    """Decompositions of rows: one process that is told of R ranks."""
    RANKS = (1, 4, 9, 16, 25, 36)

    def __init__(self, rng, **kw):
        kw.setdefault("ops", dict(imp=2, zero=1, free=1, copynew=2, copy=3, setdom=6, savedom=3, restdom=3, dom=3, bad=0.1))
        super().__init__(rng, threads=(0,), types=(1, 2, 2, 2, 4), **kw)

    def start(self, tid):
        super().start(tid)
        self.R = self.rng.choice(self.RANKS)
        self.L = ["P %d %d 1 1" % (tid, self.R)]

    def any(self, pred=lambda X: X.ty <= 2):
        return self.pick(pred)

    def o_setdom(self):
        a = self.any(lambda X: X.ty <= 2)
        if a is None:
            return False
        r, n = self.rng, self.H[a].n
        np_ = r.randint(self.R, self.R + 4)
        cut = sorted(r.randint(0, n) for _ in range(np_ - 1))
        nodes = [y - x for x, y in zip([0] + cut, cut + [n])]
        ends = sorted(r.sample(range(1, np_), self.R - 1)) + [np_]
        lo = [1] + [x + 1 for x in ends[:-1]]
        self.emit("setdom", a, np_, *lo, *ends, *nodes)

    def simple(self, op):
        a = self.any()
        if a is None:
            return False
        self.emit(op, a)

    def o_savedom(self):
        return self.simple("savedom")

    def o_restdom(self):
        return self.simple("restdom")

    def o_dom(self):
        return self.simple("dom")

    def o_bad(self):
        a = self.any(lambda X: X.ty >= 3)
        if a is None:
            return False
        op = self.rng.choice(["savedom", "restdom", "setdom"])
        self.emit(op, a, *([self.R] + list(range(1, self.R + 1)) * 2 + [0] * (self.R - 1) + [self.H[a].n] if op == "setdom" else []))
        self.doomed = True

    @classmethod
    def defaults(cls, rng, tier, first):
        """The default decomposition of every size up to a bound, and of some large sizes."""
        out, L = [], None
        top = 3000 if tier == "thorough" else 400
        for R in cls.RANKS:
            todo = [(n, rng.choice([1, 1, 2, n, 7]), 1) for n in range(R, R + top)]
            for _ in range(60 if tier == "thorough" else 20):
                n = rng.choice([rng.randint(R, 100000), rng.randint(1 << 24, (1 << 31) - 2), (1 << 24) + rng.randint(1, 99), R * rng.randint(1, 1000) + rng.randint(-1, 1)])
                if n >= R:
                    todo.append((n, rng.choice([1, 3]) if n < 1 << 29 else 1, 1))
            todo += [(n, rng.randint(1, n), 0) for n in (1, 2, 5, 17, 100)]
            for k in range(0, len(todo), 60):
                out.append(["P %d %d 1 1" % (first + len(out), R)] + ["ddom %d %d %d" % x for x in todo[k:k + 60]] + ["E"])
        return out


ROWLOCAL = dict(add=3, addnorm=2, addid=1, sai=1, scale=1, scalein=2, scalenew=1, thr=1, thrnew=1, emul=2, mul=3, mulab=2, x2=2, tr=2, trnew=1, copy=2,
                copynew=1, clear=1, setel=2, setrow=1, setdiag=1, trace=2, tracemult=2, sumsq=2, sumsq2=2, sumab=2, gersh=2, normalize=2, views=1, exp=1, getrow=1, getdiag=1, getel=1, spars=1, bw=1, offdiag=1, conv=1,
                imp=2, zero=1, ident=1, free=1, gath=2, dom=1, red=1)
# operands of which every rank needs all rows
WHOLE = dict(mul=(1,), mulab=(1,), x2=(0,), tr=(0,), trnew=(1,), tracemult=(1,), views=(0,), conv=(1,), gershp=(0,), exp=(0,), getrow=(0,), getdiag=(0,), getel=(0,), spars=(0,), bw=(0,), offdiag=(0,))
SHARE = {"trace", "tracemult", "sumsq", "sumsq2", "sumab", "addnorm", "gersh", "x2"}


class RowGen(gen.Gen):
    UBLOCKS = 0

    """Matrices of which every rank computes its own rows; the rows are gathered where a call needs them all."""

    def __init__(self, rng, ranks=(4, 4, 4, 9), **kw):
        kw.setdefault("ops", ROWLOCAL)
        kw.setdefault("types", (1, 2))
        super().__init__(rng, threads=(0,), **kw)
        self.ranks = ranks
        self.eager = self.capm > 0      # rows of other ranks may hold old entries, which count where rows are limited

    def start(self, tid):
        super().start(tid)
        r = self.rng
        self.R = r.choice(self.ranks)
        self.L = ["P %d %d %d" % (tid, self.R, r.randrange(1 << 20))]
        self.sync = {}
        n = self.n
        if n >= self.R and r.random() < 0.4:
            ext = [n // self.R + (k < n % self.R) for k in range(self.R)]
        else:
            cut = sorted(r.randint(0, n) for _ in range(self.R - 1))
            ext = [y - x for x, y in zip([0] + cut, cut + [n])]
        self.parts = [self.R] + list(range(1, self.R + 1)) * 2 + ext

    def gather(self, h):
        if not self.sync.get(h, True):
            super().emit("gath", h)
            self.sync[h] = True

    def emit(self, op, *a):
        for k in WHOLE.get(op, ()):
            self.gather(a[k])
        new = op in ("imp", "zero", "noinit", "ident", "scalenew", "thrnew", "trnew", "conv", "copynew")
        super().emit(("+" if new else "*" if op in SHARE else "") + op, *a)
        if new:
            super().emit("setdom", a[0], *self.parts)
            self.sync[a[0]] = op in ("imp", "zero", "noinit", "ident")
        else:
            for h in {"add": a[:1], "addnorm": a[:1], "addid": a[:1], "sai": a[:1], "scale": a[1:2], "scalein": a[:1], "thr": a[:1], "emul": a[2:3], "mul": a[2:3],
                      "mulab": a[2:3], "x2": a[1:2], "tr": a[:1], "copy": a[1:2], "normalize": a[:1]}.get(op, ()):
                self.sync[h] = False
        if self.eager:
            for h in list(self.sync):
                if self.H[h] is not None or h in a[:3]:
                    self.gather(h)

    o_red = DistGen.o_red

    def o_conv(self):
        return super().o_conv(self.rng.choice(self.types))

    def o_gath(self):
        h = self.pick()
        if h is None:
            return False
        super().emit("gath", h)
        self.sync[h] = True

    def o_dom(self):
        h = self.pick()
        if h is None:
            return False
        super().emit("dom", h)

    def program(self, tid):
        L = super().program(tid)
        return L[:-1] + ["gath %d" % h for h in self.live() if not self.sync.get(h, True)] + ["E"]
