"""Seeded generator of programs of public bml calls.

The generator keeps a shadow of the matrices only to steer: to keep values exactly representable, to know which
calls are possible, and to hit corner cases on purpose. It never judges a result; the TLA+ specification does.
"""
import math
import random
import numpy as np

DENSE, ELLPACK, ELLBLOCK, CSR = 1, 2, 3, 4
SR, DR, SC, DC = 1, 2, 3, 4
NH = 16
BD = 4
BLK = None      # (sizes, blocks per row) of a program that chose its own block sizes


def spans(n):
    """First and last index (exclusive) of every block."""
    if BLK:
        e = np.cumsum(BLK[0])
        return [(int(b - k), int(b)) for b, k in zip(e, BLK[0])]
    return [(i, min(n, i + BD)) for i in range(0, n, BD)]


def blockcap(n, m):
    nb = len(spans(n))
    return min(nb, BLK[1] if BLK else max(4, (m + BD - 1) // BD))


class Mx:
    __slots__ = ("ty", "pr", "n", "m", "md", "re", "im", "fuzzy", "zs")

    def __init__(s, ty, pr, n, m, md, re, im=None, fuzzy=False, zs=False):
        s.ty, s.pr, s.n, s.m, s.md = ty, pr, n, m, md
        s.re = re
        s.im = im if im is not None else np.zeros((n, n), dtype=np.int64)
        s.fuzzy = fuzzy      # a threshold may have left a choice: values are an over-approximation
        s.zs = zs            # zeros may be stored explicitly

    cx = property(lambda s: s.pr >= 3)

    def like(s, re, im, fuzzy=False, zs=False):
        return Mx(s.ty, s.pr, s.n, s.m, s.md, re, im, s.fuzzy or fuzzy, s.zs or zs)

    def nz(s):
        return (s.re != 0) | (s.im != 0)

    tight = property(lambda s: s.m < s.n if s.ty == ELLPACK else s.ty == ELLBLOCK and blockcap(s.n, s.m) < len(spans(s.n)))

    def bound(s):
        return int(max(np.abs(s.re).max(), np.abs(s.im).max()))


def fits(ty, n, m, nz):
    if ty == ELLPACK:
        return m >= n or int(nz.sum(axis=1).max()) <= m
    if ty == ELLBLOCK:
        cap, sp = blockcap(n, m), spans(n)
        for i, p in sp:
            if sum(1 for j, q in sp if nz[i:p, j:q].any()) > cap:
                return False
    return True


def widen(A):
    """Pattern of whole blocks for block storage."""
    p = A.nz()
    if A.ty == ELLBLOCK:
        q = p.copy()
        for i, k in spans(A.n):
            for j, l in spans(A.n):
                q[i:k, j:l] = p[i:k, j:l].any()
        p = q
    return p


def intmod(a):
    """All moduli are integers."""
    if a.fuzzy and a.cx:
        return False
    m2 = a.re * a.re + a.im * a.im
    r = np.sqrt(m2.astype(float)).round().astype(np.int64)
    return bool((r * r == m2).all())


class Gen:
    UBLOCKS = 0.15      # how often a program chooses its own block sizes

    def __init__(self, rng, types=(1, 2, 3, 4), precs=(1, 2, 3, 4), ns=None, threads=(1, 2, 3, 4, 8), ops=None,
                 steps=(6, 14), thr=0.35, capm=0.0, over=0.0, exact=0.0, bad=0.0, big=0.12, vary=0.1):
        self.rng = rng
        self.over = over            # how often a call that does not fit is issued all the same
        self.vary = vary            # how often matrices of one program differ in capacity
        self.exact = exact          # how often the capacity is exactly the fullest row of the first matrix
        self.big = big              # how often elements need most of the digits of their precision
        self.bad = bad              # how often a program ends with an invalid request
        self.doomed = False
        self.types, self.precs = types, precs
        self.ns = ns or [1, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 13]
        self.threads = threads
        self.ops = ops
        self.steps = steps
        self.thr = thr
        self.capm = capm

    # ------------------------------------------------------------ values
    def lim(self, pr):
        return (1 << 21) if pr in (SR, SC) else (1 << 26)

    def flim(self, *ms):
        """Limit for sums; shadows of thresholded matrices are only approximate."""
        return self.lim(ms[0].pr) // (64 if any(m.fuzzy for m in ms) else 1)

    def pattern(self, n):
        r = self.rng
        k = r.choice(["rand", "rand", "rand", "full", "diag", "empty", "band", "lower", "row", "col", "nodiag", "one", "perm"])
        p = np.zeros((n, n), dtype=bool)
        if k == "rand":
            d = r.choice([0.1, 0.3, 0.5, 0.8])
            for i in range(n):
                for j in range(n):
                    p[i, j] = r.random() < d
        elif k == "full":
            p[:] = True
        elif k == "diag":
            p[np.arange(n), np.arange(n)] = True
        elif k == "band":
            w = r.randint(1, 2)
            for i in range(n):
                for j in range(n):
                    p[i, j] = abs(i - j) <= w
        elif k == "lower":
            p = np.tril(np.ones((n, n), dtype=bool))
            if r.random() < 0.5:
                p = p.T.copy()
        elif k == "row":
            p[r.randrange(n), :] = True
        elif k == "col":
            p[:, r.randrange(n)] = True
        elif k == "nodiag":
            p[:] = True
            p[np.arange(n), np.arange(n)] = False
        elif k == "one":
            p[r.randrange(n), r.randrange(n)] = True
        elif k == "perm":
            q = list(range(n))
            r.shuffle(q)
            for i in range(n):
                p[i, q[i]] = True
        return p

    def val(self, style=None):
        r = self.rng
        k = style or r.choice(["s", "s", "s", "m"])
        if k == "y":         # 20 bits: exact in single precision, seven decimal digits
            return r.choice([-1, 1]) * (2 * r.randint(1 << 18, (1 << 19) - 1) + 1)
        if k == "x":         # needs more than 24 bits
            return r.choice([-1, 1]) * (2 * r.randint(1 << 23, (1 << 24) - 1) + 1)
        hi = {"s": 4, "m": 12, "b": 1000}[k]
        v = 0
        while v == 0:
            v = r.randint(-hi, hi)
        return v

    def size(self, pr):
        r = self.rng
        return r.choice(["b", "x" if pr in (DR, DC) else "y"]) if pr and r.random() < self.big else None

    def matrix(self, n, cx, pat=None, sign=None, style=None, cxstyle=None, pr=None):
        r = self.rng
        p = self.pattern(n) if pat is None else pat
        style = style or self.size(pr) or r.choice(["s", "s", "m"])
        sign = sign if sign is not None else r.choice([0, 0, 0, 1, -1])
        re = np.zeros((n, n), dtype=np.int64)
        im = np.zeros((n, n), dtype=np.int64)
        cs = cxstyle or r.choice(["g", "g", "axis", "345"])
        for i in range(n):
            for j in range(n):
                if p[i, j]:
                    v = self.val(style)
                    if sign:
                        v = sign * abs(v)
                    if not cx:
                        re[i, j] = v
                    elif cs == "axis":
                        if r.random() < 0.5:
                            re[i, j] = v
                        else:
                            im[i, j] = v
                    elif cs == "345":
                        a, b = r.choice([(3, 4), (4, 3), (-3, 4), (4, -3), (5, 0), (0, 5), (0, -2), (6, 8)])
                        re[i, j], im[i, j] = a, b
                    else:
                        re[i, j] = v
                        im[i, j] = self.val(style) if style in ("x", "y") else r.randint(-4, 4)
        return re, im

    def fmt(self, re, im, cx):
        out = []
        for a, b in zip(np.ravel(re), np.ravel(im)):
            out.append(str(int(a)))
            if cx:
                out.append(str(int(b)))
        return " ".join(out)

    # ------------------------------------------------------------ program
    def start(self, tid):
        global BLK
        r = self.rng
        BLK = None
        self.L = ["P %d" % tid]
        self.H = [None] * NH
        self.F = {}
        self.n = r.choice(self.ns)
        self.ty = r.choice(self.types)
        self.pr = r.choice(self.precs)
        self.md = 0
        self.m = self.n
        if r.random() < self.capm:
            self.m = r.randint(1, self.n)
            if self.ty == ELLBLOCK and self.n > 16:
                self.m = r.randint(1, 16)
        elif r.random() < 0.15 and self.ty != ELLBLOCK:
            self.m = self.n + r.randint(1, 3)
        if ELLBLOCK in self.types and self.UBLOCKS and r.random() < self.UBLOCKS:
            self.ublocks()
        t = r.choice(self.threads)
        if t:
            self.L.append("omp %d" % t)

    def ublocks(self):
        """Block sizes of the caller's own: equal or unequal, with room for all or only some blocks of a row."""
        global BLK
        r = self.rng
        top = max(self.ns)
        while True:
            nb = r.choice([1, 2, 2, 3, 3, 4, 5])
            k = r.choice([1, 2, 3, 4, 5, 5, 6, 6, 7, 8])
            sizes = r.choice([[k] * nb, [r.choice([k, k, r.randint(1, 9)]) for _ in range(nb)], [r.randint(1, 9) for _ in range(nb)]])
            if sum(sizes) <= max(top, 10):
                break
        self.n = sum(sizes)
        self.m = self.n if r.random() < 0.7 else r.randint(1, self.n)
        if self.ty == ELLPACK and not self.capm:
            self.m = self.n
        BLK = (sizes, nb if r.random() < 0.6 else r.randint(1, nb + 1))
        self.o_blockm()

    def o_blockm(self):
        h = self.free_handle()
        if h is None or not BLK:
            return False
        pr = self.pr if self.rng.random() < 0.8 else self.rng.choice(self.precs)
        self.emit("blockm", h, pr, BLK[1], self.m if self.m <= self.n else self.n, self.md, *BLK[0])
        self.put(h, Mx(ELLBLOCK, pr, self.n, self.m if self.m <= self.n else self.n, self.md, np.zeros((self.n, self.n), dtype=np.int64)))
        return h

    def emit(self, *a):
        self.L.append(" ".join(str(x) for x in a))

    def free_handle(self):
        c = [h for h in range(NH) if self.H[h] is None]
        return self.rng.choice(c) if c else None

    def live(self, pred=None):
        return [h for h in range(NH) if self.H[h] is not None and (pred is None or pred(self.H[h]))]

    def pick(self, pred=None):
        c = self.live(pred)
        return self.rng.choice(c) if c else None

    def same(self, a):
        A = self.H[a]
        return lambda B: B.ty == A.ty and B.pr == A.pr and B.n == A.n

    def ok(self, a, X):
        """Values stay exactly representable and the result fits."""
        return X.bound() <= self.lim(X.pr) and (self.doomed or fits(X.ty, X.n, X.m, X.nz()))

    def fit(self, X, nz, *src):
        """Does pattern nz fit into X? Sometimes a call that has to be refused is wanted: it then ends the program."""
        if X.tight and any(m.zs for m in src or (X,)):
            nz = nz | np.eye(X.n, dtype=bool)        # zeros may be stored on the diagonal
        if fits(X.ty, X.n, X.m, nz):
            return True
        if self.over and self.rng.random() < self.over and not any(m.zs or m.fuzzy for m in (src or (X,))):
            self.doomed = True
            return True
        return False

    def put(self, h, X):
        self.H[h] = X

    def t(self):
        """A threshold in halves."""
        r = self.rng
        if r.random() < self.thr:
            return r.choice([1, 2, 2, 3, 4, 6])
        return 0

    def xy(self, *ms):
        """Scalar factors in halves; odd halves only where everything is even."""
        r = self.rng
        c = [0, 2, 2, -2, 4, 6, -4]
        if all(not m.fuzzy and not (m.re % 2).any() and not (m.im % 2).any() for m in ms):
            c = c + [1, 1, -1, 3]
        return r.choice(c)

    def small(self, X, t):
        m2 = X.re * X.re + X.im * X.im
        return 4 * m2 <= t * t

    def drop(self, X, t, keepdiag=False):
        """Shadow of a drop threshold (sparse formats)."""
        if X.ty == DENSE or t == 0:
            return X
        s = self.small(X, t) & X.nz()
        if keepdiag:
            s = s & ~np.eye(X.n, dtype=bool)
        if s.any() and X.ty == ELLBLOCK:     # a block stays as a whole
            return X.like(X.re, X.im, fuzzy=True)
        if s.any():
            re, im = X.re.copy(), X.im.copy()
            re[s] = 0
            im[s] = 0
            return X.like(re, im, fuzzy=True)
        return X

    # constructors ------------------------------------------------
    def o_imp(self, ty=None, pr=None, n=None, t=None, pat=None, given=None, m=None, **kw):
        h = self.free_handle()
        if h is None:
            return False
        r = self.rng
        ty = ty or self.ty
        pr = pr or self.pr
        n = n or self.n
        m = m or (self.m if n == self.n else n)
        if ty == ELLBLOCK and self.vary and n > 16 and not BLK and n == self.n and r.random() < 0.5:
            m = r.choice([16, r.randint(1, 16), n - 4, n])
        elif ty == ELLPACK and n == self.n and r.random() < self.vary:
            m = r.choice([n, n, n + 1, r.randint(1, n)])
        cx = pr >= 3
        for _ in range(20):
            if given is not None:
                re, im = given
            else:
                re, im = self.matrix(n, cx, pat, pr=pr, **kw)
                if r.random() < 0.3:
                    re, im = 2 * re, 2 * im
            X = Mx(ty, pr, n, m, self.md, re, im)
            tt = self.t() if t is None else t
            Y = self.drop(X, tt)
            if X.bound() <= self.lim(pr) and self.fit(X, X.nz()):
                break
        else:
            return False
        ordr = r.choice([0, 0, 1])
        a, b = (re, im) if ordr == 0 else (re.T, im.T)
        self.emit("imp", h, ty, pr, n, m, self.md, ordr, tt, self.fmt(a, b, cx))
        self.put(h, Y)
        return h

    def o_zero(self):
        h = self.free_handle()
        if h is None:
            return False
        k = self.rng.choice(["zero", "noinit", "zero"])
        if BLK and self.rng.random() < 0.5:
            return self.o_blockm()
        if k == "noinit" and self.ty == ELLBLOCK:
            k = "zero"
        self.emit(k, h, self.ty, self.pr, self.n, self.m, self.md)
        self.put(h, Mx(self.ty, self.pr, self.n, self.m, self.md, np.zeros((self.n, self.n), dtype=np.int64)))
        return h

    def o_ident(self):
        h = self.free_handle()
        if h is None:
            return False
        self.emit("ident", h, self.ty, self.pr, self.n, self.m, self.md)
        self.put(h, Mx(self.ty, self.pr, self.n, self.m, self.md, np.eye(self.n, dtype=np.int64)))
        return h

    def o_conv(self, to=None):
        h = self.free_handle()
        a = self.pick()
        if h is None or a is None:
            return False
        A = self.H[a]
        ty = to or self.rng.choice((1, 2, 3, 4))
        if ty == ELLBLOCK and (A.n != self.n):
            return False
        m = A.n if A.m < 1 else max(A.m, 1)
        if self.over and ty == ELLPACK:
            m = self.rng.randint(1, A.n)
        if not self.fit(Mx(ty, A.pr, A.n, m, A.md, A.re, A.im), A.nz(), A):
            m = A.n
        if ty == ELLBLOCK:
            m = A.n if A.ty != ELLBLOCK else min(m, A.n)
        self.emit("conv", h, a, ty, A.pr, m, A.md)
        self.put(h, Mx(ty, A.pr, A.n, m, A.md, A.re.copy(), A.im.copy(), A.fuzzy, ty == ELLBLOCK))
        return h

    def o_copynew(self):
        h, a = self.free_handle(), self.pick()
        if h is None or a is None:
            return False
        self.emit("copynew", h, a)
        A = self.H[a]
        self.put(h, A.like(A.re.copy(), A.im.copy()))
        return h

    def o_copy(self):
        a = self.pick()
        if a is None:
            return False
        b = self.pick(self.same(a))
        A, B = self.H[a], self.H[b]
        if a == b or not self.fit(B, A.nz(), A) or A.m > B.m and not self.doomed:
            return False
        self.emit("copy", a, b)
        self.put(b, Mx(B.ty, B.pr, B.n, B.m, B.md, A.re.copy(), A.im.copy(), A.fuzzy, A.zs))
        return True

    def o_free(self):
        if len(self.live()) < 3:
            return False
        h = self.pick()
        self.emit("free", h)
        self.H[h] = None
        return True

    def o_clear(self):
        h = self.pick()
        if h is None:
            return False
        A = self.H[h]
        self.emit("clear", h)
        self.put(h, Mx(A.ty, A.pr, A.n, A.m, A.md, np.zeros((A.n, A.n), dtype=np.int64)))
        return True

    def o_meta(self):
        h = self.pick()
        if h is None:
            return False
        self.emit("meta", h)
        return True

    # linear combinations -----------------------------------------
    def o_add(self, op="add", selfp=0.15):
        a = self.pick()
        if a is None:
            return False
        b = a if self.rng.random() < selfp else self.pick(self.same(a))
        A, B = self.H[a], self.H[b]
        x, y, t = self.xy(A, B), self.xy(A, B), self.t()
        if (x % 2 or y % 2) and not self.even(A, B):
            return False
        X = A.like((x * A.re + y * B.re) // 2, (x * A.im + y * B.im) // 2, B.fuzzy, B.zs)
        if not self.fit(A, A.nz() | B.nz(), A, B):
            return False
        X = self.drop(X, t)
        if not self.ok(a, X):
            return False
        if op == "addnorm":
            if A.ty == CSR or self.sq(A.re - B.re, A.im - B.im) > self.flim(A, B):
                return False
        self.emit(op, a, b, x, y, t)
        self.put(a, X)
        return True

    def even(self, *ms):
        return all(not m.fuzzy and not (m.re % 2).any() and not (m.im % 2).any() for m in ms)

    def sq(self, re, im):
        return int((re.astype(object) ** 2).sum() + (im.astype(object) ** 2).sum())

    def o_addnorm(self):
        return self.o_add("addnorm")

    def o_addid(self):
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        y, t = self.rng.choice([0, 2, -2, 4, 6]), self.t()
        X = A.like(A.re + (y // 2) * np.eye(A.n, dtype=np.int64), A.im.copy())
        if not self.fit(A, A.nz() | np.eye(A.n, dtype=bool)):
            return False
        X = self.drop(X, t)
        if not self.ok(a, X):
            return False
        self.emit("addid", a, y, t)
        self.put(a, X)
        return True

    def o_sai(self):
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        x, y, t = self.xy(A), self.rng.choice([0, 2, -2, 4]), self.t()
        X = A.like((x * A.re) // 2 + (y // 2) * np.eye(A.n, dtype=np.int64), (x * A.im) // 2)
        if not self.fit(A, A.nz() | np.eye(A.n, dtype=bool)):
            return False
        X = self.drop(X, t)
        if not self.ok(a, X):
            return False
        self.emit("sai", a, x, y, t)
        self.put(a, X)
        return True

    # scale, transpose, threshold ---------------------------------
    def scal(self, A):
        r = self.rng
        x = self.xy(A)
        y = 0
        if A.cx and r.random() < 0.4:
            y = r.choice([0, 2, -2, 4])
        if x % 2 and y:
            x = 2
        if x == 0 and y == 0 and A.tight:
            x = 2                # stored zeros all over the pattern
        if A.cx:
            X = A.like((x * A.re - y * A.im) // 2, (x * A.im + y * A.re) // 2, zs=(x == 0 and y == 0))
        else:
            X = A.like((x * A.re) // 2, A.im.copy(), zs=(x == 0))
        return x, y, X

    def o_scalein(self):
        a = self.pick()
        if a is None:
            return False
        x, y, X = self.scal(self.H[a])
        if not self.ok(a, X):
            return False
        self.emit("scalein", a, x, y)
        self.put(a, X)
        return True

    def o_scalenew(self):
        h, a = self.free_handle(), self.pick()
        if h is None or a is None:
            return False
        x, y, X = self.scal(self.H[a])
        if not self.ok(a, X):
            return False
        self.emit("scalenew", h, a, x, y)
        self.put(h, X)
        return h

    def o_scale(self):
        a = self.pick()
        if a is None:
            return False
        b = self.pick(self.same(a))
        A, B = self.H[a], self.H[b]
        x, y, X = self.scal(A)
        if a == b or not self.ok(a, X) or not self.fit(B, X.nz(), A) or A.m > B.m and not self.doomed:
            return False
        self.emit("scale", a, b, x, y)
        self.put(b, Mx(B.ty, B.pr, B.n, B.m, B.md, X.re, X.im, X.fuzzy, X.zs))
        return True

    def o_trnew(self):
        h, a = self.free_handle(), self.pick()
        if h is None or a is None:
            return False
        A = self.H[a]
        X = A.like(A.re.T.copy(), A.im.T.copy())
        if not self.fit(X, X.nz()) or not self.ok(a, X) or (A.zs and A.tight):
            return False
        self.emit("trnew", h, a)
        self.put(h, X)
        return h

    def o_tr(self):
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        X = A.like(A.re.T.copy(), A.im.T.copy())
        if not self.fit(A, A.nz() | A.nz().T) or (A.zs and A.tight):
            return False
        self.emit("tr", a)
        self.put(a, X)
        return True

    def o_thr(self, new=False):
        a = self.pick()
        h = self.free_handle() if new else a
        if a is None or h is None:
            return False
        A = self.H[a]
        t = self.rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 10])
        s = self.small(A, t)
        re, im = A.re.copy(), A.im.copy()
        re[s] = 0
        im[s] = 0
        X = A.like(re, im)
        if new:
            self.emit("thrnew", h, a, t)
        else:
            self.emit("thr", a, t)
        self.put(h, X)
        return True

    def o_thrnew(self):
        return self.o_thr(True)

    # products ----------------------------------------------------
    def prod(self, A, B):
        re = A.re @ B.re - A.im @ B.im
        im = A.re @ B.im + A.im @ B.re
        return re, im

    def mulcheck(self, A, B, extra=1):
        b = (np.abs(A.re) + np.abs(A.im)) @ (np.abs(B.re) + np.abs(B.im))
        return int(b.max()) * extra <= self.lim(A.pr)

    def pnz(self, A, B):
        w = [widen(X) | np.eye(X.n, dtype=bool) if X.zs else widen(X) for X in (A, B)]
        return (w[0].astype(int) @ w[1].astype(int)) > 0

    def o_mul(self):
        a = self.pick()
        if a is None:
            return False
        f = self.same(a)
        b, c = self.pick(f), self.pick(f)
        if self.rng.random() < 0.15:
            b = a
        A, B, C = self.H[a], self.H[b], self.H[c]
        if c in (a, b) and not self.alias_mul:
            return False
        re, im = self.prod(A, B)
        P = A.like(re, im, B.fuzzy, B.zs)
        if not self.mulcheck(A, B, 4):
            return False
        t = self.t()
        x, y = self.rng.choice([2, 2, -2, 4, 6, 0]), self.rng.choice([0, 0, 2, -2, 4])
        if self.even(P) and self.rng.random() < 0.3:
            x = self.rng.choice([1, -1, 3])
        X = C.like((x * re) // 2 + (y // 2) * C.re, (x * im) // 2 + (y // 2) * C.im, A.fuzzy or B.fuzzy, True)
        if not self.fit(C, self.pnz(A, B) | C.nz() | np.eye(C.n, dtype=bool), A, B, C):
            return False
        if t:
            X.fuzzy = X.fuzzy or C.ty != DENSE
        if not self.ok(c, X):
            return False
        self.emit("mul", a, b, c, x, y, t)
        self.put(c, X)
        return True

    alias_mul = False

    def o_x2(self):
        a = self.pick()
        if a is None:
            return False
        c = self.pick(self.same(a))
        A, C = self.H[a], self.H[c]
        if a == c or not self.mulcheck(A, A):
            return False
        re, im = self.prod(A, A)
        X = C.like(re, im, A.fuzzy, True)
        t = self.t()
        if not self.fit(C, self.pnz(A, A) | np.eye(C.n, dtype=bool), A):
            return False
        X = self.drop(X, t, True)
        if not self.ok(c, X) or int(np.abs(X.re).sum()) > self.flim(A):
            return False
        self.emit("x2", a, c, t)
        self.put(c, X)
        return True

    def o_mulab(self, op="mulab"):
        a = self.pick()
        if a is None:
            return False
        f = self.same(a)
        b, c = self.pick(f), self.pick(f)
        A, B, C = self.H[a], self.H[b], self.H[c]
        if c in (a, b) or not self.mulcheck(A, B):
            return False
        re, im = self.prod(A, B)
        X = C.like(re, im, A.fuzzy or B.fuzzy, True)
        if not self.fit(C, self.pnz(A, B) | np.eye(C.n, dtype=bool), A, B):
            return False
        t = self.t()
        if op == "muladj" and t and not self.mulcheck(A, B, self.lim(A.pr) >> 13):
            return False
        X = self.drop(X, t, True)
        if not self.ok(c, X):
            return False
        self.emit(op, a, b, c, t)
        self.put(c, X)
        return True

    def o_muladj(self):
        return self.o_mulab("muladj")

    def o_emul(self):
        a = self.pick(lambda X: X.ty != ELLBLOCK)
        if a is None:
            return False
        f = self.same(a)
        b, c = self.pick(f), self.pick(f)
        A, B, C = self.H[a], self.H[b], self.H[c]
        if c in (a, b) or 2 * A.bound() * B.bound() > self.lim(A.pr):
            return False
        X = C.like(A.re * B.re - A.im * B.im, A.re * B.im + A.im * B.re, A.fuzzy or B.fuzzy, True)
        if not self.fit(C, A.nz(), A, B):
            return False
        t = self.t()
        X = self.drop(X, t)
        if not self.ok(c, X):
            return False
        self.emit("emul", a, b, c, t)
        self.put(c, X)
        return True

    # element access ----------------------------------------------
    def o_setel(self, op="setel"):
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        i, j = self.rng.randrange(A.n), self.rng.randrange(A.n)
        v = 0 if self.rng.random() < 0.1 and not A.tight else self.val(self.size(A.pr))
        w = self.rng.randint(-3, 3) if A.cx else 0
        re, im = A.re.copy(), A.im.copy()
        if op == "setnew" and (A.nz()[i, j] or A.zs or A.fuzzy or A.ty == DENSE):
            return False
        re[i, j], im[i, j] = v, w
        p = A.nz()
        p[i, j] = True
        if not self.fit(A, p) or (A.zs and A.tight):
            return False
        X = A.like(re, im, zs=(v == 0 and w == 0))
        self.emit(op, a, i, j, self.fmt([v], [w], A.cx))
        self.put(a, X)
        return True

    def o_setnew(self):
        return self.o_setel("setnew")

    def vec(self, n, cx, pr=None):
        d, z = self.rng.choice([0.2, 0.6, 1.0]), self.size(pr)
        re = np.array([self.val(z) if self.rng.random() < d else 0 for _ in range(n)], dtype=np.int64)
        im = np.array([self.rng.randint(-3, 3) if cx and self.rng.random() < d else 0 for _ in range(n)], dtype=np.int64)
        return re, im

    def o_setrow(self):
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        i = self.rng.randrange(A.n)
        re, im = A.re.copy(), A.im.copy()
        re[i], im[i] = self.vec(A.n, A.cx, A.pr)
        t = self.t()
        X = A.like(re, im, fuzzy=t > 0)
        if t and A.ty != DENSE:
            s = self.small(X, t)
            s[:i] = False
            s[i + 1:] = False
            X.re, X.im = re.copy(), im.copy()
            X.re[s] = 0
            X.im[s] = 0
        if not self.fit(A, X.nz() | A.nz() if A.ty == ELLBLOCK else X.nz()):
            return False
        self.emit("setrow", a, i, t, self.fmt(re[i], im[i], A.cx))
        self.put(a, X)
        return True

    def o_setdiag(self):
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        re, im = A.re.copy(), A.im.copy()
        k = np.arange(A.n)
        dr, di = self.vec(A.n, A.cx, A.pr)
        re[k, k], im[k, k] = dr, di
        t = self.t()
        X = A.like(re, im, zs=True, fuzzy=t > 0)
        s = self.small(X, t) & np.eye(A.n, dtype=bool)
        X.re[s] = 0
        X.im[s] = 0
        if not self.fit(A, A.nz() | np.eye(A.n, dtype=bool)):
            return False
        self.emit("setdiag", a, t, self.fmt(dr, di, A.cx))
        self.put(a, X)
        return True

    def o_views(self):
        a = self.pick()
        if a is None:
            return False
        self.emit("views", a)
        return True

    def o_getel(self):
        a = self.pick()
        if a is None:
            return False
        n = self.H[a].n
        self.emit("getel", a, self.rng.randrange(n), self.rng.randrange(n))
        return True

    def o_getrow(self):
        a = self.pick()
        if a is None:
            return False
        self.emit("getrow", a, self.rng.randrange(self.H[a].n))
        return True

    def o_getdiag(self):
        a = self.pick()
        if a is None:
            return False
        self.emit("getdiag", a)
        return True

    def o_exp(self):
        a = self.pick()
        if a is None:
            return False
        self.emit("exp", a, self.rng.randint(0, 1))
        return True

    # decompositions of one process
    def o_setdom(self):
        a = self.pick(lambda X: X.ty <= 2 and X.md == 0)
        if a is None:
            return False
        n, k = self.H[a].n, self.rng.randint(1, 4)
        cut = sorted(self.rng.randint(0, n) for _ in range(k - 1))
        self.emit("setdom", a, k, 1, k, *[y - x for x, y in zip([0] + cut, cut + [n])])
        return True

    def o_domop(self):
        a = self.pick(lambda X: X.ty <= 2 and X.md == 0)
        if a is None:
            return False
        self.emit(self.rng.choice(["savedom", "restdom", "dom"]), a)
        return True

    def bounds(self, n):
        a, b = self.rng.randint(0, n), self.rng.randint(0, n)
        return (min(a, b), max(a, b)) if self.rng.random() < 0.7 else (0, n)

    def o_print(self):
        a = self.pick()
        if a is None:
            return False
        n = self.H[a].n
        (il, iu), (jl, ju) = self.bounds(n), self.bounds(n)
        k = self.rng.randrange(4)
        if k < 2:
            self.emit("print", a, il, iu, jl, ju)
        elif k == 2:
            self.emit("printd", a, self.rng.randint(0, 1), il, iu, jl, ju)
        else:
            self.emit("printv", a, self.rng.randrange(n), jl, ju)
        return True

    # reductions --------------------------------------------------
    def o_trace(self):
        a = self.pick()
        if a is None:
            return False
        self.emit("trace", a)
        return True

    def two(self):
        a = self.pick()
        if a is None:
            return None, None
        return a, self.pick(self.same(a))

    def o_tracemult(self):
        a, b = self.two()
        if a is None:
            return False
        A, B = self.H[a], self.H[b]
        if int(((np.abs(A.re) + np.abs(A.im)) * (np.abs(B.re) + np.abs(B.im)).T).sum()) > self.flim(A, B):
            return False
        self.emit("tracemult", a, b)
        return True

    def o_sumsq(self, op="sumsq"):
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        if self.sq(A.re, A.im) > self.flim(A):
            return False
        if op == "sumsqsub":
            if A.ty == ELLBLOCK:
                return False
            self.emit(op, a, self.rng.randint(0, A.n))
        elif op == "fnorm":
            if self.sq(A.re, A.im) > 1 << 17:
                return False
            self.emit(op, a)
        else:
            self.emit(op, a)
        return True

    def o_sumsqsub(self):
        return self.o_sumsq("sumsqsub")

    def o_fnorm(self):
        return self.o_sumsq("fnorm")

    def o_sumsq2(self):
        a, b = self.two()
        if a is None:
            return False
        A, B = self.H[a], self.H[b]
        x, y = self.xy(A, B), self.xy(A, B)
        if (x % 2 or y % 2) and not self.even(A, B):
            return False
        if self.sq((x * A.re + y * B.re) // 2, (x * A.im + y * B.im) // 2) > self.flim(A, B):
            return False
        t = self.t()
        self.emit("sumsq2", a, b, x, y, t)
        return True

    def o_sumab(self):
        a, b = self.two()
        if a is None:
            return False
        A, B = self.H[a], self.H[b]
        x = self.xy(A)
        if x % 2 and not self.even(A):
            x = 2
        if 4 * int(((np.abs(A.re) + np.abs(A.im)) * (np.abs(B.re) + np.abs(B.im))).sum()) > self.flim(A, B):
            return False
        t = self.t()
        self.emit("sumab", a, b, x, t)
        return True

    def o_fnorm2(self):
        a, b = self.two()
        if a is None:
            return False
        A, B = self.H[a], self.H[b]
        if A.ty not in (DENSE, ELLPACK) or self.sq(A.re - B.re, A.im - B.im) > 1 << 17:
            return False
        self.emit("fnorm2", a, b)
        return True

    def o_spars(self):
        a = self.pick()
        if a is None:
            return False
        self.emit("spars", a, self.rng.choice([0, 0, 1, 2, 4, 6]))
        return True

    def o_bw(self):
        a = self.pick(lambda X: X.ty != ELLBLOCK and not X.zs)
        if a is None:
            return False
        self.emit("bw", a)
        return True

    # spectra -----------------------------------------------------
    def o_gersh(self):
        a = self.pick(intmod)
        if a is None or self.H[a].bound() > 10000:
            return False
        A = self.H[a]
        if self.rng.random() < 0.4 and A.ty != ELLBLOCK:
            self.emit("gershp", a, self.rng.randint(1, A.n))
        else:
            self.emit("gersh", a)
        return True

    def o_offdiag(self):
        a = self.pick(intmod)
        if a is None or self.H[a].bound() > 10000:
            return False
        self.emit("offdiag", a, self.rng.randint(0, 1))
        return True

    def o_normalize(self):
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        lo = self.rng.randint(-6, 6)
        d = self.rng.choice([1, 2] + ([4] if self.even(A) else []))
        hi = lo + d
        if hi % d or A.fuzzy and d > 2:
            return False
        E = np.eye(A.n, dtype=np.int64)
        X = A.like((hi * E - 2 * A.re) // d, (-2 * A.im) // d)
        if not self.fit(A, A.nz() | np.eye(A.n, dtype=bool)) or not self.ok(a, X):
            return False
        self.emit("normalize", a, lo, hi)
        self.put(a, X)
        return True

    # ---- eigenproblems and inverses ------------------------------
    def hermitian(self, n, cx):
        r = self.rng
        k = r.choice(["rand", "rand", "rand", "ident", "blocks", "rank1", "zero", "diag", "band", "rep"])
        re = np.zeros((n, n), dtype=np.int64)
        im = np.zeros((n, n), dtype=np.int64)
        if k == "ident":
            re = r.choice([1, 3, -2]) * np.eye(n, dtype=np.int64)
        elif k == "diag":
            re = np.diag([r.choice([1, 2, 2, -3, 0]) for _ in range(n)])
        elif k == "rank1":
            v = np.array([r.choice([0, 1, -1, 2]) for _ in range(n)], dtype=np.int64)
            re = np.outer(v, v)
        elif k == "blocks":
            for i in range(0, n - 1, 2):
                re[i, i + 1] = re[i + 1, i] = r.choice([1, 2])
        elif k == "rep":
            for i in range(n):
                re[i, n - 1 - i] = 1
        elif k != "zero":
            d = r.choice([0.2, 0.5, 1.0])
            for i in range(n):
                for j in range(i + 1):
                    if r.random() < d and (k != "band" or i - j <= 1):
                        re[i, j] = re[j, i] = r.randint(-4, 4)
                        if cx and i != j:
                            im[i, j] = r.randint(-3, 3)
                            im[j, i] = -im[i, j]
        return re, im

    def o_diag(self):
        r = self.rng
        a = self.pick(lambda X: not X.fuzzy and X.bound() <= 200 and (X.re == X.re.T).all() and (X.im == -X.im.T).all())
        if a is None or r.random() < 0.7:
            n = self.n
            a = self.o_imp(given=self.hermitian(n, self.pr >= 3), t=0, m=n)
            if a is False:
                return False
        A = self.H[a]
        if A.tight:
            return False
        self.emit("diag", a, A.n)
        return True

    def invertible(self, n, cx):
        r = self.rng
        d = r.choice([0.2, 0.5, 1.0])
        re = np.zeros((n, n), dtype=np.int64)
        im = np.zeros((n, n), dtype=np.int64)
        for i in range(n):
            for j in range(n):
                if r.random() < d:
                    re[i, j] = r.randint(-2, 2)
                    if cx:
                        im[i, j] = r.randint(-2, 2)
        k = r.choice(["dom", "dom", "tri", "raw"])
        if k == "tri":
            re, im = np.triu(re, 1), np.triu(im, 1)
        for i in range(n):
            w = 1 + int(np.abs(re[i]).sum() + np.abs(im[i]).sum()) if k != "tri" else 2
            if k == "raw":
                w = r.randint(0, 2)
            re[i, i] = r.choice([-1, 1]) * w
            if cx and r.random() < 0.3 and k != "raw":
                im[i, i], re[i, i] = re[i, i], im[i, i]
        if r.random() < 0.6:
            q = list(range(n))
            r.shuffle(q)
            re, im = re[q], im[q]
        return re, im

    def o_inv(self):
        r = self.rng
        n = self.n
        for _ in range(5):
            re, im = self.invertible(n, self.pr >= 3)
            z = re + 1j * im
            if abs(np.linalg.det(z)) > 0.3 and np.linalg.cond(z) < 300 and np.abs(np.linalg.inv(z)).max() < 50:
                break
        else:
            return False
        a = self.o_imp(given=(re, im), t=0, m=n)
        if a is False or self.H[a].tight:
            return False
        self.emit("inv", a)
        return True

    # ---- blocks and graphs --------------------------------------
    def block(self, A, kmax=None):
        """Position and size of a square block; block storage moves whole blocks."""
        r = self.rng
        n = A.n
        if A.ty != ELLBLOCK:
            k = r.randint(1, n) if r.random() < 0.8 else n
            if kmax:
                k = min(k, kmax)
            return r.randint(0, n - k), r.randint(0, n - k), k
        if BLK:
            return 0, 0, n
        nf = n // BD
        if r.random() < 0.4 or nf == 0:
            a = r.randint(0, (n - 1) // BD)
            return a * BD, a * BD, n - a * BD
        c = r.randint(1, nf)
        return BD * r.randint(0, nf - c), BD * r.randint(0, nf - c), c * BD

    def o_extract(self):
        h, a = self.free_handle(), self.pick()
        if h is None or a is None:
            return False
        A = self.H[a]
        if A.zs and A.tight or BLK and A.ty == ELLBLOCK:
            return False
        i, j, k = self.block(A)
        m = k
        if A.ty == ELLPACK and (self.over or self.rng.random() < 0.2):
            m = self.rng.randint(1, k)
        X = Mx(A.ty, A.pr, k, m, A.md, A.re[i:i + k, j:j + k].copy(), A.im[i:i + k, j:j + k].copy(), A.fuzzy, A.zs)
        if A.zs and m < k or not self.fit(X, X.nz(), A):
            return False
        self.emit("extract", h, a, i, j, k, m)
        self.put(h, X)
        return h

    def o_assign(self):
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        i, j, k = self.block(A)
        b = self.pick(lambda B: B.ty == A.ty and B.pr == A.pr and B.n == k)
        if b is None:
            b = self.o_imp(ty=A.ty, pr=A.pr, n=k, t=0) if A.ty != ELLBLOCK else None
            if b is None or b is False:
                return False
        if a == b:
            return False
        B = self.H[b]
        if (A.zs or B.zs) and A.tight:
            return False
        re, im = A.re.copy(), A.im.copy()
        re[i:i + k, j:j + k] = B.re
        im[i:i + k, j:j + k] = B.im
        X = A.like(re, im, B.fuzzy, B.zs)
        if not self.fit(A, X.nz() | (A.nz() if A.ty == ELLBLOCK else X.nz()), A, B):
            return False
        self.emit("assign", a, b, i, j)
        self.put(a, X)
        return True

    def idx(self, n, k=None):
        q = list(range(n))
        self.rng.shuffle(q)
        return q[:k or self.rng.randint(1, n)]

    def o_m2s(self):
        a = self.pick(lambda X: X.ty == ELLPACK)
        if a is None:
            return False
        A = self.H[a]
        x = self.idx(A.n)
        k = len(x)
        b = self.o_imp(ty=DENSE, pr=A.pr, n=k, t=0)
        if b is False:
            return False
        B = self.H[b]
        self.emit("m2s", a, b, k, *x)
        self.put(b, Mx(DENSE, A.pr, k, k, B.md, A.re[np.ix_(x, x)].copy(), A.im[np.ix_(x, x)].copy(), A.fuzzy, A.zs))
        return True

    def o_s2m(self):
        b = self.pick(lambda X: X.ty == ELLPACK)
        if b is None:
            return False
        B = self.H[b]
        a = self.pick(lambda X: X.ty == DENSE and X.pr == B.pr and X.n <= B.n)
        if a is None:
            a = self.o_imp(ty=DENSE, pr=B.pr, n=self.rng.randint(1, B.n), t=0)
            if a is False:
                return False
        A = self.H[a]
        x = self.idx(B.n, A.n)
        ll = self.rng.randint(1, len(x))
        t = self.t()
        re, im = B.re.copy(), B.im.copy()
        for q in range(ll):
            re[x[q]] = 0
            im[x[q]] = 0
            for c in range(len(x)):
                re[x[q], x[c]] = A.re[q, c]
                im[x[q], x[c]] = A.im[q, c]
        X = B.like(re, im, A.fuzzy or t > 0)
        if not self.fit(B, X.nz(), A, B):
            return False
        self.emit("s2m", a, b, len(x), ll, t, *x)
        self.put(b, X)
        return True

    def o_halo(self):
        a = self.pick(lambda X: X.ty == ELLPACK and not X.zs)
        if a is None:
            return False
        A = self.H[a]
        g = -1
        if self.rng.random() < 0.6:
            g = self.pick(lambda X: X.ty == ELLPACK and not X.zs and X.n == A.n and X.pr == A.pr)
        nodes = self.idx(A.n, self.rng.randint(1, max(1, A.n // 2)))
        if self.rng.random() < 0.3:
            nodes = sorted(nodes)
        self.emit("halo", a, g, self.rng.randint(0, 1), len(nodes), *nodes)
        return True

    def o_adj(self):
        a = self.pick(lambda X: X.ty == ELLPACK and not X.zs)
        if a is None:
            return False
        A = self.H[a]
        self.emit("adj", a, self.rng.randint(0, 1), A.n * A.n)
        return True

    def o_adjg(self):
        a = self.pick(lambda X: X.ty == ELLPACK and not X.zs)
        if a is None:
            return False
        A = self.H[a]
        x = [q + 1 for q in self.idx(A.n)]
        if self.rng.random() < 0.6:
            x.sort()
        self.emit("adjg", a, len(x), self.rng.randint(0, 1), A.n * A.n, *(x + [A.n + 1]))
        return True

    def o_group(self):
        h = self.free_handle()
        a = self.pick(lambda X: X.ty == ELLPACK and not X.zs)
        if a is None or h is None:
            return False
        A = self.H[a]
        ng = self.rng.randint(1, A.n)
        x = [1] + sorted(self.rng.sample(range(2, A.n + 1), ng - 1)) + [A.n + 1]
        self.emit("group", h, a, self.t(), ng, *x)
        self.put(h, Mx(A.ty, A.pr, ng, ng, A.md, np.ones((ng, ng), dtype=np.int64), None, True))
        return h

    # ---- permutations and triangles -----------------------------
    def o_reorder(self):
        a = self.pick(lambda X: X.ty in (DENSE, ELLPACK))
        if a is None:
            return False
        A = self.H[a]
        x = self.idx(A.n, A.n)
        re, im = np.zeros_like(A.re), np.zeros_like(A.im)
        re[np.ix_(x, x)] = A.re
        im[np.ix_(x, x)] = A.im
        self.emit("reorder", a, *x)
        self.put(a, A.like(re, im))
        return True

    def o_breorder(self):
        a = self.pick(lambda X: X.ty == ELLBLOCK and X.n % BD == 0 and not BLK)
        if a is None:
            return False
        A = self.H[a]
        nb = A.n // BD
        b = self.idx(nb, nb)
        x = [b[i // BD] * BD + i % BD for i in range(A.n)]
        re, im = np.zeros_like(A.re), np.zeros_like(A.im)
        re[np.ix_(x, x)] = A.re
        im[np.ix_(x, x)] = A.im
        self.emit("breorder", a, nb, *b)
        self.put(a, A.like(re, im))
        return True

    def mirror(self, a, lower, conj):
        A = self.H[a]
        re, im = A.re.copy(), A.im.copy()
        k = np.tril_indices(A.n, -1) if lower else np.triu_indices(A.n, 1)
        re.T[k] = A.re[k]
        im.T[k] = -A.im[k] if conj else A.im[k]
        return A.like(re, im)

    def o_adjung(self):
        a = self.pick(lambda X: X.ty in (DENSE, ELLPACK))
        if a is None:
            return False
        A = self.H[a]
        lower = self.rng.randint(0, 1)
        X = self.mirror(a, lower, True)
        if A.zs and A.tight or not self.fit(A, X.nz() | A.nz()):
            return False
        self.emit("adjung", a, lower)
        self.put(a, X)
        return True

    def o_trtri(self):
        a = self.pick(lambda X: X.ty == DENSE)
        if a is None:
            return False
        lower = self.rng.randint(0, 1)
        X = self.mirror(a, lower, False)
        self.emit("trtri", a, lower)
        self.put(a, X)
        return True

    # ---- files --------------------------------------------------
    def o_write(self):
        a = self.pick()
        if a is None:
            return False
        f = self.rng.randrange(4)
        self.emit("write", a, f)
        A = self.H[a]
        self.F[f] = (A.n, A.cx, A.re.copy(), A.im.copy(), A.fuzzy, A.zs)
        return True

    def o_read(self):
        r = self.rng
        if not self.F:
            return False
        f = r.choice(list(self.F))
        n, cx, re, im, fz, zs = self.F[f]
        a = self.pick(lambda X: X.n == n and X.cx == cx and np.abs(re).max() <= self.lim(X.pr) and np.abs(im).max() <= self.lim(X.pr))
        if a is None:
            return False
        A = self.H[a]
        X = Mx(A.ty, A.pr, n, A.m, A.md, re.copy(), im.copy(), fz, zs)
        if zs and A.tight or not self.fit(A, X.nz(), Mx(A.ty, A.pr, n, A.m, A.md, re, im, fz, zs)):
            return False
        self.emit("read", a, f)
        self.put(a, X)
        return True

    def o_mkfile(self):
        r = self.rng
        n, cx = self.n, self.pr >= 3
        re, im = self.matrix(n, cx, pr=self.pr)
        es = [(i, j) for i in range(n) for j in range(n) if re[i, j] or im[i, j]]
        r.shuffle(es)
        f = r.randrange(4)
        self.emit("mkfile", f, int(cx), n, len(es), *[x for i, j in es for x in (i + 1, j + 1, int(re[i, j]), int(im[i, j]))])
        self.F[f] = (n, cx, re, im, False, False)
        return True

    def o_null(self):
        self.emit("null")
        return True

    def o_rand(self):
        h = self.free_handle()
        if h is None:
            return False
        r, n = self.rng, self.n
        kind = 0 if BLK and self.ty == ELLBLOCK else r.randint(0, 1)
        m = r.randint(1, n) if r.random() < 0.7 else n
        self.emit("rand", kind, h, self.ty, self.pr, n, m, self.md)
        if kind:
            i, j = np.indices((n, n))
            self.put(h, Mx(self.ty, self.pr, n, m, self.md, ((j >= i - m // 2) & (j < i - m // 2 + m)).astype(np.int64)))
        elif self.ty == DENSE or (m == n and self.ty == ELLBLOCK and n <= 4):
            self.put(h, Mx(self.ty, self.pr, n, m, self.md, np.ones((n, n), dtype=np.int64), None, True))
        else:                   # which columns were drawn is not known here
            self.emit("views", h)
            self.emit("clear", h)
            self.put(h, Mx(self.ty, self.pr, n, m, self.md, np.zeros((n, n), dtype=np.int64)))
        return h

    # ------------------------------------------------------------ invalid requests
    def invalid(self):
        """One request that cannot be carried out; it ends the program."""
        r = self.rng
        a = self.pick()
        if a is None:
            return False
        A = self.H[a]
        n = A.n
        k = r.choice(["getel", "getrow", "tracemult", "copyn", "copyty", "absent", "absent", "absent2", "lacks", "lacks", "lacks", "badtype",
                      "badprec", "badfile", "badfile", "nofile", "badindex", "sing"])
        out = r.choice([-1, n, n + 1, n + 7, -3])
        L = []
        fh = self.free_handle()
        if fh is None:
            return False
        if k == "getel":
            i, j = (out, r.randrange(n)) if r.random() < 0.5 else (r.randrange(n), out)
            L = ["getel %d %d %d" % (a, i, j)]
        elif k == "getrow":
            L = ["getrow %d %d" % (a, out)]
        elif k in ("tracemult", "copyn"):
            if BLK and A.ty == ELLBLOCK:
                return False        # the block sizes in use describe matrices of one size only
            b = self.pick(lambda B: B.ty == A.ty and B.pr == A.pr and B.n != n)
            if b is None:
                b = self.o_imp(ty=A.ty, pr=A.pr, n=n + r.choice([1, 2, -1] if n > 1 else [1, 2]), t=0)
                if b is False:
                    return False
            L = ["%s %d %d" % ("tracemult" if k == "tracemult" else "copy", a, b)]
        elif k == "copyty":
            b = self.pick(lambda B: B.ty != A.ty and B.pr == A.pr and B.n == n)
            if b is None:
                b = self.o_imp(ty=r.choice([t for t in (1, 2, 3, 4) if t != A.ty]), pr=A.pr, n=n, t=0, m=n)
                if b is False:
                    return False
            L = ["copy %d %d" % (a, b)]
        elif k == "absent":
            g = fh
            o = r.choice(["trace", "sumsq", "fnorm", "gersh", "tr", "thr", "clear", "getrow", "getdiag", "write", "inv", "addid", "sai",
                          "offdiag", "spars", "copynew", "trnew", "thrnew", "conv"])
            h2 = [h for h in range(NH) if self.H[h] is None and h != g]
            if not h2:
                return False
            h2 = h2[0]
            L = [{"thr": "thr %d 2" % g, "getrow": "getrow %d 0" % g, "write": "write %d 0" % g, "addid": "addid %d 2 0" % g,
                  "sai": "sai %d 2 2 0" % g, "offdiag": "offdiag %d 0" % g, "spars": "spars %d 0" % g, "copynew": "copynew %d %d" % (h2, g),
                  "trnew": "trnew %d %d" % (h2, g), "thrnew": "thrnew %d %d 2" % (h2, g),
                  "conv": "conv %d %d %d %d %d 0" % (h2, g, A.ty, A.pr, n)}.get(o, "%s %d" % (o, g))]
        elif k == "absent2":
            L = [r.choice(["add %d %d 2 2 0", "mulab %d %d 0", "tracemult %d %d", "sumab %d %d 2 0", "sumsq2 %d %d 2 2 0"]) % (fh, a)]
            if L[0].startswith("mulab"):
                L = ["mulab %d %d %d 0" % (fh, a, a)]
        elif k == "lacks":
            c = []
            if A.ty == CSR:
                c += ["addnorm %d %d 2 2 0" % (a, a), "fnorm2 %d %d" % (a, a), "reorder %d %s" % (a, " ".join(str(x) for x in range(n)))]
            if A.ty == ELLBLOCK:
                c += ["bw %d" % a, "sumsqsub %d 1" % a, "gershp %d 1" % a, "fnorm2 %d %d" % (a, a)]
            if A.ty in (ELLBLOCK, CSR):
                c += ["adjung %d 0" % a]
            if A.ty != DENSE:
                c += ["trtri %d 0" % a]
            if A.ty != ELLPACK:
                c += ["adj %d 0 %d" % (a, n * n), "group %d %d 0 1 1 %d" % (fh, a, n + 1), "m2s %d %d 1 0" % (a, a), "halo %d %d 0 1 0" % (a, a),
                      "s2m %d %d 1 1 0 0" % (a, a), "adjg %d 1 0 %d 1 %d" % (a, n * n, n + 1)]
            if not c:
                return False
            L = [r.choice(c)]
        elif k == "badtype":
            L = ["%s %d %d %d %d %d 0" % (r.choice(["zero", "ident", "noinit"]), fh, r.choice([0, 6, 9]), A.pr, n, n)]
        elif k == "badprec":
            L = ["%s %d %d %d %d %d 0" % (r.choice(["zero", "ident"]), fh, A.ty, r.choice([0, 5, 7]), n, n)]
        elif k == "badfile":
            L = ["badfile 0 %d" % r.randint(0, 2), "read %d 0" % a]
        elif k == "nofile":
            f = [x for x in range(4) if x not in self.F]
            if not f:
                return False
            L = ["read %d %d" % (a, f[0])]
        elif k == "badindex":
            m = n + 1
            L = ["mkfile 0 %d %d 1 %d %d 3 0" % (int(A.cx), m, m, r.randint(1, m)), "read %d 0" % a]
        elif k == "sing":
            if A.tight:
                return False
            re, im = self.matrix(n, A.cx, np.ones((n, n), dtype=bool))
            q = r.randrange(n)
            if r.random() < 0.5:
                re[q], im[q] = 0, 0
            else:
                re[:, q], im[:, q] = 0, 0
            b = self.o_imp(ty=A.ty, pr=A.pr, n=n, given=(re, im), t=0, m=n)
            if b is False:
                return False
            L = ["inv %d" % b]
        for x in L:
            self.L.append(x)
        return True

    # ------------------------------------------------------------ multiply kernels
    def gemm(self, kind, pr, ta, tb, m, n, k, pad, al, be, nan):
        """One call of a multiply kernel with random contents."""
        r = self.rng
        cx = pr >= 3
        lda = max(1, k if ta else m) + pad[0]
        ldb = max(1, n if tb else k) + pad[1]
        ldc = max(1, m) + pad[2]
        cnt = lda * (m if ta else k) + ldb * (k if tb else n) + ldc * n
        x = [r.choice([0, r.randint(-9, 9)]) for _ in range(cnt * (2 if cx else 1))]
        return "gemm %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %s" % (
            kind, pr, ta, tb, m, n, k, lda, ldb, ldc, al[0], al[1] if cx else 0, be[0], be[1] if cx else 0, nan, " ".join(map(str, x)))

    def o_gemm(self):
        r = self.rng
        pr = r.choice(self.precs)
        al = r.choice([(2, 0), (2, 0), (0, 0), (-2, 0), (4, 0), (1, 0), (2, 2), (0, 2), (-3, 4)])
        be = r.choice([(0, 0), (0, 0), (2, 0), (2, 0), (-2, 0), (4, 0), (1, 0), (0, 2), (2, -2)])
        nan = int((be[0] == 0 and (be[1] == 0 or pr < 3)) and r.random() < 0.5)
        self.L.append(self.gemm(r.choice([0, 0, 0, 0, 1, 2]), pr, r.randrange(3), r.randrange(3), r.choice([0, 1, 1, 2, 3, 4, 5, 7, 9]),
                                r.choice([0, 1, 1, 2, 3, 4, 6, 8]), r.choice([0, 1, 1, 2, 3, 4, 5, 9]),
                                [r.choice([0, 0, 1, 2, 5]) for _ in range(3)], al, be, nan))
        return True

    # ------------------------------------------------------------ program driver
    def program(self, tid):
        self.start(tid)
        r = self.rng
        ov, self.over = self.over, 0
        for _ in range(r.randint(1, 3)):
            self.o_imp()
        self.over = ov
        names = list(self.ops)
        w = [self.ops[k] for k in names]
        target = r.randint(*self.steps)
        made, tries = 0, 0
        while made < target and tries < target * 12:
            tries += 1
            k = r.choices(names, w)[0]
            self.doomed = False
            if getattr(self, "o_" + k)() is not False:
                made += 1
                if self.doomed:
                    break
            self.doomed = False
        if not self.doomed and self.bad and r.random() < self.bad:
            for _ in range(20):
                if self.invalid():
                    break
        self.L.append("E")
        return self.L
