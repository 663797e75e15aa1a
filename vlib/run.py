"""Building, driving and validating."""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
NPROC = 8


class CheckError(Exception):
    """The check itself failed: no answer."""


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


WRAPS = "-Wl,--wrap=backtrace,--wrap=exit,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=posix_memalign"


def mirror():
    """Copy the parts of /repo's working tree that the build reads; a file is rewritten only when its content changed, so
    that an incremental build never depends on the time stamps of /repo."""
    dst = os.path.join(BUILD, "src")
    os.makedirs(dst, exist_ok=True)
    want = set()
    for top in ("CMakeLists.txt", "cmake", "src", "scripts"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            want.add(top)
        for d, ds, fs in os.walk(p):
            ds[:] = [x for x in ds if not x.startswith(".")]
            for f in fs:
                want.add(os.path.relpath(os.path.join(d, f), REPO))
    for d, ds, fs in os.walk(dst):
        for f in fs:
            r = os.path.relpath(os.path.join(d, f), dst)
            if r not in want:
                os.remove(os.path.join(dst, r))
    for r in want:
        a, b = os.path.join(REPO, r), os.path.join(dst, r)
        with open(a, "rb") as f:
            x = f.read()
        if os.path.exists(b):
            with open(b, "rb") as f:
                if f.read() == x:
                    continue
        os.makedirs(os.path.dirname(b), exist_ok=True)
        with open(b, "wb") as f:
            f.write(x)
        shutil.copymode(a, b)
    return dst


def configure(name, env, args, target="bml"):
    """Build libbml from the mirrored tree in build/<name>."""
    src = mirror()
    b = os.path.join(BUILD, name)
    os.makedirs(b, exist_ok=True)
    e = dict(os.environ, **env)
    if not os.path.exists(os.path.join(b, "build.ninja")):
        rc, o = sh(["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DBML_TESTING=no",
                    "-DBLAS_VENDOR=OpenBLAS"] + args, env=e)
        if rc:
            shutil.rmtree(b, ignore_errors=True)
            raise CheckError("cmake failed\n" + o[-3000:])
    rc, o = sh(["ninja", "-C", b] + target.split(), env=e)
    if rc:
        raise CheckError("build failed\n" + "\n".join([x for x in o.splitlines() if "error" in x and " -D" not in x][:20]))
    return b


def build_omp(name="omp", args=()):
    """libbml with OpenMP from /repo's working tree, and the conformance driver."""
    b = configure(name, dict(CC="gcc", CXX="g++", FC="gfortran"), ["-DBML_OPENMP=yes"] + list(args))
    drv = os.path.join(b, "drv")
    src = [os.path.join(VERIF, "drv", f) for f in ("drv.c", "memwrap.c")]
    rc, o = sh(["gcc", "-g", "-O1", "-fopenmp", "-w", "-I" + BUILD + "/src/src/C-interface", "-I" + VERIF + "/drv", "-DBML_COMPLEX",
                "-D_DEFAULT_SOURCE"] + src + ["-o", drv, WRAPS, b + "/src/libbml.a", "-lopenblas", "-lm", "-lpthread"])
    if rc:
        raise CheckError("driver build failed\n" + o[-3000:])
    return drv


def build_fortran():
    """libbml with its Fortran interface, and the driver that calls it through Fortran."""
    b = configure("fort", dict(CC="gcc", CXX="g++", FC="gfortran"), ["-DBML_OPENMP=yes"], "bml bml_fortran")
    drv, d = os.path.join(b, "drv"), os.path.join(VERIF, "drv")
    with open(d + "/fshim.f90.in") as f:
        head, rest = f.read().split("!TYPED\n")
    typed, tail = rest.split("!END\n")
    for c, t in (("s", "real(c_float)"), ("d", "real(c_double)"), ("c", "complex(c_float_complex)"), ("z", "complex(c_double_complex)")):
        head += typed.replace("@S@", c).replace("@T@", t)
    with open(b + "/fshim.f90", "w") as f:
        f.write(head + tail)
    for cmd in (["gfortran", "-c", "-g", "-O1", "-ffree-line-length-none", "-I" + b + "/src/Fortran-interface", "-J" + b, b + "/fshim.f90", "-o", b + "/fshim.o"],
                ["gcc", "-c", "-g", "-O1", "-fopenmp", "-w", "-I" + BUILD + "/src/src/C-interface", "-I" + d, "-DBML_COMPLEX", "-DDRV_FORTRAN", "-D_DEFAULT_SOURCE",
                 d + "/drv.c", "-o", b + "/drv.o"],
                ["gcc", "-c", "-g", "-O1", "-w", "-I" + d, "-D_DEFAULT_SOURCE", d + "/memwrap.c", "-o", b + "/memwrap.o"],
                ["gcc", "-fopenmp", b + "/drv.o", b + "/memwrap.o", b + "/fshim.o", "-o", drv, WRAPS, b + "/src/libbml_fortran.a", b + "/src/libbml.a",
                 "-lgfortran", "-lopenblas", "-lm", "-lpthread"]):
        rc, o = sh(cmd)
        if rc:
            raise CheckError("Fortran driver build failed\n" + o[-3000:])
    return drv


def build_sched():
    """The library compiled with instrumented memory accesses, linked with the controlled OpenMP runtime."""
    b = configure("tsan", dict(CC="gcc", CXX="g++", FC="gfortran"),
                  ["-DBML_OPENMP=yes", "-DCMAKE_C_FLAGS=-fsanitize=thread", "-DCMAKE_Fortran_FLAGS="])
    lib, drv, d = os.path.join(b, "libbml_s.a"), os.path.join(b, "drv"), os.path.join(VERIF, "drv")
    inc = ["-g", "-w", "-I" + BUILD + "/src/src/C-interface", "-I" + d, "-D_DEFAULT_SOURCE", "-DBML_COMPLEX"]
    for cmd in (["objcopy"] + ["--redefine-sym=%s=omps_%s" % (x, x) for x in ("memcpy", "memset", "memmove")] + [b + "/src/libbml.a", lib],
                ["gcc", "-c", "-O2"] + inc + [d + "/ompshim.c", "-o", b + "/ompshim.o"],
                ["gcc", "-c", "-O1", "-fopenmp"] + inc + [d + "/drv.c", "-o", b + "/drv.o"],
                ["gcc", "-c", "-O1"] + inc + [d + "/memwrap.c", "-o", b + "/memwrap.o"],
                ["gcc", b + "/drv.o", b + "/memwrap.o", b + "/ompshim.o", "-o", drv, WRAPS, lib, "-lopenblas", "-lm", "-lpthread"]):
        rc, o = sh(cmd)
        if rc:
            raise CheckError("controlled driver build failed\n" + o[-3000:])
    return drv


def build_mpi():
    """libbml with MPI, and the driver whose ranks are processes under our own message layer."""
    inc = "/usr/lib/x86_64-linux-gnu/openmpi/include"
    b = configure("mpi", dict(CC="mpicc", CXX="mpic++", FC="mpifort"),
                  ["-DBML_OPENMP=no", "-DBML_MPI=yes", "-DBML_SCALAPACK=yes", "-DSCALAPACK_LIBRARIES=scalapack-openmpi.so",
                   "-DBML_MPIEXEC_EXECUTABLE=/usr/bin/mpiexec", "-DBML_MPIEXEC_NUMPROCS=4"])
    drv, d = os.path.join(b, "drv"), os.path.join(VERIF, "drv")
    rc, o = sh(["gcc", "-g", "-O1", "-w", "-I" + BUILD + "/src/src/C-interface", "-I" + d, "-I" + inc, "-I" + inc + "/openmpi", "-DBML_COMPLEX",
                "-DBML_USE_MPI", "-DDRV_SHIM", "-D_DEFAULT_SOURCE"] + [d + "/" + f for f in ("drv.c", "memwrap.c", "mpishim.c", "mpisym.c")] +
               ["-o", drv, WRAPS, b + "/src/libbml.a", "-lopenblas", "-lm", "-lpthread"])
    if rc:
        raise CheckError("driver build failed\n" + o[-3000:])
    return drv


def omplogs(work):
    """Region records of the last drive() under the controlled runtime."""
    out = []
    for k in range(NPROC):
        p = os.path.join(work, "o%d.ndjson.omp" % k)
        if os.path.exists(p):
            with open(p) as f:
                out += f.read().splitlines()
    return out


class Traces(dict):
    """Events by program; skipped: programs that were not run because too many before them did not end."""

    def __init__(self, *a):
        super().__init__(*a)
        self.skipped = set()


def drive(drv, programs, work, env=None, timeout=60):
    """Run programs (lists of lines) in NPROC driver processes; returns the events of every trace."""
    os.makedirs(work, exist_ok=True)
    shards = [programs[k::NPROC] for k in range(NPROC)]
    e = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false", OMP_NUM_THREADS="2",
             DRV_TIMEOUT=str(timeout))
    e.update(env or {})

    def one(k):
        if not shards[k]:
            return []
        pf, of = os.path.join(work, "p%d" % k), os.path.join(work, "o%d.ndjson" % k)
        tmp = os.path.join(work, "tmp%d" % k)
        os.makedirs(tmp, exist_ok=True)
        if os.path.exists(of):
            os.remove(of)
        ee = dict(e, DRV_TMP=tmp, TMPDIR=tmp)
        if "DRV_SCHED" in ee:
            ee["DRV_OMPLOG"] = of + ".omp"
            if os.path.exists(of + ".omp"):
                os.remove(of + ".omp")
        res, left = [], shards[k]
        while left:
            with open(pf, "w") as f:
                for p in left:
                    f.write("\n".join(p) + "\n")
            p = subprocess.run([drv, pf, of], env=ee, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            with open(of) as f:
                got = [x for x in f.read().split("\n") if x.endswith("}")]
            res += got
            if not p.returncode:
                break
            # the code under test brought the driver itself down: that is a failure of the program it was at
            seen = {json.loads(x)["t"] for x in got}
            at = max([i for i, q in enumerate(left) if int(q[0].split()[1]) in seen], default=-1) + 1
            if p.returncode > 0 or at >= len(left):
                raise CheckError("driver failed rc=%d %s" % (p.returncode, p.stdout[-2000:]))
            res.append('{"t":%d,"op":"crash","x":"crash","a":[%d],"r":[],"z":0,"live":[],"d":[]}' % (int(left[at][0].split()[1]), -p.returncode))
            left = left[at + 1:]
            os.remove(of)
        shutil.rmtree(tmp, ignore_errors=True)
        return res

    with ThreadPoolExecutor(NPROC) as ex:
        outs = list(ex.map(one, range(NPROC)))
    traces = Traces()
    for o in outs:
        for line in o:
            ev = json.loads(line)
            if ev["op"] == "skip":
                traces.skipped.add(ev["t"])
                continue
            traces.setdefault(ev["t"], []).append(line)
    return traces


def tlc(spec, cfg, env, workdir, workers=NPROC, timeout=800, extra=(), heap="6g"):
    meta = os.path.join(workdir, "tlcmeta-%d-%d" % (os.getpid(), time.monotonic_ns()))
    e = dict(os.environ, **env)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [spec]
    try:
        p = subprocess.run(cmd, env=e, cwd=os.path.join(VERIF, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + spec)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(o):
    import re
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


SKIPPED = []


def validate(traces, work, spec="Trace.tla", cfg="Trace.cfg", tag="", heap="6g", timeout=800, workers=NPROC, env=None):
    """Check recorded traces against the trace specification; returns (accepted ids, rejected ids, states, transitions)."""
    lf, xf = os.path.join(work, "log%s.ndjson" % tag), os.path.join(work, "idx%s.ndjson" % tag)
    pos = 0
    with open(lf, "w") as f, open(xf, "w") as x:
        for t, evs in traces.items():
            f.write("\n".join(evs) + "\n")
            x.write(json.dumps({"t": t, "a": pos + 1, "b": pos + len(evs)}) + "\n")
            pos += len(evs)
    try:
        limit = min(timeout, 120 + 0.01 * pos) if spec == "Trace.tla" else timeout
        rc, o = tlc(spec, cfg, dict(env or {}, TRACE=lf, INDEX=xf), work, heap=heap, timeout=limit, workers=workers)
    except CheckError:      # after an arithmetic overflow TLC may spend very long on the description of the error
        if spec != "Trace.tla":
            raise
        rc, o = 75, "overflow"
    if rc == 75 and len(traces) > 1:
        # a value left the range of TLC's integers: set the runs concerned aside
        ts = list(traces)
        acc, rej, d, g = set(), [], 0, 0
        for half in (ts[:len(ts) // 2], ts[len(ts) // 2:]):
            a, r, x, y = validate({t: traces[t] for t in half}, work, spec, cfg, tag, heap, timeout, workers, env)
            acc |= a
            rej += r
            d, g = d + x, g + y
        return acc, rej, d, g
    if rc == 75 and "verflow" in o:
        t = list(traces)[0]
        print("note: run %d set aside: integer range of TLC exceeded" % t)
        SKIPPED.append(t)
        if len(SKIPPED) > 20:
            raise CheckError("too many runs outside the integer range")
        return {t}, [], 0, 0
    if rc != 0:
        raise CheckError("TLC failed (rc %d) on %s\n%s" % (rc, spec, o[-4000:]))
    acc = set()
    for line in o.splitlines():
        if line.startswith('<<"ACC", '):
            acc.add(int(line[9:].rstrip(">").strip()))
    g, d = stats(o)
    return acc, [t for t in traces if t not in acc], d, g


def depth(evs, work, spec="Trace.tla", cfg="Trace.cfg", env=None):
    """How many events of one rejected trace the specification explains (re-validates it alone)."""
    t = json.loads(evs[0])["t"]
    lo, hi = 0, len(evs)
    acc, rej, _, _ = validate({t: evs}, work, spec, cfg, tag="1", workers=1, env=env)
    if acc:
        return None
    while hi - lo > 1:
        mid = (lo + hi) // 2
        a, _, _, _ = validate({t: evs[:mid]}, work, spec, cfg, tag="1", workers=1, env=env)
        if a:
            lo = mid
        else:
            hi = mid
    return lo


def scratch():
    d = os.path.join(BUILD, "scratch")
    os.makedirs(d, exist_ok=True)
    return d
