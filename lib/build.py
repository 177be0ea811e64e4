"""Builds the code under test from /repo's working tree, with the controllable MPI, into one shared
library that is loaded once per simulated process.  Object files are cached by content."""
import os, sys, glob, hashlib, subprocess, shutil, fcntl, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(ROOT, "build")
H = os.path.join(ROOT, "harness")
DEFS = ["-DLOCAL_ID_TYPE=int32_t", "-DLOCAL_ID_FTYPE=C_INT32_T", "-DHAS_PARMETIS", "-DHAS_ZOLTAN", "-DENGPAR_HAS_MALLINFO2"]
INC = ["pcu", "pcu/noto", "pcu/reel", "support", "agi", "partition", "partition/Diffusive", "partition/Diffusive/src",
       "partition/Multilevel", "partition/Metrics", "partition/Coloring", "interfaces"]
FLAGS = ["-O1", "-g1", "-fPIC", "-w", "-fno-strict-aliasing", "-fno-omit-frame-pointer",
         "-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"]   # an index outside a fixed-size array ends the process
WRAP = ["_ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE", "_ZN3agi6Ngraph7migrateEPNS_15WeightMigrationEPNS_15MigrationTimersE"]

def sources():
    pats = ["pcu/*.c", "pcu/noto/*.c", "pcu/reel/*.c", "support/*.cpp", "agi/*.cpp", "partition/*.cpp", "partition/*/*.cpp",
            "partition/*/src/*.cpp", "interfaces/binGraph.cpp", "interfaces/cengpar.cpp"]
    r = []
    for p in pats: r += sorted(glob.glob(os.path.join(REPO, p)))
    gen = os.path.join(REPO, "support", "engpar_version.cpp")   # written by cmake; absent from a fresh checkout
    if gen not in r:
        alt = os.path.join(OUT, "engpar_version.cpp")
        if not os.path.exists(alt): open(alt, "w").write('#include <engpar_version.h>\nconst char* engpar_version() { return "unknown"; }\n')
        r.append(alt)
    return [s for s in r if not s.endswith("_test.c")]

def headers_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(REPO)):
        if "/_build" in d or "/.git" in d or "/test" in d: continue
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".in")):
                h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    for f in sorted(glob.glob(os.path.join(H, "*.h")) + glob.glob(os.path.join(H, "fake", "*"))):
        h.update(open(f, "rb").read())
    h.update(" ".join(DEFS + FLAGS).encode())
    return h.hexdigest()

class BuildError(Exception): pass

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])

def build(verbose=False):
    """Returns the directory that holds the engine and the per-rank libraries."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hh = headers_hash()
        inc = ["-I" + os.path.join(H, "fake"), "-I" + H] + ["-I" + os.path.join(REPO, i) for i in INC] + ["-I/usr/include/trilinos"]
        srcs = sources() + [os.path.join(H, "driver.cpp")]
        jobs, objs = [], []
        for s in srcs:
            key = hashlib.sha256((hh + s).encode() + open(s, "rb").read()).hexdigest()[:32]
            o = os.path.join(OUT, "obj", key + ".o"); objs.append(o)
            if not os.path.exists(o):
                cc = ["gcc", "-std=gnu99"] if s.endswith(".c") else ["g++", "-std=c++11", "-fno-gnu-unique"]
                jobs.append((cc + FLAGS + DEFS + inc + ["-c", s, "-o", o + ".tmp"], o))
        # the Fortran interface and the shim that calls it
        fsrc = [os.path.join(REPO, "ftn", "engpar.f90"), os.path.join(H, "ftnshim.f90")]
        key = hashlib.sha256((hh + "ftn").encode() + b"".join(open(x, "rb").read() for x in fsrc)).hexdigest()[:32]
        fo = [os.path.join(OUT, "obj", key + x) for x in (".o", "s.o")]; objs += fo
        def fortran():
            if all(os.path.exists(x) for x in fo): return
            d = os.path.join(OUT, "mod"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            for x, o in zip(fsrc, fo):
                run(["gfortran", "-cpp", "-O1", "-g1", "-fPIC", "-w", "-ffree-line-length-none", "-J", d, "-I" + os.path.join(REPO, "agi")] + DEFS + ["-c", x, "-o", o + ".tmp"]); os.rename(o + ".tmp", o)
        ek = hashlib.sha256(hh.encode() + open(os.path.join(H, "fakempi.cpp"), "rb").read()).hexdigest()[:32]
        eng = os.path.join(OUT, "obj", "engine-" + ek)
        def one(j):
            run(j[0]); os.rename(j[1] + ".tmp", j[1])
        def engine():
            if os.path.exists(eng): return
            run(["g++", "-std=c++17", "-O2", "-g1", "-w", "-I" + os.path.join(H, "fake"), "-I" + H, os.path.join(H, "fakempi.cpp"), "-o", eng + ".tmp", "-rdynamic", "-ldl"])
            os.rename(eng + ".tmp", eng)
        # longest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0][-3]))
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(one, j) for j in jobs[:1]] + [ex.submit(engine), ex.submit(fortran)] + [ex.submit(one, j) for j in jobs[1:]]
            for f in fs: f.result()
        lk2 = hashlib.sha256((" ".join(objs) + ek).encode()).hexdigest()[:24]
        d = os.path.join(OUT, "lib-" + lk2)
        if not os.path.exists(os.path.join(d, "ok")):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            so = os.path.join(d, "r0.so")
            run(["g++", "-shared", "-o", so] + objs + ["-Wl,-Bsymbolic", "-Wl,-z,lazy"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-Wl,--wrap=" + w for w in ("malloc", "calloc", "realloc", "free")] + ["-lgfortran"])
            for i in range(1, 33): shutil.copy(so, os.path.join(d, "r%d.so" % i))
            shutil.copy(eng, os.path.join(d, "engine"))
            open(os.path.join(d, "ok"), "w").write("ok")
        # keep the cache small
        libs = sorted(glob.glob(os.path.join(OUT, "lib-*")), key=os.path.getmtime)
        os.utime(d)
        for x in libs[:-6]:
            if x != d: shutil.rmtree(x, ignore_errors=True)
        keep = set(objs)
        old = sorted((o for o in glob.glob(os.path.join(OUT, "obj", "*.o")) if o not in keep), key=os.path.getmtime)
        for o in old[:-400]: os.remove(o)
        return d

if __name__ == "__main__":
    import time; t = time.time()
    print(build(True), "%.1fs" % (time.time() - t))
