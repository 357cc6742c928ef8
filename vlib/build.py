"""Builds the code under test from /repo's current working tree, outside /repo.

Objects are cached by content (source, headers, flags) below /verif/.build, so nothing depends on time stamps, and a
changed file is always recompiled.
"""
import os, sys, glob, hashlib, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
CUDD = REPO + "/lib/cudd-3.0.0"
SRC = REPO + "/src"
HARNESS = VERIF + "/harness"

DEFS = ["-DUSE_CUDD", "-DNDEBUG", "-DHAVE_IEEE_754", "-DBSD", "-DSIZEOF_VOID_P=8", "-DSIZEOF_LONG=8",
        "-DCUDD_COMPILER_OPTIONS_SET"]
# config.h is generated by CUDD's configure and not tracked; harness/config holds a copy for this platform.
INC = ["-I" + HARNESS + "/config", "-I" + SRC, "-I" + CUDD] + \
      ["-I%s/%s" % (CUDD, d) for d in ("cudd", "mtr", "epd", "st", "util", "dddmp", "cplusplus")] + \
      ["-I" + SRC + "/BFAbstractionLibrary", "-I" + HARNESS]
SKIP = {"testcudd.c", "testextra.c", "testmtr.c", "testst.c", "cpu_stats.c", "testdddmp.c"}

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-g1"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash(which):
    h = hashlib.sha256()
    files = []
    for d in ("cudd", "mtr", "epd", "st", "util", "dddmp", "cplusplus"):
        files += glob.glob("%s/%s/*.h" % (CUDD, d)) + glob.glob("%s/%s/*.hh" % (CUDD, d))
    files += [HARNESS + "/config/config.h"]
    if which != "c":
        files += glob.glob(SRC + "/BFAbstractionLibrary/*.h")
    if which == "src":
        files += glob.glob(SRC + "/*.hpp") + glob.glob(SRC + "/*.h")
    if which == "harness":
        files += glob.glob(HARNESS + "/*.h") + glob.glob(SRC + "/*.hpp")
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        h.update(_read(f))
    return h.hexdigest()


def cudd_sources():
    r = []
    for d in ("cudd", "mtr", "epd", "st", "util", "dddmp"):
        r += [f for f in sorted(glob.glob("%s/%s/*.c" % (CUDD, d))) if os.path.basename(f) not in SKIP]
    return r


def bf_sources():
    return sorted(glob.glob(SRC + "/BFAbstractionLibrary/*.cpp"))


def compile_all(jobs):
    """jobs: list of (source, compiler, flags, headerkind); returns object paths"""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    hh = {}

    def one(job):
        src, cc, flags, kind = job
        key = hashlib.sha256()
        key.update((" ".join([cc] + flags) + "\0" + src + "\0" + hh[kind]).encode())
        key.update(_read(src))
        obj = "%s/obj/%s.o" % (BUILD, key.hexdigest()[:32])
        if not os.path.exists(obj):
            tmp = "%s.%d.%d.tmp.o" % (obj, os.getpid(), id(job))
            p = subprocess.run([cc, "-c", "-w", "-pipe", "-fPIC"] + flags + DEFS + INC + ["-o", tmp, src],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise BuildError("compiling %s failed:\n%s" % (src, p.stdout.decode(errors="replace")[-3000:]))
            os.rename(tmp, obj)
        return obj

    for j in jobs:
        if j[3] not in hh:
            hh[j[3]] = headers_hash(j[3])
    # big translation units first
    order = sorted(range(len(jobs)), key=lambda i: -(10 ** 9 if jobs[i][0].endswith("main.cpp") else os.path.getsize(jobs[i][0])))
    res = [None] * len(jobs)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futs = [(i, ex.submit(one, jobs[i])) for i in order]
        for i, f in futs:
            res[i] = f.result()
    return res


def link(name, objs, cc="g++", flags=()):
    key = hashlib.sha256((" ".join(objs) + cc + " ".join(flags)).encode()).hexdigest()[:24]
    out = "%s/bin/%s-%s" % (BUILD, name, key)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        p = subprocess.run([cc, "-o", tmp] + objs + list(flags), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, p.stdout.decode(errors="replace")[-3000:]))
        os.rename(tmp, out)
    return out


def jobs_for(variant):
    """(jobs, link flags, compiler)"""
    if variant == "slugs":
        cflags, cxx, main = ["-O1"], ["-O1", "-std=c++11"], ["-O0", "-std=c++11"]
        cc, cp, lf = "gcc", "g++", ["-static", "-Wl,--wrap,Cudd_Init"]
    elif variant == "slugs_asan":
        cflags, cxx, main = ["-O1"] + ASAN, ["-O1", "-std=c++11"] + ASAN, ["-O0", "-std=c++11"] + ASAN
        cc, cp, lf = "clang", "clang++", ASAN + ["-Wl,--wrap,Cudd_Init"]
    elif variant == "slugs_dyn":
        # for valgrind: allocations can only be tracked in a dynamically linked program
        cflags, cxx, main = ["-O1", "-g1"], ["-O1", "-g1", "-std=c++11"], ["-O0", "-g1", "-std=c++11"]
        cc, cp, lf = "gcc", "g++", ["-Wl,--wrap,Cudd_Init"]
    elif variant == "slugs_cov":
        c = ["--coverage", "-O0"]
        cflags, cxx, main = c, c + ["-std=c++11"], c + ["-std=c++11"]
        cc, cp, lf = "gcc", "g++", ["--coverage", "-Wl,--wrap,Cudd_Init"]
    elif variant.startswith("h_"):
        san = variant.endswith("_asan")
        name = variant[2:-5] if san else variant[2:]
        s = ASAN + ["-fno-sanitize=float-cast-overflow,signed-integer-overflow,shift"] if san else []
        cc, cp = ("clang", "clang++") if san else ("gcc", "g++")
        jobs = [(f, cc, ["-O1"] + s, "c") for f in cudd_sources()]
        jobs += [(f, cp, ["-O1", "-std=c++11"] + s, "bf") for f in bf_sources()]
        jobs.append((HARNESS + "/" + name + ".cpp", cp, ["-O1", "-g1", "-std=c++14"] + s, "harness"))
        return jobs, s + ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup"))], cp
    else:
        raise BuildError("unknown variant " + variant)
    jobs = [(f, cc, cflags, "c") for f in cudd_sources()]
    jobs += [(f, cp, cxx, "bf") for f in bf_sources()]
    for f in sorted(glob.glob(SRC + "/*.cpp")):
        jobs.append((f, cp, main if f.endswith("/main.cpp") else cxx, "src"))
    jobs.append((HARNESS + "/wrap_init.c", "gcc" if cc == "gcc" else "clang", ["-O1"], "c"))
    return jobs, lf, cp


def build(variant):
    jobs, lf, cp = jobs_for(variant)
    return link(variant, compile_all(jobs), cp, lf)


def prune(keep_bytes=3 << 30):
    """Drops the oldest objects when the cache grows too large."""
    fs = []
    for d in ("obj", "bin"):
        for f in glob.glob("%s/%s/*" % (BUILD, d)):
            try:
                st = os.stat(f)
                fs.append((st.st_atime, st.st_size, f))
            except OSError:
                pass
    tot = sum(f[1] for f in fs)
    for a, s, f in sorted(fs):
        if tot <= keep_bytes:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= s


if __name__ == "__main__":
    for v in sys.argv[1:]:
        print(v, build(v))
