"""Shared machinery: compile /repo to one LLVM module, flatten selected functions, load them."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("K52_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis could not give an answer (vanished anchor, front-end failure)."""


BASE_FLAGS = ("-std=gnu++17 -D_USE_MATH_DEFINES -DNDEBUG -O0 -Xclang -disable-O0-optnone -g "
              "-fno-discard-value-names -fstandalone-debug -flto -fwhole-program-vtables -emit-llvm -c -w").split()
CONFIGS = {
    "plain": ["-DBUILD_WITH_FFTW3"],
    "thread": ["-DBUILD_WITH_BOOST_THREAD", "-DBUILD_WITH_FFTW3"],
    "mpi": ["-DBUILD_WITH_BOOST_THREAD", "-DBUILD_WITH_FFTW3", "-DBUILD_WITH_MPI",
            "-I" + os.path.join(VERIF, "stubs")],
}


def tool():
    src = os.path.join(VERIF, "tool", "k52ir.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "k52ir-" + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), tmp], capture_output=True, text=True)
        if r.returncode or not os.path.exists(tmp):
            raise AnalysisError("cannot build k52ir: " + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


def sources():
    res = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        if "unit_tests" in d.split(os.sep):
            continue
        for f in sorted(fs):
            if f.endswith(".cpp"):
                res.append(os.path.join(d, f))
    return res


def tree_hash(config, only=None):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "inst"),
             os.path.join(VERIF, "stubs")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read())
    h.update(repr((BASE_FLAGS, CONFIGS[config], REPO, only)).encode())
    return h.hexdigest()[:20]


def headers_hash():
    h = hashlib.sha256()
    for r in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "stubs")):
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(".cpp"):
                    h.update(os.path.join(d, f).encode() + open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def build_module(workdir, config="thread", only=None):
    """Returns (bitcode path, list of units)."""
    srcs = sources()
    if not srcs:
        raise AnalysisError("no sources under %s/src" % REPO)
    insts = sorted(os.path.join(VERIF, "inst", f) for f in os.listdir(os.path.join(VERIF, "inst")) if f.endswith(".cpp"))
    units = srcs + insts
    if callable(only):
        only = only()
    if only:
        units = [u for u in srcs if re.search(only, os.path.relpath(u, REPO))]
        units += [u for u in insts if re.search(only, os.path.relpath(u, VERIF))]
        if not units:
            raise AnalysisError("no sources match " + only)
    cache = os.environ.get("K52SA_CACHE")
    if cache:
        cached = os.path.join(cache, "mod-%s-%s.bc" % (config, tree_hash(config, only)))
        if os.path.exists(cached):
            return cached, units
    flags = BASE_FLAGS + CONFIGS[config] + ["-I", REPO + "/include", "-I", REPO + "/src"]

    tu = os.environ.get("K52SA_TUCACHE")      # development only: objects of unchanged units
    hdr = headers_hash() if tu else ""

    def comp(iu):
        i, u = iu
        o = os.path.join(workdir, "%s%d.bc" % (config, i))
        if tu:
            o = os.path.join(tu, hashlib.sha256((hdr + u + repr(flags)).encode() + open(u, "rb").read()).hexdigest()[:24] + ".bc")
            if os.path.exists(o):
                return u, o, 0, ""
            os.makedirs(tu, exist_ok=True)
        r = subprocess.run(["clang++"] + flags + [u, "-o", o], capture_output=True, text=True)
        return u, o, r.returncode, r.stderr

    objs = []
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for u, o, rc, err in ex.map(comp, enumerate(units)):
            if rc:
                raise AnalysisError("cannot compile %s: %s" % (u, err[-3000:]))
            objs.append(o)
    out = os.path.join(workdir, config + ".all.bc")
    r = subprocess.run(["llvm-link"] + objs + ["-o", out], capture_output=True, text=True)
    if r.returncode:
        r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-link"] + objs + ["-o", out], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("llvm-link failed: " + r.stderr[-2000:])
    if cache:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(out, cached + ".tmp%d" % os.getpid())
        os.replace(cached + ".tmp%d" % os.getpid(), cached)
        return cached, units
    return out, units


def narrow(jobs, bc, jp, op):
    """replace the roots of jobs with a "having" pattern by the functions that reach a matching call through direct calls"""
    json.dump([], open(jp, "w"))
    r = subprocess.run([tool(), bc, jp, op, REPO, VERIF + "/inst"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("k52ir failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    j = json.load(open(op))
    dem = j["dem"]
    callers = {}
    for f, d in j["funcs"].items():
        for c in d.get("calls", []):
            callers.setdefault(c, set()).add(f)
    res = []
    for job in jobs:
        if "select" in job:
            names = sorted({dem.get(f, f) for f in job["select"](j)})
            job = dict(job, roots=["^" + re.sub(r"([][\\.^$*+?(){}|])", r"\\\1", n) + "$" for n in names] or ["^$"])
            job.pop("select")
            res.append(job)
            continue
        if "having" not in job:
            res.append(job)
            continue
        hit = [c for c in callers if re.search(job["having"], dem.get(c, c))]
        seen, st, level = set(), list(hit), {c: 0 for c in hit}
        opq = re.compile("|".join(job.get("opaque", []) or ["$^"]))
        while st:
            c = st.pop(0)
            for f in callers.get(c, ()):
                if f not in seen and level[c] < job.get("within", 99):
                    seen.add(f)
                    level[f] = level[c] + 1
                    if not opq.search(dem.get(f, f)):
                        st.append(f)
        names = [dem.get(f, f) for f in seen]
        names = sorted({n for n in names if any(re.search(r, n) for r in job["roots"])})
        job = dict(job, roots=["^" + re.sub(r"([][\\.^$*+?(){}|])", r"\\\1", n) + "$" for n in names])
        job.pop("having")
        job.pop("within", None)
        res.append(job)
    return res


def analyse(jobs, config="thread", only=None):
    """Runs the IR tool for the jobs and returns a Program."""
    from ir import Program
    wd = tempfile.mkdtemp(prefix="k52sa.")
    try:
        bc, units = build_module(wd, config, only)
        jp, op = os.path.join(wd, "jobs.json"), os.path.join(wd, "out.json")
        if any("having" in j or "select" in j for j in jobs):
            jobs = narrow(jobs, bc, jp, op)
        json.dump(jobs, open(jp, "w"))
        r = subprocess.run([tool(), bc, jp, op, REPO, VERIF + "/inst"], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("k52ir failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
        if r.stderr.strip():
            sys.stderr.write(r.stderr)
        return Program(json.load(open(op)), units)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
