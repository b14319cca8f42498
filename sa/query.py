"""Syntax-tree queries (clang-query) over every unit of the repository, for code that never reaches the IR:
templates nobody instantiates."""
import hashlib, os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import core


def match(matchers, config, only=None):
    """matchers: name -> clang-query matcher; returns name -> sorted list of 'file:line'"""
    units = core.sources()
    inst = os.path.join(core.VERIF, "inst")
    units += sorted(os.path.join(inst, f) for f in os.listdir(inst) if f.endswith(".cpp"))
    if only:
        units = [u for u in units if re.search(only, u)]
    flags = ["-std=gnu++17", "-w", "-D_USE_MATH_DEFINES", "-DNDEBUG"] + core.CONFIGS[config] + \
            ["-I", core.REPO + "/include", "-I", core.REPO + "/src"]
    names = sorted(matchers)
    with tempfile.NamedTemporaryFile("w", suffix=".q", delete=False) as f:
        f.write("set traversal AsIs\nset output diag\nset bind-root true\n")
        for n in names:
            f.write("match %s\n" % matchers[n].replace("REPO", core.REPO.rstrip("/")))
        qf = f.name

    tu = os.environ.get("K52SA_TUCACHE")
    hdr = core.headers_hash() if tu else ""

    def run(u):
        if tu:
            k = os.path.join(tu, hashlib.sha256((hdr + u + repr(flags) + open(qf).read()).encode() + open(u, "rb").read()).hexdigest()[:24] + ".q")
            if os.path.exists(k):
                return (u, 0, open(k).read(), "")
            r = run1(u)
            if r[1] == 0 and "Error while processing" not in r[3]:
                os.makedirs(tu, exist_ok=True)
                open(k, "w").write(r[2])
            return r
        return run1(u)

    def run1(u):
        r = subprocess.run(["clang-query", "-f", qf, u, "--"] + flags, capture_output=True, text=True)
        return u, r.returncode, r.stdout, r.stderr
    res = {n: set() for n in names}
    try:
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for u, rc, out, err in ex.map(run, units):
                if rc or "Error while processing" in err or out.count(" match") < len(names):
                    raise core.AnalysisError("clang-query failed on %s: %s" % (u, (out + err)[-800:]))
                k = 0
                for line in out.splitlines():
                    if re.match(r"^\d+ match(es)?\.$", line):
                        k += 1
                        continue
                    m = re.match(r"^(.*?):(\d+):\d+: note: \"root\" binds here", line)
                    if m:
                        p = os.path.abspath(m.group(1))
                        res[names[k]].add("%s:%s" % (os.path.relpath(p, core.REPO), m.group(2)))
    finally:
        os.unlink(qf)
    return {n: sorted(v) for n, v in res.items()}
