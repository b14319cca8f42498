"""FFT plans are made and destroyed only under one process-wide lock."""
import os, re
import core
from ir import ACCESSORS
from flow import explore, trace
from entries import is_entry
from locks import lock_step, apply
from parq import STD

EXPLANATION = """
Every library function that can create or destroy an FFT plan is flattened from every entry point that reaches it and walked
with the set of mutexes certainly held (scoped guards, direct lock/unlock, deferred and released guards; exception edges kept).
Rules: plan-under-lock (each planner call happens with a mutex exclusively held), process-wide (that mutex has static
storage, not a member, local or per-thread one), one-lock (some mutex is held at all of them), lock-balanced (no mutex is
held at any exit, by return or exception), no-self-deadlock (a mutex already held is never acquired again).
"""
TECHNIQUE = "interprocedural must-hold lockset dataflow with exception edges"
LEVEL_NOTE = """Sound for all schedules: the lock is identified by its static storage, and every planner call in the library sources is
covered, whatever path or thread reaches it. Client code calling the FFT planner itself is outside the library."""
ASSUMPTIONS = ["the mutex classes of boost and std behave as documented", "planner functions do not throw"]
MINIMUM = {"plan-under-lock": 2, "process-wide": 2, "one-lock": 1, "lock-balanced": 2}
PLAN = re.compile(r"^fftw[fl]?_(plan_|destroy_plan|mpi_plan_|cleanup|forget_wisdom|import_|plan$)")


def UNITS():
    """the units that use the planner, and everything in their directories"""
    ds = set()
    for u in core.sources():
        if "fftw" in open(u, errors="replace").read():
            ds.add(os.path.dirname(os.path.relpath(u, core.REPO)).split("/")[1] if os.path.dirname(os.path.relpath(u, core.REPO)).count("/") else "")
    for d, _, fs in os.walk(os.path.join(core.REPO, "include")):
        for f in fs:
            if "fftw" in open(os.path.join(d, f), errors="replace").read():
                return r"."
    ds.discard("")
    return r"^src/(%s)/" % "|".join(sorted(ds | {"dsp"}))


UNIQ = [r"^std::(unique_ptr|__uniq_ptr_impl|__uniq_ptr_data|tuple|_Tuple_impl|_Head_base)<.*>::", r"std::(get|__get_helper)<"]
JOBS = [{"id": "f", "roots": [r"k52::"], "inline": ACCESSORS + UNIQ}]


def planner(i):
    return i.is_call() and i.callee and PLAN.match(i.callee)


def check(ck, prog):
    fns = [f for f in prog.jobs["f"] if any(planner(i) for i in f.calls())]
    ck.need(fns, "planner calls")
    entries = [f for f in fns if is_entry(prog, f.name)]
    ck.need(entries, "entry points that reach the planner")
    common = None
    seen = set()
    for fn in entries:
        w = prog.base(fn.name).replace("k52::dsp::", "")
        obs, exits, again, n = walk(prog, fn)
        ck.count("states", n)
        ck.count("entry_points")
        for i, sets in obs.items():
            seen.add(i.callee)
            where = "%s, %s at %s" % (w, i.callee, i.repo_loc)
            must = None
            for h in sets:
                s = {m for g, m, o in h if o}
                must = s if must is None else must & s
            ck.ob("plan-under-lock", where, bool(must), "the planner is called without holding a mutex", "plan-under-lock:%s:%s" % (w, i.callee))
            if must:
                st = {m for m in must if m[0] == "static"}
                unk = {m for m in must if m[0] == "unknown"}
                if not st and unk:
                    ck.count("undecided")
                    continue
                bad = sorted({m[0] for m in must})
                ck.ob("process-wide", where, bool(st), "the mutex held is a %s one, so other threads' planner calls are not excluded" % "/".join(bad),
                      "process-wide:%s:%s" % (w, i.callee))
                if st:
                    common = st if common is None else common & st
        bad = [(e, p) for e, p in exits]
        ck.ob("lock-balanced", w, not bad, "leaves with the planner mutex held: " + bad[0][1] if bad else "", "lock-balanced:" + w)
        ck.ob("no-self-deadlock", w, not again, "acquires a mutex it already holds at %s" % again[0].repo_loc if again else "", "no-self-deadlock:" + w)
    ck.ob("one-lock", "all planner calls", common is None or bool(common), "no single mutex is held at all planner calls", "one-lock")
    # a planner call only reachable from unanalysed functions
    covered = {i.id for f in entries for i in f.calls() if planner(i)}
    ck.fact("planner_functions", sorted(seen))


def walk(prog, fn):
    obs, again, bad = {}, [], []

    def step(i, h):
        if not i.is_call():
            return [("n", h)]
        ev = lock_step(prog, i, fn)
        if ev:
            h2, ag = apply(fn, h, ev)
            if ag and "recursive" not in (prog.callee_dem(i) or ""):
                again.append(i)
            r = [("n", h2)]
            if ev[0] in ("acquire", "mlock", "relock") and not i.get("nt"):
                r.append(("t", STD, h))
            return r
        if planner(i):
            obs.setdefault(i, set()).add(h)
            return [("n", h)]
        if i.callee and (i.callee.startswith(("fftw", "llvm.", "__cxa_")) or i.get("nt")):
            return [("n", h)]
        if not i.callee and "v" not in i.d and "fp" not in i.d:
            return [("n", h)]
        if i.get("nt"):
            return [("n", h)]
        return [("n", h), ("t", STD, h)]
    exits, n = explore(fn, frozenset(), step)
    for e in exits:
        if any(o for g, m, o in e[2] if m[0] == "static" or g == "direct"):
            bad.append((e, trace(e[3])))
    return obs, bad, again, n
