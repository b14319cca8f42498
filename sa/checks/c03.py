"""A batch returns one result per task, in task order, only after all have finished."""
from ir import ACCESSORS
from flow import explore, trace
from val import addr, flows, key, cint
from sym import Counter, Lin, Sym, std_container_op, throw_only
from parq import queue_roles, is_perform, INTR, STD, OTHER

EXPLANATION = """
Every implementation of the batch operation (found through the virtual table of the pool interface) is flattened,
with the shared-queue operations left as events.  A symbolic counter computes, uniformly over all normally-returning
paths, how often each event happens as a linear function of the batch size (loop trip counts from induction variables,
iterator ranges and drained local queues).  Rules: count (performed, or submitted and awaited, exactly size(batch)
times), result-count (exactly size(batch) results), position (the slot a task's result goes to has the same index
as the task), slots-stable (the result vector is not changed between handing out slots and returning), failure-raises
(after a failed task no normal return is reachable without every slot having been tested), stores-result (the worker
stores what performing the task returned into the slot that came with that same task, before reporting it).
"""
TECHNIQUE = "symbolic event counting, induction-variable index matching and typestate dataflow on flattened code"
LEVEL_NOTE = """Decides the counting, index pairing and waiting structure for every batch size and schedule, given C01 and C02.
Loops whose trip count cannot be derived are listed as undecided, not alarmed. Concurrent batches on one pool
object are outside the property. The MPI pool is decided only by the thorough tier's stub configuration where applicable."""
ASSUMPTIONS = ["C01 and C02 hold", "one batch at a time per pool object"]
QOP = r"thread::ThreadSafeQueue<.*>::[~A-Za-z_]+\("
JOBS = [{"id": "batch", "roots": [r"::DoTasks\("], "opaque": [QOP], "inline": ACCESSORS},
        {"id": "w", "roots": [r"k52::parallel::"], "notroots": [QOP], "opaque": [QOP], "inline": ACCESSORS}]
MINIMUM = {"count": 2, "position": 2, "result-count": 2, "stores-result": 1, "failure-raises": 2}


def impls(prog):
    """batch implementations of the pool interface"""
    tid = next((k for k, c in prog.classes.items() if c["name"] == "k52::parallel::IWorkerPool"), None)
    slot = None
    if tid:
        for e in prog.classes[tid]["elems"]:
            if e["k"] == "f" and e["n"] == "DoTasks":
                slot = e.get("vidx")
    res = set()
    if slot is not None:
        for vt, off, fs in prog.vtables.get("_ZTSN3k528parallel11IWorkerPoolE", []):
            if slot < len(fs):
                res.add(fs[slot])
    return res


def check(ck, prog):
    names = impls(prog)
    fns = [f for f in prog.jobs["batch"] if f.name in names]
    ck.need(len(fns) >= 2, "batch implementations of the pool interface")
    layouts = []
    for fn in fns:
        if "mpi" in fn.dem.split("(")[0]:
            continue
        batch(ck, prog, fn, layouts)
    worker(ck, prog, layouts)


def batch(ck, prog, fn, layouts):
    roles = queue_roles(prog)
    where = prog.base(fn.name).replace("k52::parallel::", "")
    args = fn.d["args"]
    ck.need(args and args[0].get("sret"), "result vector of " + where)
    T, R = ("a2", 0), ("a0", 0)
    cop = std_container_op(prog, fn)
    spun = set()

    def event(i):
        if not i.is_call():
            return []
        if is_perform(prog, i):
            return ["perform"]
        r = roles.get(i.callee)
        if r == "push":
            return ["submit"]
        if r == "pop" or i.id in spun:
            return ["await"]
        if r == "trypop":
            return ["trypop"]
        return []
    ct = Counter(fn, event, cop)
    ct.once = {l.header for l in fn.loops() if spins(fn, l, ct, roles)}
    spun |= {i.id for i in fn.calls() if roles.get(i.callee) == "trypop" and fn.loop_of(i.bb) is not None and fn.loop_of(i.bb).header in ct.once}
    res = ct.run()
    ck.need(res is not None, "normal return of " + where)
    sizes, counts = res
    n = Lin.a(("size", T))
    tops = {e for i in fn.calls() for e in event(i)}
    ck.need(tops & {"perform", "submit"}, "performing or submitting tasks in " + where)
    want = ["perform"] if "perform" in tops else ["submit", "await"]
    for e in want:
        c = counts.get(e, Lin())
        if isinstance(c, tuple) and c[0] == "trip?" and c[1] in ct.early:
            ck.ob("count", "%s: %s" % (where, e), False, "may stop before every task has been %s, on the condition at %s"
                  % ({"perform": "performed", "submit": "submitted", "await": "awaited"}[e], ct.early[c[1]]), "count:%s:%s" % (where, e))
            continue
        verdict(ck, "count", "%s: %s" % (where, e), c, n,
                "the number of tasks it %ss" % {"perform": "perform", "submit": "submit", "await": "await"}[e], "count:%s:%s" % (where, e))
    if "trypop" in tops:
        ck.ob("count", where + ": trypop", False, "collects completions without waiting for them", "count:%s:trypop" % where)
    s = sizes.get(R, Lin())
    if R not in sizes:
        s = Lin()
    verdict(ck, "result-count", where, s, n, "the number of results", "result-count:" + where)
    # pairing of tasks with result slots
    sy = ct.sym
    if "perform" in tops:
        for i in fn.calls():
            if not is_perform(prog, i):
                continue
            ti = task_index(fn, sy, i.args[0], T)
            slots = stores_of(prog, fn, sy, i, R)
            ok = ti is not None and slots and all(x == ti or x == "in-order" for x in slots)
            ck.ob("position", "%s at %s" % (where, i.repo_loc), ok,
                  "the result of task [%s] goes to slot %s" % (ti, slots or "none"), "position:" + where)
            # exceptions must not lead to a normal return
        no_swallow(ck, prog, fn, where)
    else:
        k = 0
        for i in fn.calls():
            ins = None
            if roles.get(i.callee) == "push":
                ins = i.args[1]
            else:
                op = cop(i)
                if op and op[0] == "ins" and len(i.args) > 1:
                    ins = i.args[1]
            if ins is None:
                continue
            b, o, _ = addr(fn, ins)
            d = fn.defs.get(b)
            if d is None or d.op != "alloca":
                continue
            fields = {}
            for st in fn.insts():
                if st.op == "store":
                    bb, oo, vo = addr(fn, st.args[1])
                    if bb == b and not vo:
                        fields.setdefault(oo - o, []).append(st)
            ti = si = None
            for off, sts in fields.items():
                for st in sts:
                    v = st.args[0]
                    x = task_index(fn, sy, v, T)
                    if x is not None:
                        ti = (off, x)
                    el = sy.elem(v)
                    if el is not None and el[0] == R:
                        si = (off, el[1])
            if ti is None and si is None:
                continue
            k += 1
            ok = ti is not None and si is not None and ti[1] == si[1]
            ck.ob("position", "%s at %s" % (where, i.repo_loc), ok,
                  "work item pairs task [%s] with slot [%s]" % (ti and ti[1], si and si[1]), "position:" + where)
            if ti and si:
                layouts.append((ti[0], si[0]))
        ck.need(k, "work items built in " + where)
        stable(ck, prog, fn, where, R, cop)
        tested(ck, prog, fn, where, ct, R, n)
    for x in ct.notes:
        ck.count("undecided")


def spins(fn, l, ct, roles):
    """the loop asks until it gets an element, and ends only then"""
    ex = [(f, t, lab) for f, t, lab in l.exits() if lab != "u" and t not in ct.dead]
    if len(ex) != 1 or [x for x in fn.loops() if x is not l and x.header in l.body]:
        return False
    t = fn.blocks[ex[0][0]][-1]
    v, stay = t.d.get("cond"), ex[0][2] != "t"
    d = fn.defs.get(v)
    while d is not None and (d.op in ("xor", "trunc", "zext") or d.op == "icmp" and cint(d.args[1]) in (0, 1) and d.get("pred") in ("eq", "ne")):
        if d.op == "xor" or d.op == "icmp" and (cint(d.args[1]) == 0) == (d.get("pred") == "eq"):
            stay = not stay
        d = fn.defs.get(d.args[0])
    return d is not None and d.is_call() and roles.get(d.callee) == "trypop" and not stay


def verdict(ck, rule, where, got, want, what, keyname):
    if got == want:
        ck.ob(rule, where, True)
        return
    if isinstance(got, Lin) and not any(a[0] == "val" for a in got.atoms()):
        ck.ob(rule, where, False, "%s is %s instead of size(batch)" % (what, pretty(got)), keyname)
    elif isinstance(got, tuple) and got[0] == "differs":
        ck.ob(rule, where, False, "%s differs between paths (%s or %s)" % (what, pretty(got[1]), pretty(got[2])), keyname)
    elif isinstance(got, Lin):
        ck.ob(rule, where, False, "%s is %s, not tied to the batch size" % (what, pretty(got)), keyname)
    else:
        ck.count("undecided")
        ck.ob(rule, where + " (undecided: %s)" % (got,), True)


def pretty(l):
    return str(l).replace("size(('a2', 0))", "size(batch)")


def task_index(fn, sy, v, T):
    d = fn.defs.get(v)
    if d is None or d.op != "load":
        return None
    el = sy.elem(d.args[0])
    if el is not None and el[0] == T:
        return el[1]
    return None


def stores_of(prog, fn, sy, perf, R):
    """indices of the result slots that receive the product of a Perform call"""
    out = []
    for i in fn.calls():
        if i is perf or not i.args:
            continue
        el = sy.elem(i.args[0]) if isinstance(i.args[0], str) else None
        n = prog.base(i.callee) if i.callee else ""
        if el is not None and el[0] == R and any(perf.id in flows(fn, a) for a in i.args[1:]):
            out.append(el[1])
        b, o, vo = addr(fn, i.args[0])
        if (b, o) == R and n.split("::")[-1] in ("push_back", "emplace_back") and any(perf.id in flows(fn, a) for a in i.args[1:]):
            out.append("in-order")
    return out


def no_swallow(ck, prog, fn, where):
    def step(i, s):
        if is_perform(prog, i):
            return [("n", s), ("t", STD, "failed"), ("t", OTHER, "failed"), ("t", ("nonstd",), "failed")]
        return [("n", s)]
    exits, nodes = explore(fn, "ok", step)
    for e in exits:
        if e[0] == "ret":
            ck.ob("failure-raises", "%s return at %s" % (where, e[1].repo_loc), e[2] != "failed",
                  "returns normally although a task failed: " + trace(e[3]), "failure-raises:" + where)
        elif e[2] == "failed":
            ck.ob("failure-raises", "%s exception exit" % where, True)


def stable(ck, prog, fn, where, R, cop):
    def step(i, s):
        if i.op == "store" or i.is_call():
            vals = [i.args[0]] if i.op == "store" else i.args
            sy = stable.sy
            for v in vals:
                d = fn.defs.get(v) if isinstance(v, str) else None
                if d is not None and d.op == "getelementptr" and i.op == "store":
                    el = sy.elem(v)
                    if el is not None and el[0] == R:
                        s = "out"
        if i.is_call():
            op = cop(i)
            if op and op[1] == R and s == "out" and op[0] in ("ins", "rem", "sized", "new", "unknown", "copy"):
                bads.append(i)
        return [("n", s)]
    bads = []
    stable.sy = Sym(fn)
    explore(fn, "in", step)
    ck.ob("slots-stable", where, not bads, "the result vector is changed at %s while tasks hold pointers into it"
          % (bads[0].repo_loc if bads else ""), "slots-stable:" + where)


def tested(ck, prog, fn, where, ct, R, n):
    """every slot is tested for a missing result, and a missing one raises"""
    found = []
    sy = ct.sym
    dead = ct.dead
    for b in fn.blocks:
        t = b[-1]
        if t.op != "br" or "cond" not in t.d:
            continue
        c = fn.defs.get(t.d["cond"])
        if c is None or c.op != "icmp" or c.get("pred") not in ("eq", "ne") or "null" not in c.args:
            continue
        v = c.args[0] if c.args[1] == "null" else c.args[1]
        ld = fn.defs.get(v)
        if ld is None or ld.op != "load":
            continue
        el = sy.elem(ld.args[0])
        if el is None or el[0] != R:
            continue
        its = [a for a in el[1].atoms() if a[0] == "iter"]
        if len(its) != 1 or abs(el[1].t[its[0]]) != 1:
            continue
        null_succ = t.d["succ"][0 if c.get("pred") == "eq" else 1]
        if null_succ not in dead:
            continue
        trip = ct.trips.get(its[0][1])
        if trip is not None:
            # the result vector has n elements here; express the trip count through it
            trip = Lin({(k if k != ("size", R) else ("size", ("a2", 0))): x for k, x in trip.t.items()})
            found.append(trip == n)
        else:
            found.append(True)
    ck.ob("failure-raises", where, any(found), "a slot left without a result by a failed task can be returned to the caller",
          "failure-raises:" + where)


def worker(ck, prog, layouts):
    roles = queue_roles(prog)
    bodies = [f for f in prog.jobs["w"] if any(is_perform(prog, i) for i in f.calls())
              and any(roles.get(i.callee) in ("pop", "trypop") for i in f.calls())]
    names = {f.name for f in bodies}
    called = {c for f in names for c in prog.funcs[f].get("calls", [])}
    tops = [f for f in bodies if f.name not in called]
    ck.need(tops, "worker thread body")
    for fn in tops:
        w = prog.base(fn.name).replace("k52::parallel::", "")
        probs, marks = [], []

        def item_field(v):
            d = fn.defs.get(v)
            if d is None or d.op != "load":
                return None
            b, o, vo = addr(fn, d.args[0])
            dd = fn.defs.get(b)
            return (b, o) if dd is not None and dd.op == "alloca" and not vo else None

        def step(i, s):
            if is_perform(prog, i):
                marks.append(i)
                return [("n", (i.id, item_field(i.args[0]))), ("t", STD, None), ("t", OTHER, None), ("t", INTR, None)]
            if s and i.is_call() and i.args and not is_perform(prog, i):
                f = item_field(i.args[0]) if isinstance(i.args[0], str) else None
                if f is not None and s[1] is not None and any(s[0] in flows(fn, a) for a in i.args[1:] if isinstance(a, str)):
                    if f[0] == s[1][0] and f[1] != s[1][1]:
                        if layouts and (s[1][1], f[1]) not in layouts:
                            probs.append((i, "stores the result through a different field than the one the pool filled in"))
                        return [("n", None)]
                if roles.get(i.callee) == "push":
                    probs.append((i, "reports a task done before its result has been stored in its slot"))
                    return [("n", None)]
            if s and i.op == "store" and s[0] in flows(fn, i.args[0]):
                f = item_field(i.args[1])
                if f is not None and s[1] is not None and f[0] == s[1][0]:
                    return [("n", None)]
            return [("n", s)]
        exits, nodes = explore(fn, None, step)
        ck.count("states", nodes)
        ck.need(marks, "task execution in " + w)
        ck.ob("stores-result", w, not probs, probs[0][1] + " at " + probs[0][0].repo_loc if probs else "", "stores-result:" + w)
