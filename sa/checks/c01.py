"""Every task a worker takes is performed once and reported done once."""
from ir import ACCESSORS
from flow import explore, trace
from val import addr, flows, key, cint
from parq import queue_roles, is_perform, INTR, STD, OTHER

EXPLANATION = """
The thread body (the function that both takes tasks from a shared queue and performs them) is flattened with the
queue operations left as events, and walked with a typestate automaton: nothing taken -> taken -> performed ->
reported.  Performing a task may end normally, with an exception derived from std::exception, with an exception of
an unrelated type, or with an interruption; every kind is routed through the landing pads by the type tests in the
code.  Rules: taken-performed-reported (before the next take and before every end of the body, the task taken was
performed exactly once and put exactly once on the other queue), worker-survives (the body ends only after an
interruption, and no other exception leaves it), performs-what-it-took (the task performed is the one taken).
"""
TECHNIQUE = "typestate dataflow over the flattened control-flow graph with typed exception edges"
LEVEL_NOTE = """Exhaustive over all paths of the worker body and all exception kinds, for any schedule (the rule is per thread).
Trusts clang's lowering of exception handling, boost::thread interruption semantics, and that allocation and
console output do not fail."""
ASSUMPTIONS = ["memory allocation and console output inside the worker do not fail",
               "the queue operations behave as decided by C02"]
JOBS = [{"id": "w", "roots": [r"k52::parallel::"], "notroots": [r"thread::ThreadSafeQueue<.*>::[~A-Za-z_]+\("],
         "opaque": [r"thread::ThreadSafeQueue<.*>::[~A-Za-z_]+\("], "inline": ACCESSORS}]
MINIMUM = {"taken-performed-reported": 3, "worker-survives": 1, "performs-what-it-took": 1}


def check(ck, prog):
    roles = queue_roles(prog)
    ck.need({"push", "pop"} <= set(roles.values()), "queue operations")
    bodies = []
    for fn in prog.jobs["w"]:
        ev = [roles.get(i.callee) for i in fn.calls()]
        if any(is_perform(prog, i) for i in fn.calls()) and any(e in ("pop", "trypop") for e in ev):
            bodies.append(fn)
    names = {f.name for f in bodies}
    called = {c for f in names for c in prog.funcs[f].get("calls", [])}
    tops = [f for f in bodies if f.name not in called or f.name in prog.funcs[f.name].get("calls", [])]
    ck.need(tops, "worker thread body")
    for fn in tops:
        body(ck, prog, fn, roles)


def body(ck, prog, fn, roles):
    ck.count("thread_bodies")
    marks, problems = {}, {}

    def touch(rule, i):
        marks.setdefault((rule, i.id), i)

    def bad(rule, i, msg):
        problems.setdefault((rule, i.id), (i, msg))

    pops = [i for i in fn.calls() if roles.get(i.callee) in ("pop", "trypop")]
    popq = {key(fn, i.args[1] if i.get("t") is None and fn_sret(prog, i) else i.args[0]) for i in pops}
    taken_objs = set()
    for i in pops:
        for a in i.args[1:] or i.args[:1]:
            taken_objs.add(addr(fn, a)[0])
        taken_objs.add(i.id)

    # state: (phase, performed, interrupted, pending try-pop id)
    def step(i, s):
        ph, perf, intr, tp = s
        if not i.is_call():
            return [("n", s)]
        r = roles.get(i.callee)
        if r in ("pop", "trypop"):
            touch("taken-performed-reported", i)
            if ph == "taken":
                bad("taken-performed-reported", i, "takes another task although the previous one was %s"
                    % ("performed but never reported done" if perf else "not performed"))
            if r == "pop":
                return [("n", ("taken", 0, intr, None)), ("t", INTR, ("none", 0, True, None))]
            return [("n", ("try", 0, intr, i.id))]
        if r == "push":
            touch("taken-performed-reported", i)
            if key(fn, i.args[0]) in popq:
                bad("taken-performed-reported", i, "puts a task back on the queue it was taken from")
                return [("n", s)]
            if ph != "taken":
                bad("taken-performed-reported", i, "reports a task done that was not taken (or reports it twice)")
            elif perf != 1:
                bad("taken-performed-reported", i, "reports a task done that was performed %d times" % perf)
            return [("n", ("none", 0, intr, None))]
        if is_perform(prog, i):
            touch("taken-performed-reported", i)
            touch("performs-what-it-took", i)
            if not (flows(fn, i.args[0]) & taken_objs or any(a in taken_objs for a in i.args)):
                bad("performs-what-it-took", i, "performs a task other than the one taken")
            if perf:
                bad("taken-performed-reported", i, "performs the same task again")
            n = (ph, perf + 1, intr, tp)
            return [("n", n), ("t", STD, n), ("t", OTHER, n), ("t", INTR, ("none", 0, True, None))]
        d = prog.callee_dem(i) or ""
        if d.startswith("boost::this_thread::") and not i.get("nt"):
            b = prog.base(i.callee).split("::")[-1]
            if b in ("interruption_point", "yield") or "sleep" in b:
                return [("n", s), ("t", INTR, (ph, perf, True, tp))]
        return [("n", s)]

    def branch(c, val, s):
        ph, perf, intr, tp = s
        d = fn.defs.get(c)
        neg = False
        while d is not None and d.op in ("xor", "trunc", "zext", "icmp"):
            if d.op == "xor":
                neg = not neg
            if d.op == "icmp":
                if cint(d.args[1]) != 0:
                    return s
                if d.get("pred") == "eq":
                    neg = not neg
            d = fn.defs.get(d.args[0])
        if d is not None and d.is_call():
            t = bool(val) != neg
            if ph == "try" and d.id == tp:
                return ("taken", 0, intr, None) if t else ("none", 0, intr, None)
            if (prog.callee_dem(d) or "").startswith("boost::this_thread::interruption_requested") and t:
                return (ph, perf, True, tp)
        return s

    exits, nodes = explore(fn, ("none", 0, False, None), step, branch=branch)
    ck.count("states", nodes)
    if not any(e[0] == "ret" for e in exits):
        # a worker that can never end cannot be joined
        ck.count("no_return", 1)
    for e in exits:
        i, s, path = e[1], e[2], e[3]
        ph, perf, intr, tp = s
        touch("worker-survives", i)
        if e[0] == "ret" and not intr:
            bad("worker-survives", i, "the worker ends without having been interrupted: " + trace(path))
        if e[0] == "escape" and e[4] != INTR:
            bad("worker-survives", i, "an exception %s leaves the worker thread: %s"
                % ({"other": "of a non-standard type", "derived": "derived from std::exception", "ti": "thrown here"}[e[4][0]] if e[4] else "", trace(path)))
        if ph == "taken" and not intr:
            touch("taken-performed-reported", i)
            bad("taken-performed-reported", i, "the worker ends with a task taken and not reported done: " + trace(path))
    w = prog.base(fn.name)
    for (rule, _), i in marks.items():
        if (rule, i.id) not in problems:
            ck.ob(rule, "%s at %s" % (w, i.repo_loc), True)
    for (rule, _), (i, msg) in problems.items():
        ck.ob(rule, "%s at %s" % (w, i.repo_loc), False, msg, "%s:%s" % (rule, w))


def fn_sret(prog, i):
    return False
