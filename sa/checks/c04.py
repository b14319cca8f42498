"""Destroying a pool interrupts and joins every worker before its memory goes away."""
import re
from ir import ACCESSORS
from flow import explore, trace
from val import addr, flows, key, cint
from sym import Counter, Lin, Sym, std_container_op, throw_only
from parq import queue_roles, is_perform, INTR, STD, OTHER

EXPLANATION = """
The constructors and destructors of every class of the parallel library that owns boost threads are flattened (member
and base destruction included, as the compiler generates it).  Rules: starts-all (on every normal return of a
constructor the number of threads started equals the number of workers the object records), interrupts-all and
joins-all (the destructor interrupts and joins, without a time limit, exactly the recorded number of workers, over
element indices 0..n-1, counted symbolically), join-after-interrupt (every join of a worker comes after its interrupt),
release-after-join (no worker storage, queue, mutex or condition variable is released on any path before the joins),
unwind-stops (a constructor that fails after starting a thread joins what it started before the queues are released),
no-detach, leaves-loop (after an interruption reached the thread body it never takes another task, and interruption
is not disabled while it waits).
"""
TECHNIQUE = "symbolic event counting and release-order dataflow on flattened constructors and destructors, typestate on the worker body"
LEVEL_NOTE = """Decides, for every worker count, that starts, interrupts and joins cover the same workers and precede every release.
Trusts boost::thread (interrupt and join semantics) and that a task's own code ends eventually."""
ASSUMPTIONS = ["boost::thread::join waits until the thread ended", "tasks terminate", "the thread destroying the pool is not itself interrupted"]
QOP = r"thread::ThreadSafeQueue<.*>::[A-Za-z_]+\("
JOBS = [{"id": "w", "roots": [r"k52::parallel::"], "notroots": [r"thread::ThreadSafeQueue<.*>::[~A-Za-z_]+\("],
         "opaque": [QOP], "inline": ACCESSORS}]
MINIMUM = {"starts-all": 2, "interrupts-all": 2, "joins-all": 2, "release-after-join": 2, "leaves-loop": 1}


def thread_start(prog, i):
    if not i.is_call():
        return False
    if not i.callee:
        return False
    n = prog.base(i.callee)
    return n == "boost::thread::thread" and len(i.args) > 1 and "&&)" not in prog.callee_dem(i).split("::thread(")[-1][-14:] \
        or n == "boost::thread::start_thread" or n == "boost::thread_group::create_thread"


def thread_op(prog, i):
    if not i.is_call() or not i.callee:
        return None
    n = prog.base(i.callee)
    if n.startswith("boost::thread::") or n.startswith("boost::thread_group::"):
        return n.split("::")[-1]
    return None


def cls_of(prog, fn):
    return prog.base(fn.name).rsplit("::", 1)[0]


class PoolCounter(Counter):
    """workers that were never started need no join, and a pool that exists has its array: those branches are not paths"""

    def live_succ(self, b):
        fn, prog = self.fn, self.fn.prog
        t = fn.blocks[b][-1]
        r = super().live_succ(b)
        if t.op == "br" and "cond" in t.d:
            v = self.assumed(t.d["cond"])
            if v is not None:
                keep = t.d["succ"][0 if v else 1]
                r = [s for s in r if s == keep]
        return r

    def assumed(self, c):
        fn, prog = self.fn, self.fn.prog
        d = fn.defs.get(c)
        if d is None:
            return None
        if d.op == "xor" and cint(d.args[1]) in (1, -1):
            v = self.assumed(d.args[0])
            return None if v is None else not v
        if d.is_call() and thread_op(prog, d) == "joinable":
            return True
        if d.op == "icmp" and "null" in d.args and d.get("pred") in ("eq", "ne"):
            x = fn.defs.get([a for a in d.args if a != "null"][0]) if d.args != ["null", "null"] else None
            if x is not None and x.op == "load" and addr(fn, x.args[0])[0] == "a0":
                return d.get("pred") == "ne"
        return None


def fields(fn):
    """offset -> the only value ever stored in that field of this"""
    st = {}
    for i in fn.insts():
        if i.op == "store":
            b, o, vo = addr(fn, i.args[1])
            if b == "a0" and not vo:
                st.setdefault(o, set()).add(i.args[0])
    return {o: next(iter(v)) for o, v in st.items() if len(v) == 1}


def as_field(lin, fmap, sy):
    """rewrite a number so that the value of a field of this is named by the field"""
    r = Lin()
    inv = {}
    for o, v in fmap.items():
        l = sy.val(v)
        if len(l.t) == 1 and list(l.t.values())[0] == 1 and 1 not in l.t:
            inv[list(l.t)[0]] = o
    for a, c in lin.t.items():
        o = None
        if a == 1:
            r = r + Lin.c(c)
            continue
        if a in inv:
            o = inv[a]
        elif a[0] == "val" and isinstance(a[1], tuple) and a[1][0] == "load":
            k = a[1][1]
            if k == "a0":
                o = 0
            elif isinstance(k, tuple) and k[0] == "gep" and k[1] == "a0" and not k[3]:
                o = k[2]
        if a[0] == "size" and isinstance(a[1], tuple) and a[1][0] == "a0":
            r = r + Lin({("container", a[1][1]): c})
            continue
        r = r + Lin({("field", o): c} if o is not None else {a: c})
    return r


def index_range_ok(sy, ct, fn, v, i, n):
    """elements visited are 0..n-1 exactly once each; None when it cannot be told"""
    el = sy.elem(v)
    if el is None:
        return None, None
    its = [a for a in el[1].t if a != 1 and a[0] == "iter"]
    if len(its) != 1 or abs(el[1].t[its[0]]) != 1:
        return (False if not its else None), el[0]
    rest = Lin({a: c for a, c in el[1].t.items() if a != its[0]})
    trip = ct.trips.get(its[0][1])
    if trip is None:
        return None, el[0]
    if el[1].t[its[0]] == 1:
        return rest == Lin(), el[0]
    return rest == trip - Lin.c(1), el[0]


def containers_of_threads(prog, fn):
    return None


def count(fn, prog, events):
    cop = std_container_op(prog, fn)
    ct = PoolCounter(fn, events, cop)
    return ct, ct.run()


def check(ck, prog):
    fns = prog.jobs["w"]
    owners = {}
    for fn in fns:
        if any(thread_start(prog, i) for i in fn.calls()):
            c = cls_of(prog, fn)
            last = prog.base(fn.name).split("::")[-1]
            if last == c.split("::")[-1]:
                owners.setdefault(c, []).append(fn)
    lazy = [fn for fn in fns if any(thread_start(prog, i) for i in fn.calls())]
    ck.need(lazy, "code that starts threads")
    # a pool class whose constructor starts nothing although some member function starts threads
    pools = pool_classes(prog)
    started = {c for c in owners}
    for fn in lazy:
        c = cls_of(prog, fn)
        if c in pools and c not in started:
            ck.ob("starts-all", c, False, "the constructor starts no worker; %s does" % prog.base(fn.name), "starts-all:" + c)
    ck.need(any(c in pools for c in owners) or any(not o[2] for o in ck.obs), "a worker pool that starts threads")
    for c, ctors in sorted(owners.items()):
        facts = []
        for fn in ctors:
            facts.append(ctor(ck, prog, fn, c))
        dt = [f for f in fns if cls_of(prog, f) == c and prog.base(f.name).split("::")[-1].startswith("~")]
        ck.need(dt, "destructor of " + c)
        for fn in dt:
            dtor(ck, prog, fn, c, facts)
    worker(ck, prog)


def pool_classes(prog):
    res = set()
    for vt, off, fs in prog.vtables.get("_ZTSN3k528parallel11IWorkerPoolE", []):
        d = prog.dem(vt)
        if d.startswith("_ZTV"):
            continue
        res.add(re.sub(r"^vtable for ", "", d))
    return res


RELEASE = ("operator delete", "operator delete[]", "free")


def release(prog, fn, i):
    """None or what the call releases"""
    if not i.is_call() or not i.callee:
        return None
    n = prog.callee_dem(i).split("(")[0]
    if n in RELEASE:
        return "memory"
    b = prog.base(i.callee)
    if b == "boost::thread::~thread":
        a = addr(fn, i.args[0])[0]
        d = fn.defs.get(a)
        return None if d is not None and d.op == "alloca" else "thread object"
    if b in ("boost::condition_variable::~condition_variable", "boost::mutex::~mutex") or re.match(r"std::(queue|deque|vector|list)::~", b):
        a = addr(fn, i.args[0])[0]
        d = fn.defs.get(a)
        return None if d is not None and d.op == "alloca" else "queue, lock or worker storage"
    if re.search(r"ThreadSafeQueue<.*>::~", prog.callee_dem(i)):
        return "queue"
    return None


def ctor(ck, prog, fn, c):
    w = prog.base(fn.name).replace("k52::parallel::", "")
    ct, res = count(fn, prog, lambda i: ["start"] if thread_start(prog, i) else [])
    sy, fm = ct.sym, fields(fn)
    ck.need(res is not None, "normal return of " + w)
    sizes, counts = res
    n = counts.get("start", Lin())
    r = None
    for i in fn.calls():
        if thread_op(prog, i) == "detach":
            ck.ob("no-detach", w, False, "a worker thread is detached at %s and can never be waited for" % i.repo_loc, "no-detach:" + w)
    if isinstance(n, Lin):
        sy.cont_size = {}
        sy.memo = {}
        r = as_field(n, fm, sy)
        ats = [a for a in r.t if a != 1]
        if len(ats) == 1 and ats[0][0] in ("field", "container") and r.t[ats[0]] == 1 and len(r.t) == 1:
            ck.ob("starts-all", w, True)
        elif len(ats) == 1 and ats[0][0] in ("field", "container") or r.const() is not None:
            ck.ob("starts-all", w, False, "starts %s workers" % pretty(r), "starts-all:" + w)
        else:
            # the count equals the final size of a worker container of the object
            own = [k for k, v in sizes.items() if k[0] == "a0" and v == n]
            if own:
                r = Lin.a(("container", own[0][1]))
                ck.ob("starts-all", w, True)
            else:
                ck.count("undecided")
                ck.ob("starts-all", w + " (undecided: %s)" % pretty(r), True)
                r = None
        # the elements started
        for i in fn.calls():
            if thread_op(prog, i) == "operator=" or thread_op(prog, i) == "swap":
                ok, arr = index_range_ok(sy, ct, fn, i.args[0], i, n)
                if ok is False:
                    ck.ob("starts-all", "%s element at %s" % (w, i.repo_loc), False,
                          "the started workers are not elements 0..n-1", "starts-all:" + w)
    elif n[0] == "differs":
        ck.ob("starts-all", w, False, "the number of workers started differs between paths (%s or %s)"
              % (pretty(n[1]), pretty(n[2])), "starts-all:" + w)
    else:
        ck.count("undecided")
        ck.ob("starts-all", w + " (undecided)", True)
    unwind(ck, prog, fn, w, ct)
    return r


def pretty(l):
    if isinstance(l, Lin):
        out = []
        for a, c in l.t.items():
            s = "" if a == 1 else "field+%d" % a[1] if a[0] == "field" else "size(member+%d)" % a[1] if a[0] == "container" else str(a)
            out.append(str(c) if a == 1 else s if c == 1 else "%s*%s" % (c, s))
        return " + ".join(out) or "0"
    return str(l)


def unwind(ck, prog, fn, w, ct):
    """exception exits after a start: joined before releases"""
    joinloops = {}
    for i in fn.calls():
        if thread_op(prog, i) == "join":
            lp = fn.loop_of(i.bb)
            if lp is not None:
                joinloops[lp.header] = i
    probs = []

    def step(i, s):
        if i.ix == 0 or i.op != "phi" and all(x.op == "phi" for x in fn.blocks[i.bb][:i.ix]):
            if i.bb in joinloops:
                s = ("joined",) if s[0] == "running" else s
        if thread_start(prog, i):
            return [("n", ("running", i.id)), ("t", STD, s if s[0] == "running" else ("maybe", i.id))]
        if thread_op(prog, i) == "join" and i.bb not in joinloops:
            s = ("joined",) if s[0] != "idle" else s
        r = release(prog, fn, i)
        if r and s[0] in ("running",) and exc_block(i.bb):
            probs.append((i, r))
        return [("n", s)]

    lps = set()
    for b, L in enumerate(fn.blocks):
        if any(x.op == "landingpad" for x in L):
            lps |= {b}
    normal = fn.reachable_from(0, labels=None) if False else None
    nreach = set()
    st = [0]
    while st:
        x = st.pop()
        if x in nreach:
            continue
        nreach.add(x)
        st.extend(y for y, l in fn.succ[x] if l != "u")

    def exc_block(b):
        return b not in nreach
    exits, nodes = explore(fn, ("idle",), step)
    ck.count("states", nodes)
    ck.ob("unwind-stops", w, not probs, "when starting a later worker fails, %s at %s is released while the workers already started run on"
          % (probs[0][1], probs[0][0].repo_loc) if probs else "", "unwind-stops:" + w)


def dtor(ck, prog, fn, c, facts):
    w = prog.base(fn.name).replace("k52::parallel::", "")
    ct, res = count(fn, prog, lambda i: [thread_op(prog, i)] if thread_op(prog, i) in ("interrupt", "join") else [])
    ck.need(res is not None, "normal return of " + w)
    sizes, counts = res
    sy = ct.sym
    sy.cont_size = {}
    sy.memo = {}
    wants = {f for f in facts if f is not None}
    want = wants.pop() if len(wants) == 1 else None
    ops = {}
    for i in fn.calls():
        t = thread_op(prog, i)
        if t:
            ops.setdefault(t, []).append(i)
        if t == "detach":
            ck.ob("no-detach", w, False, "a worker thread is detached at %s and can never be waited for" % i.repo_loc, "no-detach:" + w)
    for ev, rule, verb in (("interrupt", "interrupts-all", "interrupts"), ("join", "joins-all", "joins")):
        n = counts.get(ev, Lin())
        if isinstance(n, Lin):
            r = as_field(n, {}, sy)
            if want is not None and r == want:
                ck.ob(rule, w, True)
            elif r.const() is not None or want is not None:
                ck.ob(rule, w, False, "%s %s workers, the constructor started %s" % (verb, pretty(r), pretty(want)), "%s:%s" % (rule, w))
            else:
                ck.count("undecided")
                ck.ob(rule, w + " (undecided)", True)
            for i in ops.get(ev, []):
                ok, arr = index_range_ok(sy, ct, fn, i.args[0], i, n)
                if ok is False:
                    ck.ob(rule, "%s at %s" % (w, i.repo_loc), False, "does not go over workers 0..n-1", "%s:%s" % (rule, w))
        elif n[0] == "trip?" and n[1] in ct.early:
            ck.ob(rule, w, False, "%s workers only as long as the condition at %s holds" % (verb, ct.early[n[1]]), "%s:%s" % (rule, w))
        elif n[0] == "differs":
            ck.ob(rule, w, False, "the number of workers it %s differs between paths (%s or %s)" % (verb, pretty(n[1]), pretty(n[2])),
                  "%s:%s" % (rule, w))
        else:
            ck.count("undecided")
            ck.ob(rule, w + " (undecided: trip count)", True)
    # order
    loops = fn.loops()

    def reaches(a, b):
        """instruction b can run after instruction a (normal flow)"""
        if a.bb == b.bb and a.ix < b.ix:
            return True
        seen, st = set(), [s for s, l in fn.succ[a.bb] if l != "u"]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(s for s, l in fn.succ[x] if l != "u")
        return b.bb in seen

    def same_loop(a, b):
        la, lb = fn.loop_of(a.bb), fn.loop_of(b.bb)
        return la is not None and la is lb
    bad = None
    for j in ops.get("join", []):
        for q in ops.get("interrupt", []):
            if reaches(j, q) and not (same_loop(j, q) and fn.dominates(q, j)):
                bad = "waits for a worker at %s that is interrupted only later (%s)" % (j.repo_loc, q.repo_loc)
    ck.ob("join-after-interrupt", w, bad is None, bad or "", "join-after-interrupt:" + w)
    bad = None
    k = 0
    for i in fn.calls():
        r = release(prog, fn, i)
        if not r:
            continue
        k += 1
        for j in ops.get("join", []):
            if reaches(i, j):
                if same_loop(i, j) and fn.dominates(j, i) and r in ("memory", "thread object"):
                    continue
                bad = "releases %s at %s before waiting for the workers at %s" % (r, i.repo_loc, j.repo_loc)
    ck.count("release_points", k)
    ck.ob("release-after-join", w, bad is None, bad or "", "release-after-join:" + w)


def worker(ck, prog):
    roles = queue_roles(prog)
    bodies = [f for f in prog.jobs["w"] if any(is_perform(prog, i) for i in f.calls())
              and any(roles.get(i.callee) in ("pop", "trypop") for i in f.calls())]
    names = {f.name for f in bodies}
    called = {c for f in names for c in prog.funcs[f].get("calls", [])}
    tops = [f for f in bodies if f.name not in called]
    ck.need(tops, "worker thread body")
    for fn in tops:
        w = prog.base(fn.name).replace("k52::parallel::", "")
        probs = []

        def disabler(i):
            b = prog.base(i.callee) if i.is_call() and i.callee else ""
            if b == "boost::this_thread::disable_interruption::disable_interruption":
                return 1
            if b == "boost::this_thread::disable_interruption::~disable_interruption":
                return -1
            return 0

        def step(i, s):
            intr, dis = s
            if not i.is_call():
                return [("n", s)]
            k = disabler(i)
            if k:
                return [("n", (intr, max(0, dis + k)))]
            r = roles.get(i.callee)
            if r in ("pop", "trypop"):
                if intr:
                    probs.append((i, "takes another task after it was interrupted"))
                    return [("stop",)]
                if dis and r == "pop":
                    probs.append((i, "waits for work with interruption disabled, so it can never be told to end"))
                out = [("n", s)]
                if r == "pop" and not dis:
                    out.append(("t", INTR, (True, dis)))
                return out
            if is_perform(prog, i):
                return [("n", s), ("t", STD, s), ("t", OTHER, s)] + ([] if dis else [("t", INTR, (True, dis))])
            d = prog.callee_dem(i) or ""
            if d.startswith("boost::this_thread::") and not i.get("nt"):
                b = prog.base(i.callee).split("::")[-1]
                if b in ("interruption_point", "yield") or "sleep" in b:
                    return [("n", s)] + ([] if dis else [("t", INTR, (True, dis))])
            return [("n", s)]
        exits, nodes = explore(fn, (False, 0), step)
        ck.count("states", nodes)
        ck.ob("leaves-loop", w, not probs, probs[0][1] + " (%s)" % probs[0][0].repo_loc if probs else "", "leaves-loop:" + w)
