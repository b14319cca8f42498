"""C08: tasks run in parallel own private deep copies of what they work on."""
import re
from checks import c19
from checks.c19 import clones, fields, strip
from heap import Heap, leaves, mentions
from ir import ACCESSORS

TECHNIQUE = ("ownership analysis by abstract store: what each task constructor keeps of its arguments, what Perform uses through mutating operations and what it hands back; "
             "and a may-write effect analysis of process-wide state over everything reachable from Perform")
LEVEL_NOTE = "all classes with a Perform function in the optimisation library, all functions reachable from Perform through direct and virtual calls (classes that always refuse to be cloned cannot be part of a task and are left out)"
EXPLANATION = """
For every task class: owned (a task that runs anything mutating keeps, for every object it is constructed from, a clone of it: neither the caller's pointer nor a shared pointer to the caller's object), const-use (an object a task does not
own is used through const operations only, and the task stores nothing through it), result-copy (what Perform returns owns copies, it does not refer to the task's own objects), deep (no Clone of a library class leaves the copy with an owned object it shares with the original), and shared-state (no function reachable from Perform
accesses a mutable global or static variable of the library outside its guarded initialisation, nor draws from the C library's random state).
"""
ASSUMPTIONS = ["Clone of user classes makes deep copies (for the library's classes: C19)", "const operations of user objectives and parameters are safe to call concurrently on distinct objects",
               "output streams of the standard library are synchronised"]
OPAQUE = [r"^std::", r"^boost::shared_ptr<.*>::(~?shared_ptr|operator=|reset|swap)", r"^boost::[a-np-z]", r"IdentifyableObjectsManager"]
BAD_C = re.compile(r"^(rand|srand|strtok|setlocale|drand48|random|srandom|gmtime|localtime|asctime|ctime|tmpnam|putenv|setenv)$")


def task_classes(j):
    r = set()
    for f, d in j["funcs"].items():
        m = re.match(r"^(k52::optimization::[\w:]+)::Perform\(\) const$", j["dem"].get(f, f))
        if m and d.get("repo"):
            r.add(m.group(1))
    return r


def sel(j):
    ts = task_classes(j)
    r = []
    for f, d in j["funcs"].items():
        n = j["dem"].get(f, f)
        m = re.match(r"^(k52::optimization::[\w:]+)::(\w+)\(", n)
        if d.get("repo") and m and m.group(1) in ts and (m.group(2) == "Perform" or m.group(2) == m.group(1).split("::")[-1]):
            r.append(f)
    return r


JOBS = [{"id": "task", "select": sel, "opaque": OPAQUE, "inline": ACCESSORS},
        {"id": "clone", "select": clones, "opaque": c19.OPAQUE, "inline": ACCESSORS}, {"id": "make", "select": c19.makers, "opaque": c19.OPAQUE, "inline": ACCESSORS},
        {"id": "all", "roots": ["^k52::"], "flatten": False}]


def implementers(prog, i):
    return [prog.dem(x) for x in i.get("v")[2:] if x != "__cxa_pure_virtual"]


def is_const(prog, i):
    if i.get("v"):
        ns = implementers(prog, i)
        return bool(ns) and all(re.search(r"\) const( &+)?$", n) for n in ns)
    return bool(re.search(r"\) const( &+)?$", prog.dem(i.callee or "")))


def param_types(prog, i):
    from heap import split_params
    ns = implementers(prog, i) if i.get("v") else [prog.dem(i.callee or "")]
    return split_params(ns[0]) if ns else []


def member_of(t, me):
    """the member of the task object a pointer value was read from"""
    if t[0] == "in" and t[1] == me and isinstance(t[2], int):
        return t[2]
    if t[0] == "in" and isinstance(t[1], tuple) and t[1][0] == "in":
        return member_of(t[1], me)
    if t[0] == "p":
        return member_of(t[1], me) if t[1][0] in ("in", "r") else None
    if t[0] == "r" and len(t) > 3 and (t[2] == "__dynamic_cast" or t[2].endswith("_pointer_cast")):
        return member_of(t[3], me)
    return None


def global_of(v):
    """the variable of the process an object reference was read from, directly or to clone it"""
    if v[0] == "r" and v[2].endswith("::Clone") and len(v) > 3:
        v = v[3]
    while isinstance(v, tuple) and v[0] in ("in", "p", "copy"):
        v = v[1]
    return v[1].lstrip("@") if isinstance(v, tuple) and v[0] == "c" and isinstance(v[1], str) and v[1].startswith("@") and not v[1].startswith("@_ZTV") else None


def check(ck, prog):
    by = {c["name"]: k for k, c in prog.classes.items()}
    perf, ctors = {}, {}
    for f in prog.jobs["task"]:
        cls, m = re.match(r"^(k52::[\w:]+)::(\w+)\(", f.dem).groups()
        (perf if m == "Perform" else ctors).setdefault(cls, {})[f.dem] = f
    ck.need(perf, "task classes")
    for cls, fs in sorted(perf.items()):
        short = cls.split("::")[-1]
        f = next(iter(fs.values()))
        me = ("a", 0)
        mutable, used = {}, set()

        def on_call(i, st, n):
            recv_const = is_const(prog, i)
            pts = param_types(prog, i)
            if n.startswith(("std::", "boost::", "operator ", "__", "llvm.")) and not i.get("v"):
                return None
            for k, a in enumerate(i.args):
                t = h.term(a, st)
                o = member_of(t, me) if h.isptr(a) or t[0] in ("in", "r") else None
                if o is None:
                    continue
                used.add(o)
                if k == 0 and not recv_const:
                    mutable.setdefault(o, i)
                elif k > 0 and k - 1 < len(pts) and pts[k - 1].endswith(("&", "*")) and not re.search(r"const[&*]$|const\*const$", pts[k - 1].replace(" ", "")) and "const" not in pts[k - 1]:
                    mutable.setdefault(o, i)
            return None

        def on_store(i, st, p, t):
            o = member_of(p if p[0] != "e" else p[1], me)
            if o is not None:
                mutable.setdefault(o, i)
            return st
        h = Heap(f, on_call=on_call, on_store=on_store)
        try:
            exits = h.run()
        except OverflowError:
            ck.count("undecided")
            continue
        names = {o: n for n, o, t in fields(prog, by.get(cls))}
        # --- result
        for e in exits:
            if e[0] != "ret" or e[4] is None or e[4][0] != "o":
                continue
            R, st = e[4], e[2]
            for x in st:
                if x[0] == "M" and x[1][0] == R and isinstance(x[1][1], int):
                    v = x[2]
                    alias = v[0] == "in" and v[1] == me and ("shared_ptr<" in ftype(prog, cls, v[2]) or ftype(prog, cls, v[2]).endswith("*"))
                    if v[0] == "copy" and v[1][0] == "in" and v[1][1] == me:
                        continue
                    ck.ob("result-copy", "%s result offset %d" % (short, x[1][1]), not alias,
                          "the result of %s refers to the task's own %s" % (short, names.get(v[2] if alias else None, "?")), "result-copy:%s" % short)
        # --- constructors
        runs = bool(mutable)
        owned = {}
        for d, c in sorted(ctors.get(cls, {}).items()):
            hc = Heap(c)
            try:
                cex = hc.run()
            except OverflowError:
                ck.count("undecided")
                continue
            ptrs = [("a", k) for k, a in enumerate(c.d["args"]) if k and a.get("t") == "ptr" and "k52::" in str(prog.classes.get(str(a.get("dt", "")).rstrip("*&"), {}).get("name", ""))]
            for e in cex:
                if e[0] != "ret":
                    continue
                for n, o, t in fields(prog, by.get(cls)):
                    v = strip(hc.read(e[2], (me, o)))
                    if "shared_ptr<" not in t and not t.endswith("*"):
                        continue
                    g = global_of(v)
                    if g:
                        ck.ob("owned", "%s::%s" % (short, n), False, "%s takes %s from the process-wide %s instead of cloning what it is given" % (d[:80], n, prog.dem(g)), "owned:%s:%s" % (short, n))
                        continue
                    if v[0] == "r" and v[2].endswith("::Clone") or v[0] == "c" or v[0] == "o":
                        owned.setdefault(o, set()).add("own")
                    elif any(mentions(v, a) for a in ptrs) and v[0] in ("a", "in", "p"):
                        owned.setdefault(o, set()).add("shared")
                        # a member that owns what it points to, or a task that mutates: sharing with the caller
                        ck.ob("owned", "%s::%s" % (short, n), not ("shared_ptr<" in t or runs),
                              "%s keeps the caller's object in %s instead of a clone of it" % (d[:80], n), "owned:%s:%s" % (short, n))
                        continue
                    else:
                        ck.count("undecided")
                        continue
                    ck.ob("owned", "%s::%s" % (short, n), True)
        for o, i in sorted(mutable.items()):
            ck.ob("const-use", "%s::%s at %s" % (short, names.get(o, o), i.repo_loc), "shared" not in owned.get(o, ()),
                  "%s is changed through at %s although the task does not own it" % (names.get(o, o), i.repo_loc), "const-use:%s:%s" % (short, names.get(o, o)))
        for o in sorted(used - set(mutable)):
            ck.ob("const-use", "%s::%s" % (short, names.get(o, o)), True)
    c19.check(Deep(ck), prog)
    effects(ck, prog, perf)


class Deep:
    """what the clone analysis says about objects a clone shares with its original"""
    def __init__(self, ck):
        self.ck = ck

    def ob(self, rule, where, ok, message="", key=None):
        if rule == "owns":
            self.ck.ob("deep", where, ok, message, "deep:%s" % where)

    def count(self, k, n=1):
        pass

    need = fact = count


def ftype(prog, cls, o):
    by = {c["name"]: k for k, c in prog.classes.items()}
    for n, off, t in fields(prog, by.get(cls)):
        if off == o:
            return t
    return ""


def effects(ck, prog, perf):
    refusing = set()
    for f in prog.jobs["clone"]:
        if f.dem.endswith("::Clone() const"):
            try:
                if not any(e[0] == "ret" for e in Heap(f).run()):
                    refusing.add(f.dem[:-len("::Clone() const")])
            except OverflowError:
                pass
    ck.fact("classes that refuse to be cloned", sorted(refusing))
    callees = {f: d.get("calls", []) for f, d in prog.funcs.items()}
    start = [f.name for fs in perf.values() for f in fs.values()]
    seen, st, via = set(start), list(start), {}
    while st:
        f = st.pop()
        for c in callees.get(f, ()):
            g = c[2:] if c.startswith("v:") else c
            d = prog.dem(g)
            m = re.match(r"^(?:(?:non-)?virtual thunk to )?(k52::[\w:]+)::[~\w]+\(", d)
            if c.startswith("v:") and m and m.group(1) in refusing:
                continue
            if g not in seen:
                seen.add(g)
                via[g] = f
                st.append(g)
    fns = {f.name: f for f in prog.jobs["all"]}
    ck.count("functions reachable from a task", len(seen))

    def path(g):
        p = [g]
        while p[-1] in via:
            p.append(via[p[-1]])
        return " < ".join(prog.base(x).replace("k52::", "") for x in p[:6])
    mutable = {g for g, d in prog.globals.items() if d.get("repo") and not d.get("const") and not d.get("dconst") and not d.get("tls") and not SYNC.search(d.get("dt", "") or "")}
    for g in sorted(seen):
        if BAD_C.match(g):
            ck.ob("shared-state", prog.dem(g), False, "%s, which uses process-wide state, is reached from a task: %s" % (g, path(g)), "shared-state:" + g)
        f = fns.get(g)
        if f is None:
            continue
        init = guarded(f)
        held = under_lock(prog, f)
        bad = None
        for i in f.insts():
            if i.bb in init or i.id in held:
                continue
            for k, a in globals_of(i):
                if a in mutable and not reads_only(prog, i, k):
                    bad = (i, a)
        ck.ob("shared-state", f.dem[:100], bad is None,
              "%s uses the process-wide %s at %s, and a task reaches it: %s" % (f.dem[:80], bad and prog.dem(bad[1]), bad and bad[0].loc, path(g)),
              "shared-state:%s" % prog.base(g))


SYNC = re.compile(r"mutex|atomic|once_flag|condition_variable|spin_?lock")


def globals_of(i):
    for k, a in enumerate(list(i.args) + [i.d.get("p")]):
        if isinstance(a, (list, tuple)):
            a = a[-1]
        if isinstance(a, str) and a.startswith("@"):
            yield k, a[1:].split("+")[0]


def reads_only(prog, i, k):
    """a load, or handing the object to something that takes it as const"""
    if i.op == "load" or i.op in ("icmp", "fcmp"):
        return True
    if not i.is_call():
        return False
    if (i.callee or "").startswith("llvm.mem"):
        return k == 1
    if k == 0 and is_const(prog, i):
        return True
    from heap import is_receiver
    pts = param_types(prog, i)
    n = k - 1 if is_receiver(prog.dem(i.callee or "")) else k
    return 0 <= n < len(pts) and bool(re.search(r"\bconst ?[&*]*$|^const\b", pts[n].strip()))


def under_lock(prog, f):
    """instructions that run while this function holds a lock, on every path"""
    import locks
    entry, work, out = {0: frozenset()}, [0], {}
    while work:
        b = work.pop()
        held = entry[b]
        for x in f.blocks[b]:
            if any(o for g, m, o in held):
                out[x.id] = held
            else:
                out.pop(x.id, None)
            ev = locks.lock_step(prog, x, f)
            if ev:
                held, _ = locks.apply(f, held, ev)
        for t, _ in f.succ[b]:
            new = held if t not in entry else entry[t] & held
            if t not in entry or new != entry[t]:
                entry[t] = new
                work.append(t)
    return out


def guarded(f):
    """blocks of the guarded initialisation of a function's static variables"""
    res = set()
    for i in f.calls():
        if i.callee == "__cxa_guard_acquire":
            ends = [x.bb for x in f.calls() if x.callee in ("__cxa_guard_release", "__cxa_guard_abort")]
            dom = f.dom()
            for b in range(len(f.blocks)):
                if b != i.bb and i.bb in dom[b] and any(b in dom[e] for e in ends):
                    res.add(b)
    return res


MINIMUM = {"owned": 3, "const-use": 3, "result-copy": 1, "deep": 3, "shared-state": 60}
