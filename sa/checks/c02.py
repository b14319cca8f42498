"""Lock discipline of the thread-shared queue."""
import re
from ir import ACCESSORS
from flow import explore, trace
from val import addr, derives, cint

EXPLANATION = """
Every method of every instantiation of the shared queue class is flattened to one control-flow graph (repository
helpers and predicate lambdas inlined, exception edges kept) and walked with a typestate automaton over
(locks held, known-empty/known-non-empty, elements inserted/removed, element handed out, wake-up sent).
Rules: access-under-lock (every access to a member other than the mutex and the condition variable),
lock-balanced (no lock held at any exit), wait-predicate (a wait happens only with the lock held after finding the
queue empty under it), pop-nonempty (an element is read and removed only when found non-empty in the same critical
section), pop-one (exactly one element removed and its value handed out before removal; nothing handed out otherwise),
push-notify (every insertion is followed by a wake-up or shares its critical section with one), no-escape
(no pointer to protected state leaves the class).
"""
TECHNIQUE = "lockset and typestate dataflow over the flattened control-flow graph"
LEVEL_NOTE = """Exhaustive over all paths of every public queue operation for two instantiations; sound for data races on the
queue's own members because they are private to the class. Trusts the lock and condition-variable library classes."""
ASSUMPTIONS = ["boost/std lock and condition-variable classes behave as documented",
               "allocation failure is not modelled"]
MINIMUM = {"access-under-lock": 8, "lock-balanced": 8, "push-notify": 2, "pop-one": 4, "wait-predicate": 2}

CLS = "thread::ThreadSafeQueue<"
JOBS = [{"id": "q", "roots": [r"thread::ThreadSafeQueue<.*>::[A-Za-z_]+\("], "notroots": [r"::~?ThreadSafeQueue\(", "lambda"],
         "inline": [r"^(void|bool) boost::condition_variable(_any)?::wait<", r"^(void|bool) std::condition_variable(_any)?::wait<",
                    r"std::(move|forward|__addressof|addressof)<"]}]

LOCK_CLS = re.compile(r"(boost|std)::(unique_lock|lock_guard|scoped_lock|shared_lock|upgrade_lock)<")
MUTEX_TYPE = re.compile(r"(mutex|spinlock|SharedMutex)")
COND_TYPE = re.compile(r"condition_variable")
INS = {"push", "emplace", "push_back", "emplace_back", "push_front", "emplace_front"}
REM = {"pop": "front", "pop_front": "front", "pop_back": "back"}
READ = {"front": "front", "back": "back", "top": "front"}


def lock_event(prog, i, fn):
    """classify a call: ('acquire', guard, mutex) ('release', guard) ('dtor', guard) ('wait', guard) ('notify',) or None"""
    d = prog.callee_dem(i)
    if not d:
        return None
    s = prog.base(i.callee)
    last = s.split("::")[-1]
    m = LOCK_CLS.search(d.split("(")[0]) if not d.startswith("void boost::condition") else None
    if LOCK_CLS.match(d):
        if last.startswith("~"):
            return ("dtor", addr(fn, i.args[0])[:2])
        if last in ("unique_lock", "lock_guard", "scoped_lock", "shared_lock", "upgrade_lock"):
            if len(i.args) >= 2:
                kind = "acquire"
                if len(i.args) > 2 or "defer_lock" in d or "try_to_lock" in d:
                    kind = "adopt" if "adopt" in d else ("defer" if "defer" in d else "try")
                return (kind, addr(fn, i.args[0])[:2], addr(fn, i.args[1])[:2])
            return ("dtor", addr(fn, i.args[0])[:2])
        if last == "lock":
            return ("relock", addr(fn, i.args[0])[:2])
        if last == "unlock":
            return ("release", addr(fn, i.args[0])[:2])
        return None
    if re.match(r"(boost|std)::(recursive_|timed_|shared_)*mutex::", d):
        if last == "lock":
            return ("mlock", addr(fn, i.args[0])[:2])
        if last == "unlock":
            return ("munlock", addr(fn, i.args[0])[:2])
        return None
    if "condition_variable" in s:
        if last.startswith("notify_"):
            return ("notify", last)
        if "wait" in last:
            return ("wait", addr(fn, i.args[1])[:2])
    return None


class St(tuple):
    """(locks, E, ins, notified_in_cs, pending_notify, removed, copied)"""


def check(ck, prog):
    fns = prog.jobs["q"]
    ck.need(len(fns) >= 6, "methods of the thread-safe queue")
    # roles are found from effects; make sure all are present
    roles = set()
    common = {}
    for fn in fns:
        cls = fn.dem.split("::")  # not used for layout
        tid, lay = layout_of(prog, fn)
        ck.need(lay is not None, "layout of " + fn.dem)
        acc = [e["acc"] for e in lay["elems"] if e["k"] == "f" and e["n"] == prog.base(fn.name).split("::")[-1]
               and len(e["ptypes"]) == len(fn.d.get("ptypes", [])) ]
        if acc and "public" not in acc:
            ck.count("non_public_helpers_analysed_inside_their_callers")
            continue
        mutexes, conds, prot = [], [], []
        for e in lay["elems"]:
            if e["k"] != "m":
                continue
            t = prog.classes.get(e["t"], {}).get("name", e["t"])
            if COND_TYPE.search(t):
                conds.append((e["off"], e["off"] + e["size"]))
            elif MUTEX_TYPE.search(t):
                mutexes.append(e["off"])
            else:
                prot.append((e["off"], e["off"] + e["size"], e["n"]))
        ck.need(mutexes and prot, "mutex and data members of the queue")
        if ck.config == "thread":
            ck.count("methods")
        analyse(ck, prog, fn, mutexes, prot, roles, common.setdefault(tid, {}))
    for tid, members in common.items():
        for n, sites in members.items():
            shared = frozenset.intersection(*[h for h, _ in sites])
            where = "%s of %s" % (n, prog.classes[tid]["name"].split("::")[-1][:60])
            ck.ob("access-under-lock", where, bool(shared),
                  "no one mutex is held at every access: %s" % "; ".join(
                      "%s under the mutex at offset %s" % (w, "/".join(map(str, sorted(h)))) for h, w in sorted(set(sites), key=str)[:6]),
                  "access-under-lock:common:" + n)
    ck.need({"push", "pop", "wait"} <= roles, "push, pop and waiting operations of the queue (found %s)" % sorted(roles))


def layout_of(prog, fn):
    a = this_index(fn)
    dt = fn.d["args"][a].get("dt", "")
    # `this` is passed as a pointer to the class
    k = dt.rstrip("*&")
    if k in prog.classes:
        return k, prog.classes[k]
    m = re.match(r"(.*ThreadSafeQueue<.*>)::", fn.dem)
    for kk, c in prog.classes.items():
        if m and c["name"].replace(" ", "") == m.group(1).split(" ")[-1].replace(" ", ""):
            return kk, c
    return None, None


def this_index(fn):
    for n, a in enumerate(fn.d["args"]):
        if a.get("n") == "this":
            return n
    return 1 if fn.d["args"] and fn.d["args"][0].get("sret") else 0


def analyse(ck, prog, fn, mutexes, prot, roles, common):
    this = "a%d" % this_index(fn)
    others = ["a%d" % n for n in range(len(fn.d["args"])) if "a%d" % n != this]
    name = fn.dem.split("(")[0].split("ThreadSafeQueue")[-1]
    T = fn.dem.split("ThreadSafeQueue<")[1].split(">::")[0].split("::")[-1][:24]
    where0 = "%s %s [T=%s]" % (fn.loc, prog.base(fn.name).split("::")[-1], T)

    def protected(v):
        b, o, _ = addr(fn, v)
        return b == this and any(lo <= o < hi for lo, hi, _ in prot)

    reads = set()      # ids of front()/back() results
    problems = {}
    counted = {}

    def touch(rule, i):
        counted.setdefault((rule, i.id), i)

    def bad(rule, i, msg):
        problems.setdefault((rule, i.id), (i, msg))

    def from_read(v):
        return any(x in reads for x in derives(fn, v)) if v in fn.defs else False

    empties = {}

    for i in fn.calls():
        last = prog.base(i.callee).split("::")[-1] if i.callee else ""
        if i.args and protected(i.args[0]) and last in READ:
            reads.add(i.id)

    mutual = {(this, m) for m in mutexes}
    # (held frozenset((guard,mutex,owned)), known, inserted, notified_in_cs, owed, removed, copied, readkind)
    init = (frozenset(), None, 0, False, False, 0, False, None)

    def used(v, h, i):
        own = frozenset(m[1] for g, m, o in h if o and m in mutual)
        b, o, _ = addr(fn, v)
        for lo, hi, n in prot:
            if own and b == this and lo <= o < hi:
                common.setdefault(n, set()).add((own, i.repo_loc))

    def held(h):
        return any(m in mutual and o for g, m, o in h)

    def drop_cs(s):
        return (s[0], None, s[2], False, s[4], s[5], s[6], None)

    def step(i, s):
        h, known, ins, ncs, owed, rem, cop, rk = s
        if i.is_call():
            ev = lock_event(prog, i, fn)
            if ev:
                k = ev[0]
                if k in ("acquire", "adopt", "try", "defer"):
                    own = k in ("acquire", "adopt")
                    h2 = frozenset(x for x in h if x[0] != ev[1]) | {(ev[1], ev[2], own)}
                    s = drop_cs((h2,) + s[1:]) if not held(h) else (h2,) + s[1:]
                    return [("n", s)]
                if k == "mlock":
                    return [("n", drop_cs((h | {(("direct",), ev[1], True)},) + s[1:]))]
                if k == "munlock":
                    h2 = frozenset(x for x in h if not (x[0] == ("direct",) and x[1] == ev[1]))
                    return [("n", drop_cs((h2,) + s[1:]))]
                if k == "relock":
                    h2 = frozenset((g, m, True) if g == ev[1] else (g, m, o) for g, m, o in h)
                    return [("n", drop_cs((h2,) + s[1:]))]
                if k == "release":
                    h2 = frozenset((g, m, False) if g == ev[1] else (g, m, o) for g, m, o in h)
                    return [("n", drop_cs((h2,) + s[1:]))]
                if k == "dtor":
                    h2 = frozenset(x for x in h if x[0] != ev[1])
                    return [("n", drop_cs((h2,) + s[1:]))]
                if k == "notify":
                    return [("n", (h, known, ins, True if held(h) else ncs, False, rem, cop, rk))]
                if k == "wait":
                    roles.add("wait")
                    touch("wait-predicate", i)
                    if not held(h):
                        bad("wait-predicate", i, "waits on the condition without holding the queue's mutex")
                    elif known != "empty":
                        bad("wait-predicate", i, "waits without having found the queue empty under the lock (an element may already be there)")
                    n = (h, None, ins, False, owed, rem, cop, None)
                    return [("n", n), ("t", ("ti", "_ZTIN5boost18thread_interruptedE"), n)]
            if i.callee and i.args:
                for k, a in enumerate(i.args):
                    if isinstance(a, str) and protected(a):
                        touch("access-under-lock", i)
                        used(a, h, i)
                        if not held(h):
                            bad("access-under-lock", i, "accesses the queue's contents without holding its mutex")
                last = prog.base(i.callee).split("::")[-1]
                if protected(i.args[0]):
                    if last in INS:
                        roles.add("push")
                        touch("push-notify", i)
                        n = (h, "nonempty", min(ins + 1, 2), ncs, not ncs, rem, cop, rk)
                        return [("n", n)]
                    if last in REM:
                        roles.add("pop")
                        touch("pop-nonempty", i)
                        if known != "nonempty":
                            bad("pop-nonempty", i, "removes an element without having found the queue non-empty in this critical section")
                        if not cop:
                            bad("pop-one", i, "removes an element before its value has been handed out")
                        elif rk != REM[last]:
                            bad("pop-one", i, "removes a different element from the one handed out")
                        return [("n", (h, None, ins, ncs, owed, min(rem + 1, 2), cop, None))]
                    if last in READ:
                        touch("pop-nonempty", i)
                        if known != "nonempty":
                            bad("pop-nonempty", i, "reads an element without having found the queue non-empty in this critical section")
                        return [("n", (h, known, ins, ncs, owed, rem, cop, READ[last]))]
                    if last in ("clear", "swap", "erase"):
                        bad("pop-one", i, "discards elements that were never handed out")
                # handing out: a call that gets both the element and an out-parameter / return slot
                if rk and any(from_read(a) for a in i.args if isinstance(a, str)):
                    if any(addr(fn, a)[0] in others or is_local(fn, a) for a in i.args if isinstance(a, str) and not from_read(a)):
                        return [("n", (h, known, ins, ncs, owed, rem, True, rk))]
                elif not rk and any(a in fn.defs and from_read(a) for a in i.args if isinstance(a, str)) and rem:
                    if any(addr(fn, a)[0] in reads for a in i.args if isinstance(a, str)):
                        bad("pop-one", i, "uses the element after it has been removed")
            return [("n", s)]
        if i.op in ("load", "store"):
            p = i.args[-1]
            if protected(p):
                touch("access-under-lock", i)
                used(p, h, i)
                if not held(h):
                    bad("access-under-lock", i, "accesses the queue's contents without holding its mutex")
            if i.op == "load" and addr(fn, p)[0] in reads and rk is None:
                bad("pop-one", i, "reads the element after it has been removed")
            if i.op == "store" and rk and from_read(i.args[0]) and (addr(fn, p)[0] in others or is_local(fn, p)):
                return [("n", (h, known, ins, ncs, owed, rem, True, rk))]
        return [("n", s)]

    def branch(c, val, s):
        """learn emptiness from the branch condition"""
        h, known, ins, ncs, owed, rem, cop, rk = s
        d = fn.defs.get(c)
        neg = False
        while d is not None and d.op == "xor" and cint(d.args[1]) in (1, -1):
            neg = not neg
            d = fn.defs.get(d.args[0])
        if d is None:
            return s
        if d.is_call() and d.callee and d.args and prog.base(d.callee).split("::")[-1] in ("owns_lock", "operator bool", "try_lock", "timed_lock", "operator!"):
            g = addr(fn, d.args[0])[:2]
            own = (bool(val) != neg) != (prog.base(d.callee).split("::")[-1] == "operator!")
            if any(x[0] == g for x in h):
                return (frozenset((a, m, own if a == g else o) for a, m, o in h),) + s[1:]
            return s
        e = None
        if d.is_call() and d.callee and prog.base(d.callee).split("::")[-1] == "empty" and d.args and protected(d.args[0]):
            e = bool(val) != neg
        elif d.op == "icmp" and d.get("pred") in ("eq", "ne", "ugt", "ult", "sgt"):
            q = fn.defs.get(d.args[0])
            while q is not None and q.op in ("trunc", "zext", "sext"):
                q = fn.defs.get(q.args[0])
            k = cint(d.args[1])
            if q is not None and q.is_call() and q.callee and prog.base(q.callee).split("::")[-1] == "size" and protected(q.args[0]):
                p = d.get("pred")
                t = bool(val) != neg
                if p in ("eq",) and k == 0:
                    e = t
                elif p in ("ne", "ugt", "sgt") and k == 0:
                    e = not t
                elif p == "ult" and k == 1:
                    e = t
        if e is None or not held(h):
            return s
        k = "empty" if e else "nonempty"
        return (h, k, ins, ncs, owed, rem, cop, rk)

    exits, nodes = explore(fn, init, step, branch=branch)
    ck.count("states", nodes)
    rets = 0
    boolish = fn.d["ret"] == "i1" or fn.d["ret"] == "i8"
    pops = any((r == "pop-nonempty") for r, _ in counted)
    adds = [i for (r, _), i in counted.items() if r == "push-notify"]
    always = fn.d["ret"] == "void" and len(others) == 1 and adds and not any(fn.loop_of(i.bb) for i in adds)
    for ex in exits:
        i, s, path = ex[1], ex[2], ex[3]
        h, known, ins, ncs, owed, rem, cop, rk = s
        counted.setdefault(("lock-balanced", i.id), i)
        if any(o for g, m, o in h):
            bad("lock-balanced", i, "leaves with the queue's mutex held: " + trace(path))
        if ex[0] == "ret":
            if always and ins == 0:
                bad("push-notify", adds[0], "returns without having inserted its element: " + trace(path))
            if owed:
                bad("push-notify", i, "an element is inserted but no waiter is woken afterwards: " + trace(path))
            if pops:
                counted.setdefault(("pop-one", i.id), i)
                if rem > 1:
                    bad("pop-one", i, "removes more than one element: " + trace(path))
                if boolish and ex[4] is not None and bool(ex[4] & 1) != (rem == 1):
                    bad("pop-one", i, "reports %s although %d element(s) were removed: %s" % (bool(ex[4] & 1), rem, trace(path)))
                if not boolish and rem == 0:
                    bad("pop-one", i, "returns without having removed an element: " + trace(path))
            if fn.d["ret"] == "ptr" and i.args and protected(i.args[0]):
                bad("no-escape", i, "returns a pointer to the protected contents")
        elif rem and ex[0] == "escape":
            pass
    for (rule, _), i in counted.items():
        if (rule, i.id) not in problems:
            ck.ob(rule, "%s at %s" % (where0, i.repo_loc), True)
    for (rule, _), (i, msg) in problems.items():
        ck.ob(rule, "%s at %s" % (where0, i.repo_loc), False, msg, "%s:%s" % (rule, prog.base(fn.name).split("::")[-1]))


def is_local(fn, v):
    d = fn.defs.get(addr(fn, v)[0])
    return d is not None and d.op == "alloca"
