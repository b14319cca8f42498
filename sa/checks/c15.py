"""C15: objectives are evaluated only at points that passed the constraint check."""
import re
from checks.c18 import ROOT, Run, Types, sel as run_roots, OPAQUE as RUN_OPAQUE
from heap import is_ctor
from ir import ACCESSORS
from must import Must, lost, ok, truth, verdict

TECHNIQUE = ("typestate analysis of parameter objects (modified, checked) along all paths of the inlined searches: a verdict of CheckConstraints counts on the branch where it is true and until the object is changed again")
LEVEL_NOTE = ("every FindOptimalParameters, the genetic algorithm's Optimize and the individual's operations, random search; answers of nested optimiser runs are evaluated as given; GridSearch, which cannot be instantiated, is left out")
EXPLANATION = """
The state of a parameters object becomes "modified" at SetValues, SetFromChromosome and the like, and "checked" on the branch where CheckConstraints returned true; any later modification takes it back. Rules: evaluation (at every call of an
objective function inside a search the parameters object handed over, or whose values are handed over, is checked, and is the one the point was stored in), individual (an operation of an individual that draws or mutates a chromosome
returns only with checked parameters; crossover reports success only if both partners are checked; IsValid reports what the check says), candidates (points that random search has evaluated elsewhere are checked before they are handed over),
population (individuals read from a file are used only after IsValid, initial parameters given by the user are checked, and children of a crossover are used only when it succeeded unless all individuals are mutated before the evaluation).
"""
ASSUMPTIONS = ["CheckConstraints depends on the parameters object alone and SetValues stores what it is given"]
CONFIGS = ["thread"]
IND = re.compile(r"^k52::optimization::Individual::(SetRandomChromosome|Mutate|Crossover|IsValid)\(")


def ind(j):
    return [f for f, d in j["funcs"].items() if d.get("repo") and IND.match(j["dem"].get(f, f))]


def ga(j):
    return [f for f, d in j["funcs"].items() if d.get("repo") and re.match(r"^k52::optimization::GeneticAlgorithm::(Optimize|SetInitialParameters)\(", j["dem"].get(f, f))]


JOBS = [{"id": "run", "select": run_roots, "opaque": RUN_OPAQUE, "inline": ACCESSORS},
        {"id": "ind", "select": ind, "opaque": RUN_OPAQUE, "inline": ACCESSORS},
        {"id": "ga", "select": ga, "opaque": RUN_OPAQUE + [r"k52::optimization::Individual::", r"::ObjectiveFunctionCounter::", r"k52::optimization::operator(<<|>>)", r"k52::optimization::(Individual|Generation)Statistics::"], "inline": ACCESSORS}]
SETTERS = re.compile(r"^(Set[A-Z]\w*|set_\w+|Receive)$")


class Walk:
    """typestate walk of one flattened function"""
    def __init__(self, prog, f, types):
        self.prog, self.f = prog, f
        self.run = Run(prog, f, types)
        self.slots = {}

    def slot(self, i):
        if i.id not in self.slots:
            self.slots[i.id] = self.prog.vslot_name(i.get("v"))[-1] if i.is_call() and i.get("v") else None
        return self.slots[i.id]

    def key(self, v, depth=0):
        """the object a pointer refers to"""
        f = self.f
        d = f.defs.get(v)
        if d is None or depth > 10:
            return ("v", v)
        if d.op in ("bitcast", "freeze", "addrspacecast"):
            return self.key(d.args[0], depth + 1)
        if d.op == "getelementptr" and not d.d.get("vo") and isinstance(d.d.get("off"), int):
            # a base class part of the same object
            return self.key(d.d["p"], depth + 1)
        if d.op == "getelementptr":
            p = f.defs.get(d.d["p"])
            if p is not None and p.op != "load":
                return self.key(d.d["p"], depth + 1)
            ps = self.run.paths(v)
            return ("m",) + tuple(sorted({self.run.norm(p) for p in ps})) if len(ps) == 1 else ("v", v)
        if d.is_call() and d.callee and ("__dynamic_cast" in d.callee):
            return self.key(d.args[0], depth + 1)
        if d.is_call() and d.get("v") and self.slot(d).startswith("get_parameters") or d.is_call() and self.prog.base(d.callee or "").endswith("::get"):
            return self.key(d.args[0], depth + 1)
        if d.op == "load":
            p = d.args[0]
            q = f.defs.get(p)
            while q is not None and q.op in ("getelementptr", "bitcast") and not q.d.get("vo"):
                p = q.d.get("p") or q.args[0]
                q = f.defs.get(p)
            if q is not None and q.op == "alloca":
                return ("l", p)
            ps = {self.run.norm(x[:-1]) if len(x) > 2 and x[-2] == "*" else self.run.norm(x) for x in self.run.paths(d.id)}
            if len(ps) == 1:
                return ("m", next(iter(ps)))
            if not ps:
                return ("d",) + tuple(self.deref(d))
        return ("v", v)

    def deref(self, d):
        """a load through a pointer argument, by its shape"""
        n, off = 0, []
        v = d.id
        while True:
            x = self.f.defs.get(v)
            if x is None:
                return (v, n) + tuple(off)
            if x.op == "load":
                n += 1
                v = x.args[0]
            elif x.op == "getelementptr" and not x.d.get("vo") and isinstance(x.d.get("off"), int):
                off.append((n, x.d["off"]))
                v = x.d["p"]
            elif x.op in ("bitcast", "freeze"):
                v = x.args[0]
            else:
                return (v, n) + tuple(off)

    def transfer(self, client):
        """facts about parameter objects: ok after a successful check until the object is changed or replaced"""
        def t(i, st):
            if i.id and any(len(x) > 1 and x[-1] == ("v", i.id) for x in st if x[0] in ("ok", "imp")):
                st = lost(st, ("v", i.id))
            if not i.is_call():
                return client(i, None, None, st)
            s = self.slot(i)
            k = None
            if s == "CheckConstraints":
                k = self.key(i.args[0])
                st = verdict(st, i.id, k)
            elif s and SETTERS.match(s) and i.args:
                k = self.key(i.args[0])
                st = lost(st, k)
            elif i.callee and i.args:
                # a local smart pointer that is made to point elsewhere
                r = self.renewed(i)
                if r:
                    st = lost(st, r)
            return client(i, s, k, st)
        return t

    def renewed(self, i):
        base = self.prog.base(i.callee) if i.callee else ""
        if i.args and SMART.match(base) and (is_ctor(base) or base.split("::")[-1] in ("operator=", "reset", "swap")):
            d = self.f.defs.get(i.args[0])
            if d is not None and d.op == "alloca":
                return ("l", i.args[0])

    def drop(self, frm, to, st):
        for p in self.f.blocks[to]:
            if p.op != "phi":
                break
            st = lost(st, ("v", p.id))
        return st

    def must(self, client, init=()):
        return Must(self.f, init, self.transfer(client), self.drop)


SMART = re.compile(r"^(boost|std)::(__)?shared_ptr")


def check(ck, prog):
    types = Types(prog)
    n = 0
    for f in sorted(prog.jobs["run"], key=lambda f: f.dem):
        m = ROOT.match(f.dem)
        if m.group(1) in ("GridSearch", "GeneticAlgorithm") or m.group(2) != "FindOptimalParameters":
            continue
        n += 1
        search(ck, prog, Walk(prog, f, types), m.group(1))
    ck.need(n, "continuous searches")
    for f in sorted(prog.jobs["ind"], key=lambda f: f.dem):
        individual(ck, prog, Walk(prog, f, types), IND.match(f.dem).group(1))
    genetic(ck, prog, types)


def root(f, v):
    """the object an address lies in or is loaded from"""
    d = f.defs.get(v)
    while d is not None and d.op in ("bitcast", "getelementptr", "load"):
        v = d.d.get("p") or d.args[0]
        d = f.defs.get(v)
    return v


def search(ck, prog, w, short):
    f = w.f

    def client(i, s, k, st):
        if k is not None and s != "CheckConstraints":
            # the point stored in the object
            st = frozenset(x for x in st if not (x[0] in ("val", "got") and x[-1] == k))
            if len(i.args) > 1:
                st = st | {("val", i.args[1], k)}
            return st
        if i.op == "store" and any(x[0] in ("val", "got") for x in st):
            r = root(f, i.args[1])
            return frozenset(x for x in st if not (x[0] in ("val", "got") and x[1] == r))
        if not i.is_call():
            return st
        if s == "GetValues" and i.args:
            to, obj = (i.args[0], i.args[1]) if i.get("sr") else (i.id, i.args[0])
            return frozenset(x for x in st if not (x[0] in ("got", "val") and x[1] == to)) | {("got", to, w.key(obj))}
        r = w.renewed(i)
        if r:
            st = frozenset(x for x in st if not (x[0] in ("val", "got") and x[-1] == r))
        elif i.callee and i.args and i.callee.startswith("_ZNS") and prog.base(i.callee).startswith("std::vector") and not re.match(r"_ZNKS", i.callee) and prog.base(i.callee).split("::")[-1] in CHANGES:
            # a point that is changed after it was stored
            r = root(f, i.args[0])
            st = frozenset(x for x in st if not (x[0] in ("val", "got") and x[1] == r))
        return st

    def judge(i, st):
        if w.slot(i) != "operator()" or len(i.args) < 2:
            return None
        v = i.args[1]
        pts = " ".join(prog.dem(x) for x in i.get("v")[2:])
        if "vector<double" in pts and "IContinuousParameters*" not in pts and "IParameters" not in pts:
            r = root(f, v)
            return any(x[0] in ("val", "got") and x[1] in (v, r) and ok(st, x[2]) for x in st)
        return ok(st, w.key(v))
    m = w.must(client)
    bad = m.bad(judge)
    for i in m.reached(lambda i, st: judge(i, st) is not None):
        ck.ob("evaluation", "%s at %s" % (short, i.repo_loc), id(i) not in bad,
              "the objective function is evaluated at %s on a path where the constraints of the parameters it is given have not been found to hold since they were last changed" % i.repo_loc, "evaluation:%s" % short)
    if any(w.slot(i) == "ProcessParameters" for i in f.calls()):
        candidates(ck, prog, w, short)


CHANGES = ("operator=", "swap", "push_back", "pop_back", "resize", "clear", "assign", "insert", "erase", "emplace_back")


def candidates(ck, prog, w, short):
    """random points are checked before somebody else evaluates them"""
    f = w.f
    keys = {w.key(i.args[0]) for i in f.calls() if w.slot(i) and (SETTERS.match(w.slot(i)) or w.slot(i) == "CheckConstraints") and i.args}
    if not keys:
        ck.count("undecided")
        return

    def outside(i):
        """the object a call puts into a container: (key, by value)"""
        base = prog.base(i.callee) if i.callee else ""
        if len(i.args) < 2 or i.get("v"):
            return None
        if not (SMART.match(base) and base.endswith("operator=") and not alloca(i.args[0]) or base.split("::")[-1] in ("push_back", "emplace_back")):
            return None
        return w.key(i.args[1]) if not alloca(i.args[1]) else ("l", i.args[1])

    def alloca(v):
        v = w.f.defs.get(v)
        while v is not None and v.op == "bitcast":
            v = w.f.defs.get(v.args[0])
        return v is not None and v.op == "alloca"

    def client(i, s, k, st):
        if s == "CheckConstraints":
            return verdict(st, i.id, k, ("fine", k))
        if k is not None:
            return st if ("out", k) in st else lost(st, ("fine", k))
        r = w.renewed(i) if i.is_call() else None
        if r:
            return (st - {("out", r)} | {("out", r), ("ok", ("fine", r))})
        o = outside(i) if i.is_call() else None
        if o in keys:
            st = st - {("out", o)}
            if not ok(st, o):
                # values conditional on a later check stay conditional
                st = st - {("ok", ("fine", o))}
        return st

    def judge(i, st):
        if not i.is_call():
            return None
        r = w.renewed(i)
        if r in keys:
            return ok(st, ("fine", r))
        if w.slot(i) == "ProcessParameters":
            return all(ok(st, ("fine", k)) for k in keys)
    m = w.must(client, [("ok", ("fine", k)) for k in keys] + [("out", k) for k in keys])
    bad = m.bad(judge)
    where = next(iter(bad.values())).repo_loc if bad else ""
    for i in f.calls():
        if w.slot(i) == "ProcessParameters":
            ck.ob("candidates", "%s hands over candidates at %s" % (short, i.repo_loc), not bad, "points are handed over for evaluation although their constraints were not found to hold (%s)" % where, "candidates:" + short)


def individual(ck, prog, w, what):
    f = w.f
    keys = {w.key(i.args[0]) for i in f.calls() if w.slot(i) and SETTERS.match(w.slot(i)) and i.args}
    if what == "IsValid":
        keys = {w.key(i.args[0]) for i in f.calls() if w.slot(i) == "CheckConstraints"} or {("no check",)}
        init = []
    else:
        # untouched parameters are as good as before
        init = [("ok", k) for k in keys]
    if not keys:
        ck.count("undecided")
        return

    def judge(i, st):
        if i.op != "ret":
            return None
        if what in ("Crossover", "IsValid") and i.args:
            v = i.args[0]
            if v in ("#0", "#1", "#-1"):
                return v == "#0" or all(ok(st, k) for k in keys)
            y = truth(f, v)
            if y:
                return ("imp", y[0], y[1], "*") in st or all(ok(st, k) or ("imp", y[0], y[1], k) in st for k in keys)
            return None
        return all(ok(st, k) for k in keys)
    m = w.must(lambda i, s, k, st: st, init)
    bad = m.bad(judge)
    for i in m.reached(lambda i, st: judge(i, st) is not None):
        ck.ob("individual", "%s at %s" % (what, i.repo_loc), id(i) not in bad, {
            "Crossover": "Individual::Crossover can report success although the constraints of a partner's parameters have not been found to hold after the exchange",
            "IsValid": "Individual::IsValid can answer yes although the constraints were not found to hold"}.get(what, "Individual::%s can return at %s with parameters whose constraints have not been found to hold" % (what, i.repo_loc)), "individual:" + what)


def genetic(ck, prog, types):
    fs = {f.dem.split("(")[0].split("::")[-1]: f for f in prog.jobs["ga"] if "IObjectiveFunction const&" not in f.dem}
    f = fs.get("Optimize")
    if f is None:
        ck.count("undecided")
        return
    w = Walk(prog, f, types)
    name = lambda i: prog.base(i.callee) if i.callee else ""
    reads = [i for i in f.calls() if i.callee and "operator>>" in prog.dem(i.callee) and "k52::optimization::Individual" in prog.dem(i.callee)]
    cross = [i for i in f.calls() if name(i).endswith("Individual::Crossover")]
    heads = {l.header: l for l in mutating(prog, f, w)}

    def holder(v):
        v = root(f, v)
        d = f.defs.get(v)
        return v if d is not None and d.op == "alloca" else None
    locs = {h for i in cross for a in i.args[:2] for h in [holder(a)] if h}
    for _ in range(5):
        for i in f.calls():
            if i.callee and SMART.match(name(i)) and len(i.args) >= 2 and holder(i.args[1]) in locs and holder(i.args[0]) and w.renewed(i):
                locs.add(holder(i.args[0]))
    for i in cross:
        if not all(holder(a) for a in i.args[:2]):
            ck.count("undecided")

    def client(i, s, k, st):
        if not i.is_call():
            return st
        n = name(i)
        if i in reads:
            return lost(st, "read")
        if n.endswith("Individual::IsValid"):
            return verdict(st, i.id, "read")
        if re.search(r"Individual::(SetRandomChromosome|Mutate)$", n):
            return st | {("ok", "read")}
        if n.endswith("Individual::Crossover"):
            hs = ["c" + h for h in (holder(i.args[0]), holder(i.args[1])) if h]
            return verdict(lost(st, *hs), i.id, *hs)
        if i.callee and len(i.args) >= 2 and (SMART.match(n) or n.split("::")[-1] in ("push_back", "emplace_back")):
            src, dst = holder(i.args[1]), w.renewed(i)
            good = src not in locs or ok(st, "c" + src)
            if dst:
                if dst[1] in locs:
                    st = st | {("ok", "c" + dst[1])} if good else lost(st, "c" + dst[1])
            elif (n.endswith("operator=") or n.endswith("_back")) and not good:
                st = lost(st, "pop")
        return st

    def edge(frm, to, st):
        for h, l in heads.items():
            if frm == h and to not in l.body:
                st = st | {("ok", "pop")}
        return w.drop(frm, to, st)

    def evaluates(i):
        return i.is_call() and name(i).endswith("::ObtainFitness")
    m = Must(f, [("ok", "read"), ("ok", "pop")] + [("ok", "c" + h) for h in locs], w.transfer(client), edge)
    bad = m.bad(lambda i, st: ok(st, "read") if i in reads or evaluates(i) else None)
    for i in reads:
        ck.ob("population", "individual read at %s" % i.repo_loc, not bad, "an individual read from a stream is used (%s) without being found valid" % (bad and next(iter(bad.values())).repo_loc), "population:read")
    bad = m.bad(lambda i, st: ok(st, "pop") if evaluates(i) else None)
    for i in cross:
        ck.ob("population", "crossover at %s" % i.repo_loc, not bad, "children of a crossover that was not found successful reach the evaluation at %s, and no mutation of the whole population comes in between" % (bad and next(iter(bad.values())).repo_loc),
              "population:crossover")
    initial(ck, prog, types, fs, w)


def mutating(prog, f, w):
    """loops that mutate an individual on every iteration, starting from the first"""
    res = []
    dom = f.dom()
    for l in f.loops():
        ms = [i for b in l.body for i in f.blocks[b] if i.is_call() and i.callee and prog.base(i.callee).endswith("Individual::Mutate")]
        if not any(all(i.bb in dom[x] for x in l.latches) for i in ms):
            continue
        starts = []
        for p in f.blocks[l.header]:
            if p.op == "phi":
                starts += [v for b, v in p.args if b not in l.body]
        nums = [s for s in starts if isinstance(s, str) and s.startswith("#")]
        if nums and "#0" not in nums:
            continue
        res.append(l)
    return res


def initial(ck, prog, types, fs, w):
    """initial parameters given by the user are checked when they are set or before they are used"""
    f = w.f
    uses = [i for i in f.calls() if i.callee and prog.base(i.callee).endswith("Individual::Initialize") and len(i.args) > 1 and any("initial_parameters" in str(p) or given_elements(w, p) for p in w.run.paths(i.args[1]))]
    if not uses:
        ck.count("undecided")
        return
    good = None
    for g in (f, fs.get("SetInitialParameters")):
        if g is None:
            continue
        wg = w if g is f else Walk(prog, g, types)
        for c in g.calls():
            l = g.loop_of(c.bb)
            if wg.slot(c) == "CheckConstraints":
                if not any(given_elements(wg, p) for p in wg.run.paths(c.args[0])):
                    continue
            elif not (c.callee and prog.base(c.callee).endswith("Individual::IsValid")) or l is None or any(x.is_call() and x.callee and "operator>>" in prog.dem(x.callee) for b in l.body for x in g.blocks[b]):
                continue
            while l is not None and not all(c.bb in g.dom()[x] for x in l.latches):
                l = None
            if l is None:
                continue
            # the refused branch leads to no normal return
            for b in l.body:
                t = g.blocks[b][-1]
                v = truth(g, t.d["cond"]) if t.d.get("cond") else None
                if v and v[0] == c.id:
                    no = next(x for x, lab in g.succ[b] if lab == ("f" if v[1] else "t"))
                    reach = g.reachable_from(no)
                    if not any(x.op == "ret" for y in reach for x in g.blocks[y]):
                        good = c
    ck.ob("population", "initial parameters used at %s" % uses[0].repo_loc, good is not None, "initial parameters given by the user become individuals at %s without having been checked against the constraints" % uses[0].repo_loc, "population:initial")


def given_elements(w, p):
    n = w.run.norm(p)
    return n[0] == "this" and "*" in n and "IDiscreteParameters" in w.run.kind(n[:2])


MINIMUM = {"evaluation": 5, "individual": 3}
