"""C18: an optimiser run does not depend on earlier runs of the same object."""
import re
from checks.c19 import fields
from flow import explore
from heap import is_ctor, is_receiver, split_params
from ir import ACCESSORS

TECHNIQUE = ("definite-assignment (must-write) dataflow over access paths rooted at the optimiser object and at mutable globals, with everything of the library inlined: state that runs change and a run can read before "
             "that run has overwritten it")
LEVEL_NOTE = ("every FindOptimalParameters, the genetic algorithm's Optimize, both parameters processors and the common Optimize of continuous optimisers; all paths; state behind virtual calls (worker pools, the user's mutator) and the process-wide "
              "random generator are outside; elements of containers that are refilled by a loop are not judged")
EXPLANATION = """
A run is Optimize followed by the search of the class (for the processors: ProcessParameters). The analysis walks the inlined run and resolves every read and write to an access path of the object (a member, what a member
points to, an element of a container) or to a mutable global of the library. Rules: own-state (a member or pointee that some run changes is, on every path, overwritten as a whole before a run reads it; a member that is only read
to be added to itself is a statistic and exempt; a member no run changes is a setting), global-state (the same for variables with static storage), request (what the search of any class reads of the common optimiser state was
written by Optimize before it starts the search).
"""
ASSUMPTIONS = ["worker pools and user mutators have no state that changes results", "runs of one object do not overlap"]
CONFIGS = ["thread"]
OPAQUE = [r"^std::", r"^boost::", r"k52::common::Random", r"^k52::parallel::", r"IdentifyableObjectsManager"]
ROOT = re.compile(r"^k52::optimization::(\w+)::(FindOptimalParameters|ProcessParameters|Optimize)\(")


def sel(j):
    return [f for f, d in j["funcs"].items() if d.get("repo") and ROOT.match(j["dem"].get(f, f)) and not d.get("decl")]


JOBS = [{"id": "run", "select": sel, "opaque": OPAQUE, "inline": ACCESSORS}]
KEEP = re.compile(r"^(begin|end|cbegin|cend|rbegin|rend|find|front|back|data|at|operator\[\]|get|operator\*|operator->|lower_bound|upper_bound|c_str|size|empty|operator bool|operator!|key_comp|hash_function|capacity|max_size|get_allocator|_M_\w+)$")
WHOLE = re.compile(r"^(operator=|clear|assign|reset)$")
FILL = re.compile(r"^std::(fill|fill_n|generate|generate_n|iota)$")
SKIP = re.compile(r"^(llvm\.(lifetime|dbg|assume|experimental|type|stack)|__cxa_|__clang|operator delete|operator new|std::terminate)")


class Types:
    """names of the members along an access path"""
    def __init__(self, prog):
        self.prog = prog
        self.by = {c["name"]: k for k, c in prog.classes.items()}
        self.cache = {}

    def fields(self, cls):
        if cls not in self.cache:
            fs = sorted(fields(self.prog, self.by.get(cls)), key=lambda x: x[1]) if cls in self.by else []
            self.cache[cls] = fs
        return self.cache[cls]

    def name_of(self, mangled):
        t = str(mangled or "").rstrip("*&")
        return str(self.prog.classes.get(t, {}).get("name", t))

    def step(self, cls, off):
        """(member name, type name, offset inside the member)"""
        last = None
        for n, o, t in self.fields(cls):
            if o <= off:
                last = (n, t, off - o)
        return last

    def target(self, t):
        m = re.match(r"^(?:boost|std)::(?:shared_ptr|unique_ptr|scoped_ptr|__shared_ptr)<(.*?)(?:, std::default_delete.*)?>$", t)
        if m:
            return m.group(1).replace(" const", "").strip()
        if t.endswith("*"):
            return self.name_of(t)
        m = re.match(r"^std::(?:vector|list|deque|__cxx11::list)<(.*)$", t) or re.match(r"^std::__cxx11::list<(.*)$", t)
        if m:
            d, out = 0, ""
            for ch in m.group(1):
                if ch == "," and d == 0:
                    break
                d += (ch == "<") - (ch == ">")
                if d < 0:
                    break
                out += ch
            return out.strip()
        return ""


class Run:
    """reads and writes of one flattened run, by access path"""
    def __init__(self, prog, f, types):
        self.prog, self.f, self.types = prog, f, types
        self.this = next(("a%d" % k for k, a in enumerate(f.d["args"]) if a.get("n") == "this"), None)
        self.cls = types.name_of(next((a.get("dt") for a in f.d["args"] if a.get("n") == "this"), ""))
        self.cls = re.sub(r"::\w+\(.*$", "", f.dem) if not self.cls or self.cls not in types.by else self.cls
        self.alias = {}
        self.memo = {}
        self.aliases()

    # --- pointers
    def paths(self, v, depth=0):
        """access paths (root, steps...) a pointer value may be; the last step is a byte offset"""
        if not isinstance(v, str) or depth > 12:
            return frozenset()
        if v in self.memo:
            return self.memo[v]
        self.memo[v] = frozenset()
        r = self._paths(v, depth)
        self.memo[v] = r
        return r

    def _paths(self, v, depth):
        d = self.f.defs.get(v)
        if d is None:
            if v == self.this:
                return frozenset([("this", 0)])
            if v.startswith("@"):
                b, _, o = v[1:].partition("+")
                g = self.prog.globals.get(b)
                if g and g.get("repo") and not g.get("const") and not g.get("dconst") and not b.startswith("_ZGV"):
                    return frozenset([("@" + b, int(o or 0))])
            return frozenset()
        if d.op == "alloca":
            return frozenset(self.alias.get(v, ()))
        if d.op in ("bitcast", "freeze", "addrspacecast"):
            return self.paths(d.args[0], depth + 1)
        if d.op == "getelementptr":
            r = set()
            for p in self.paths(d.d["p"], depth + 1):
                if d.d.get("vo") or d.d.get("off") is None:
                    r.add(p)
                else:
                    r.add(p[:-1] + (p[-1] + d.d["off"],))
            return frozenset(r)
        if d.op == "load":
            return frozenset(self.norm(p) + ("*", 0) for p in self.paths(d.args[0], depth + 1) if len(p) < 12)
        if d.op == "phi":
            r = set()
            for _, x in d.args:
                r |= self.paths(x, depth + 1)
            return frozenset(r) if len(r) <= 4 else frozenset()
        if d.op == "select":
            return self.paths(d.args[1], depth + 1) | self.paths(d.args[2], depth + 1)
        if d.is_call() and d.get("f") and d.args and d.get("t", "ptr") == "ptr":
            n = self.prog.dem(d.callee)
            last = self.prog.base(d.callee).split("::")[-1]
            if n.startswith(("std::", "boost::", "__gnu_cxx::")) and KEEP.match(last) and is_receiver(n):
                return frozenset(self.norm(p) + ("*", 0) for p in self.paths(d.args[0], depth + 1) if len(p) < 12)
            if n.startswith("__dynamic_cast"):
                return self.paths(d.args[0], depth + 1)
        return frozenset()

    def norm(self, p):
        """path with every offset replaced by the name of the member it falls into"""
        if p[0] == "this":
            cls = self.cls
        else:
            cls = self.types.name_of(self.prog.globals.get(p[0][1:], {}).get("dt"))
        out = [p[0]]
        t = cls
        for x in p[1:]:
            if isinstance(x, int):
                s = self.types.step(t, x) if t in self.types.by and self.types.fields(t) and t.startswith("k52::") else None
                if s:
                    out.append("." + s[0])
                    t = s[1]
            elif x == "*":
                out.append("*")
                t = self.types.target(t)
            else:
                out.append(x)
                n = x[1:]
                t = next((ft for fn, o, ft in self.types.fields(t) if fn == n), "")
        return tuple(out)

    def aliases(self):
        """local smart pointers that are made by copying one of the object's"""
        made = {}
        for i in self.f.calls():
            n = self.prog.dem(i.callee or "")
            if len(i.args) >= 2 and re.match(r"^(boost|std)::shared_ptr<", n) and (is_ctor(self.prog.base(i.callee)) or self.prog.base(i.callee).endswith("operator=")):
                d = self.f.defs.get(i.args[0])
                if d is not None and d.op == "alloca":
                    made.setdefault(i.args[0], []).append(i.args[1])
        for a, ss in made.items():
            if len(ss) == 1:
                self.memo.clear()
                ps = [p for p in self.paths(ss[0]) if p]
                if ps:
                    self.alias[a] = ps
        self.memo.clear()

    # --- events
    def events(self, i):
        """('r'|'w'|'m'|'s', path): read, overwrite, change in place, and look at the size only"""
        ev = self.raw(i)
        several = {k for k in "wm" if sum(1 for e in ev if e[0] == k) > 1}
        return [("w", p) if k == "W" else ("m" if k == "w" and (k in several or self.element(p)) else k, p) for k, p in ev]

    def raw(self, i):
        f = self.f
        ev = []
        if i.op == "load":
            for p in self.paths(i.args[0]):
                q = self.norm(p)
                ev.append(("s" if self.header(i) or self.nullcheck(i) or self.kind(q).startswith("std::") and not self.single(q) else "r", q))
        elif i.op == "store" and not self.local(i.args[1]):
            for p in self.paths(i.args[1] if len(i.args) > 1 else i.d.get("p")):
                ev.append(("m" if self.accumulates(i, self.norm(p)) else "w", self.norm(p)))
        elif i.is_call() and i.callee:
            n = self.prog.dem(i.callee)
            if n.startswith("llvm.mem"):
                for p in self.paths(i.args[0]):
                    ev.append(("w", self.norm(p)))
                if not n.startswith("llvm.memset"):
                    for p in self.paths(i.args[1]):
                        ev.append(("r", self.norm(p)))
                return ev
            if SKIP.match(n):
                return ev
            base = self.prog.base(i.callee)
            last = base.split("::")[-1]
            recv = is_receiver(n)
            pars = split_params(n)
            const = bool(re.search(r"\) const( &+)?$", n))
            sret = 1 if i.d.get("sr") else 0
            if FILL.search(base) and i.args:
                return [("W", self.norm(p)) for p in self.paths(i.args[0])]
            for k, a in enumerate(i.args):
                ps = self.paths(a)
                if not ps or not self.isptr(a) or self.local(a):
                    continue
                for p in ps:
                    q = self.norm(p)
                    if sret and k == 0:
                        ev.append(("w", q))
                    elif recv and k == sret:
                        if last.startswith("~"):
                            continue
                        if is_ctor(base) or WHOLE.match(last):
                            ev.append(("w", q))
                        elif last == "swap" or last in ("resize", "erase") and self.empties(i, last, sret):
                            ev += [("w", q)] if last != "swap" or self.local(i.args[1]) else [("r", q), ("m", q)]
                        elif last in ("resize", "reserve", "push_back", "push_front", "emplace_back", "insert", "emplace") or last.startswith(("pop_", "erase")):
                            ev.append(("m", q))
                        elif const or KEEP.match(last) and not (last == "operator[]" and "map" in base):
                            ev.append(("s" if last in ("size", "empty", "operator bool", "operator!") or last in ("begin", "end", "cbegin", "cend") and self.refills(i) else "r", q))
                        else:
                            ev += [("r", q), ("m", q)]
                    else:
                        j = k - sret - (1 if recv else 0)
                        pt = pars[j] if 0 <= j < len(pars) else "const&"
                        if "const" in pt or "iterator" in base or not pt.endswith(("&", "*")):
                            ev.append(("r", q))
                        elif last == "swap" and self.local(i.args[1 - k]):
                            ev.append(("w", q))
                        else:
                            ev += [("r", q), ("m", q)]
        return ev

    def refills(self, i):
        """an iterator that is only given to something that erases or overwrites"""
        seen, st, cs = set(), [i.id], []
        while st:
            v = st.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in self.f.uses(v):
                if u.op == "store" and u.args[0] == v:
                    st.append(u.args[1])
                elif u.op == "load":
                    st.append(u.id)
                elif u.is_call() and u.callee and not SKIP.match(self.prog.dem(u.callee)):
                    base = self.prog.base(u.callee)
                    if "iterator" in base and is_ctor(base) and len(u.args) > 1 and u.args[1] == v:
                        st.append(u.args[0])
                    elif "iterator" not in base:
                        cs.append(base)
        return bool(cs) and all(FILL.search(b) or b.endswith("::erase") for b in cs)

    def empties(self, i, last, sret):
        """the call leaves the container empty"""
        if last == "resize":
            return len(i.args) > sret + 1 and i.args[sret + 1] == "#0"
        def origin(v, depth=0):
            d = self.f.defs.get(v)
            if d is None or depth > 6:
                return set()
            if d.is_call() and d.callee:
                return {self.prog.base(d.callee).split("::")[-1]}
            if d.op == "load":
                return origin(d.args[0], depth + 1)
            r = set()
            if d.op == "alloca":
                for u in self.f.uses(v):
                    if u.op == "store" and u.args[1] == v:
                        r |= origin(u.args[0], depth + 1)
                    elif u.is_call() and u.callee and len(u.args) > 1 and u.args[0] == v:
                        r |= origin(u.args[1], depth + 1)
            return r
        x, y = origin(i.args[-2]), origin(i.args[-1])
        return x <= {"begin", "cbegin"} and y <= {"end", "cend"} and bool(x) and bool(y)

    def accumulates(self, i, path):
        """a store of the old value with something added"""
        seen, st = set(), [i.args[0]]
        while st:
            d = self.f.defs.get(st.pop())
            if d is None or d.id in seen:
                continue
            seen.add(d.id)
            if d.op == "load" and any(self.norm(p) == path for p in self.paths(d.args[0])):
                return True
            if d.op in ("add", "sub", "fadd", "fsub", "mul", "fmul", "sext", "zext", "trunc", "and", "or", "phi", "select", "sitofp", "fptosi", "uitofp"):
                st += [x for x in ([x for _, x in d.args] if d.op == "phi" else d.args) if isinstance(x, str)]
        return False

    def local(self, v):
        """the address of a local variable, whatever it points to"""
        d = self.f.defs.get(v)
        while d is not None and d.op in ("getelementptr", "bitcast"):
            d = self.f.defs.get(d.d.get("p") or d.args[0])
        return d is not None and d.op == "alloca"

    def isptr(self, v):
        d = self.f.defs.get(v)
        if d is None:
            return v.startswith("@") or v[0] == "a" and v[1:].isdigit()
        return d.op in ("alloca", "getelementptr", "bitcast") or d.get("t") == "ptr" or d.op == "load"

    def element(self, m):
        """a path through the elements of a container: writing one element does not overwrite the others"""
        return any(x == "*" and not self.single(m[:k]) for k, x in enumerate(m))

    def kind(self, m):
        """the type of what a path names"""
        t = self.cls if m[0] == "this" else ""
        for x in m[1:]:
            if x == "*":
                t = self.types.target(t)
            else:
                t = next((ft for fn, o, ft in self.types.fields(t) if fn == x[1:]), "")
        return t

    def single(self, m):
        """a path naming a pointer to one object"""
        t = self.kind(m)
        return t.endswith("*") or bool(re.match(r"^(boost|std)::(shared_ptr|unique_ptr|scoped_ptr)<", t))

    def header(self, i):
        """a load of a container's begin or end pointer that is only compared or subtracted"""
        us = self.f.uses(i.id)
        return bool(us) and all(u.op in ("ptrtoint", "icmp") for u in us)

    def nullcheck(self, i):
        us = self.f.uses(i.id)
        return bool(us) and all(u.op == "icmp" and "null" in u.args for u in us)

    def statistic(self, i, path):
        """the value read is only added to and written back to where it came from"""
        if i.op != "load":
            return False
        seen, st = set(), [i.id]
        while st:
            v = st.pop()
            for u in self.f.uses(v):
                if u.op in ("add", "sub", "fadd", "fsub", "trunc", "sext", "zext", "phi"):
                    if u.id not in seen:
                        seen.add(u.id)
                        st.append(u.id)
                elif u.op == "store" and u.args[0] == v and any(self.norm(p) == path for p in self.paths(u.args[1])):
                    continue
                else:
                    return False
        return True

    def null_edges(self):
        """(block, target) -> pointer paths known to be null there"""
        r = {}
        for b, L in enumerate(self.f.blocks):
            c = self.f.defs.get(L[-1].d.get("cond")) if L[-1].d.get("cond") else None
            neg = False
            while c is not None and c.op == "xor" and "#1" in c.args:
                neg = not neg
                c = self.f.defs.get(next(x for x in c.args if x != "#1"))
            if c is None or c.op != "icmp" or "null" not in c.args:
                continue
            x = next((x for x in c.args if x != "null"), None)
            d = self.f.defs.get(x)
            if d is None or d.op != "load":
                continue
            ps = {self.norm(p) for p in self.paths(d.args[0])}
            if len(ps) != 1:
                continue
            eq = (c.d["pred"] == "eq") != neg
            for t, l in self.f.succ[b]:
                if l == ("t" if eq else "f"):
                    r[(b, t)] = next(iter(ps))
        return r


def covered(p, written):
    return any(p[:k] in written for k in range(1, len(p) + 1))


def must(run, entry=frozenset()):
    """written paths at the start of every block"""
    f = run.f
    ev = [[(i, run.events(i)) for i in L] for L in f.blocks]
    nulls = run.null_edges()
    IN, work = {0: entry}, [0]
    while work:
        b = work.pop()
        w = set(IN[b])
        for i, es in ev[b]:
            for k, p in es:
                if k == "w":
                    w.add(p)
        for t, l in f.succ[b]:
            if l == "u":
                continue
            out = set(w)
            if (b, t) in nulls:
                out.add(nulls[(b, t)] + ("*",))
            out = frozenset(out)
            new = out if t not in IN else meet(IN[t], out)
            if t not in IN or new != IN[t]:
                IN[t] = new
                work.append(t)
    return IN, ev


def meet(a, b):
    return frozenset([p for p in a if covered(p, b)] + [p for p in b if covered(p, a)])


def guarded_by_null(run, i, path):
    nulls = run.null_edges()
    return any(q == path and t in run.f.dom()[i.bb] for (b, t), q in nulls.items())


def confirmed(run, i, path, given, ch):
    """some path leads to i without an overwrite of the path, the branches on settings and constant flags agreeing with each other"""
    if covered(path, given):
        return False
    f, nulls, evs = run.f, run.null_edges(), {}
    hit = []

    def step(x, st):
        if x.id == i.id and not st[0]:
            hit.append(x)
        es = evs.get(x.id)
        if es is None:
            es = evs[x.id] = [p for k, p in run.events(x) if k == "w"]
        if st[0] or hit or any(path[:len(p)] == p for p in es):
            return []
        return [("n", st)]

    def key(c):
        d = f.defs.get(c)
        if d is None:
            return c
        if d.op == "icmp" or d.op in ("trunc", "zext", "xor", "and"):
            ks = [key(x) if isinstance(x, str) else None for x in d.args]
            return None if None in ks else (d.op, d.d.get("pred")) + tuple(ks)
        if d.op == "load":
            ps = {run.norm(p) for p in run.paths(d.args[0])}
            if len(ps) == 1:
                p = next(iter(ps))
                if not any(q[:len(p)] == p or p[:len(q)] == q for q in ch):
                    return p
        return None

    def branch(c, val, st):
        k = key(c)
        if k is None or not isinstance(k, tuple):
            return st
        if (k, not val) in st[1]:
            return None
        return (st[0], st[1] | {(k, bool(val))})

    def enter(frm, to, st):
        if (frm, to) in nulls and path[:len(nulls[(frm, to)]) + 1] == nulls[(frm, to)] + ("*",):
            return (True, st[1])
        return st
    try:
        explore(f, (False, frozenset()), step, max_nodes=150000, branch=branch, on_enter=enter)
    except OverflowError:
        return None
    return bool(hit)


def show(p):
    r = ""
    for x in p:
        r += {"this": "", "*": "[..]"}.get(x, x if not x.startswith("@") else x)
    return r.lstrip(".") or "this"


def check(ck, prog):
    types = Types(prog)
    runs = {}
    for f in prog.jobs["run"]:
        m = ROOT.match(f.dem)
        r = Run(prog, f, types)
        if r.this is None:
            continue
        runs.setdefault(r.cls, []).append((m.group(2), r))
    ck.need(runs, "optimiser runs")
    for cls in sorted(runs):
        for what, r in runs[cls]:
            r.what = what
    common = [r for rs in runs.values() for what, r in rs if what == "Optimize" and any(x.is_call() and x.get("v") and prog.vslot_name(x.get("v"))[-1] == "FindOptimalParameters" for x in r.f.insts())]
    entry = {}
    base_changed = set()
    for r in common:
        IN, ev = must(r)
        for b in range(len(r.f.blocks)):
            if b not in IN:
                continue
            w = set(IN[b])
            for i, es in ev[b]:
                if i.is_call() and i.get("v") and prog.vslot_name(i.get("v"))[-1] == "FindOptimalParameters":
                    e = frozenset(p for p in w if p[0] == "this")
                    entry[r.cls] = e if r.cls not in entry else meet(entry[r.cls], e)
                for k, p in es:
                    if k == "w":
                        w.add(p)
                    if k in "wm" and p[0] == "this":
                        base_changed.add(p)
    given = frozenset().union(*entry.values()) if entry else frozenset()
    ck.fact("state written by the common Optimize", sorted(show(p) for p in given))
    # what runs change
    changed, gchanged = {}, set()
    facts = {}
    for cls, rs in sorted(runs.items()):
        ch = changed.setdefault(cls, set())
        for what, r in rs:
            start = given if what == "FindOptimalParameters" else frozenset()
            IN, ev = facts[r.f.name] = must(r, start)
            for b in IN:
                for i, es in ev[b]:
                    for k, p in es:
                        if k in "wm" and not guarded_by_null(r, i, p):
                            (ch if p[0] == "this" else gchanged).add(p)
        if any(what == "FindOptimalParameters" for what, r in rs):
            ch |= base_changed
    for cls, rs in sorted(runs.items()):
        short = cls.split("::")[-1]
        for what, r in rs:
            IN, ev = facts[r.f.name]
            ck.count("runs analysed")
            loops = fills(r, ev, IN)
            seen, bad = set(), {}
            for b in sorted(IN):
                w = set(IN[b])
                for i, es in ev[b]:
                    for k, p in es:
                        if k == "w":
                            w.add(p)
                        if k != "r":
                            continue
                        ch = changed[cls] if p[0] == "this" else gchanged
                        # the part of the state this read depends on that runs change
                        dep = [q for q in ch if q[:len(p)] == p or p[:len(q)] == q]
                        if len(p) > 1 and not p[1].startswith("._vptr"):
                            seen.add(p[:2] if p[0] == "this" else p[:1])
                        if not dep or covered(p, w) or r.statistic(i, p):
                            continue
                        if pointer_only(r, i, p, ch):
                            continue
                        if any(q == p or p[:len(q)] == q or q[:len(p)] == p for h, q in loops if h in r.f.dom()[b] and h != b and b not in bodies(r.f, h)):
                            ck.count("undecided")
                            continue
                        key = p[:2] if p[0] == "this" else p[:1]
                        if key not in bad:
                            sure = confirmed(r, i, p, given if what == "FindOptimalParameters" else frozenset(), changed[cls] | gchanged)
                            if sure:
                                bad[key] = (i, p)
                            elif sure is None:
                                ck.count("undecided")
            for p in sorted(seen | set(bad)):
                rule = "global-state" if p[0] != "this" else "request" if any(q[:2] == p for q in given) else "own-state"
                i, full = bad.get(p, (None, None))
                ck.ob(rule, "%s::%s %s" % (short, what, show(p)), i is None,
                      "%s::%s reads %s at %s before the run has set it, and runs change it: it holds what an earlier run left there" % (short, what, full and show(full), i and i.repo_loc),
                      "%s:%s:%s" % (rule, short, show(p)))


def bodies(f, h):
    return next((l.body for l in f.loops() if l.header == h), ())


def fills(r, ev, IN):
    """(loop header, path) of loops that write elements"""
    res = set()
    for l in r.f.loops():
        for b in l.body:
            if b in IN:
                for i, es in ev[b]:
                    for k, p in es:
                        if k in "mw" and r.element(p) or k == "m" and i.is_call() and r.prog.base(i.callee or "").split("::")[-1].startswith(("pop_", "erase")):
                            res.add((l.header, p))
    return res


def pointer_only(r, i, p, ch):
    """a load of a pointer member that runs do not change (they change what it points to)"""
    return i.op == "load" and p not in ch and not any(p[:len(q)] == q for q in ch)


MINIMUM = {"own-state": 10}
