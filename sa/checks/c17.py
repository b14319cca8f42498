"""C17: the best of several candidates is really the one returned."""
import re
from align import Align, find
from argbest import Select, trip_end
from ir import ACCESSORS
from sym import Lin
from val import addr, cint, key

TECHNIQUE = ("symbolic container contents plus an order-lattice dataflow over the paths of one iteration of each selection loop; typestate of vertex/value pairs for the simplex")
LEVEL_NOTE = "every parameters processor, random search's forwarding and the simplex method; all orderings of candidate values, both directions"
EXPLANATION = """
A processor hands back one of the candidates it was given (or one derived from each by an inner optimisation). The analysis expresses every container element as a function of its index (through the
tasks, the pool's row-wise answer and the results), finds the loop that keeps the best and splits one iteration into its paths. On each path the comparisons taken restrict how the new candidate's value
may relate to the kept one's (a subset of smaller, equal, greater); replacing must imply "not worse in the requested direction", keeping must imply "not better". The kept index, the running value and the
returned element have to move together, the loop has to visit every candidate after the first, and the compared value must be computed from the very candidate that is returned at that index.
For the simplex method each vertex and its value are a pair: on every path, writing one is followed by writing the other from the same point (or by recomputing all) before values are consulted again, and
the index of the returned vertex is the position of the smallest value to be minimised. Random search passes its own direction on and returns the answer's values.
"""
ASSUMPTIONS = ["values are ordered (NaN objective values are not ranked)", "the pool answers row by row (C03)"]
OPAQUE = [r"^std::", r"^boost::", "IdentifyableObjectsManager", "InitializationChecker", "^k52::common::", "Task::", "TaskResult", r"^k52::optimization::ContinuousOptimizer::", r"^k52::optimization::I\w*::"]
OPAQUE = [x.replace(r"\w", "[A-Za-z_]") for x in OPAQUE]
ROW = [r"WorkerPool.*::DoTasks"]
JOBS = [{"id": "proc", "roots": [r"^k52::optimization::[A-Za-z_]+::ProcessParameters\("], "opaque": OPAQUE, "inline": ACCESSORS},
        {"id": "rs", "roots": [r"^k52::optimization::RandomSearch::FindOptimalParameters\("], "opaque": OPAQUE + ["ProcessParameters"], "inline": ACCESSORS},
        {"id": "nm", "roots": [r"^k52::optimization::BoundedNelderMead::FindOptimalParameters\("], "opaque": OPAQUE, "inline": ACCESSORS}]


def unknown(e):
    return e[0] in ("?", "cell") or bool(find(e, lambda x: x[0] in ("?", "cell")))


def bool_arg(f):
    """the argument by which the caller asks to maximise"""
    ps = re.search(r"\((.*)\)( const)?$", f.dem).group(1)
    if not ps.endswith("bool"):
        return None
    return "a%d" % (len(f.d["args"]) - 1)


def result_elements(f):
    """(instruction, element address) of everything handed to the caller"""
    for i in f.calls():
        n = f.prog.base(i.callee) if i.callee else ""
        if n.split("::")[-1] in ("shared_ptr", "vector", "operator=") and len(i.args) > 1 and i.args[0] == "a0" and i.args[1] != "a0":
            yield i, i.args[1]


def sources(f, vs):
    """the values a choice is made from"""
    r, todo = set(), list(vs)
    while todo:
        x = todo.pop()
        d = f.defs.get(x) if isinstance(x, str) else None
        if x in r:
            continue
        if d is not None and d.op in ("phi", "select"):
            todo += [y for _, y in d.args if y != x] if d.op == "phi" else d.args[1:]
        else:
            r.add(x)
    return sorted(r)


def processors(ck, prog):
    for f in prog.jobs["proc"]:
        if "thunk" in f.dem:
            continue
        name = prog.base(f.name).replace("k52::optimization::", "")
        A = Align(f, ROW)
        outs = list(result_elements(f))
        if not outs:
            ck.count("undecided")
            continue
        es = [A.element(p) for i, p in outs]
        if all(e is not None and e[1].const() is not None for e in es):
            ck.ob("kept-candidate", "%s: element returned at %s" % (name, outs[0][0].repo_loc), False, "the candidate returned is always the one at position %s" % es[0][1].const(), "kept-candidate:%s:constant" % name)
            continue
        for i, p in outs:
            e = A.element(p)
            if e is None:
                ck.count("undecided")
                continue
            cont, idx, off = e
            one(ck, prog, f, A, name, i, cont, idx)


def one(ck, prog, f, A, name, i, cont, idx):
    where = i.repo_loc
    if idx.const() is not None:
        ck.count("undecided")
        return
    ats = list(idx.atoms())
    phi = next((d for d in (f.defs.get(a[1]) for a in ats if a[0] == "val" and isinstance(a[1], str)) if d is not None and d.op == "phi"), None)
    loop = next((l for l in f.loops() if phi is not None and l.header == phi.bb), None)
    if len(ats) == 1 and phi is not None and loop is None:
        # the loop is left in several ways
        heads = {l.header: l for l in f.loops()}
        st, seen, hp = [phi.id], set(), set()
        while st:
            d = f.defs.get(st.pop())
            if d is None or d.op != "phi" or d.id in seen:
                continue
            seen.add(d.id)
            if d.bb in heads:
                if not A.sym.induction(d):
                    hp.add(d.id)
            else:
                st += [x for _, x in d.args if isinstance(x, str)]
        if len(hp) == 1:
            early(ck, prog, f, A, name, f.defs[hp.pop()], heads)
            return
    if len(ats) != 1 or phi is None or loop is None:
        ck.count("undecided")
        return
    late(ck, f, A, name, cont)
    off = (idx - Lin.a(ats[0])).const()
    ck.ob("kept-candidate", "%s: element returned at %s" % (name, where), off == 0, "the candidate returned is not the one kept (off by %s)" % off, "kept-candidate:%s:offset" % name)
    s = Select(A, loop, None, ("idx", phi.id), None, flag=bool_arg(f))
    V = s.run()
    for rule, ok, text, at in s.out:
        if ok is None:
            ck.count("undecided")
            ck.fact("undecided_%s" % name, text)
        else:
            ck.ob(rule, "%s: selection loop" % name, ok, text + (" (%s)" % at if at else ""), "%s:%s:%s" % (rule, name, text[:60]))
    if V is None:
        return
    # every candidate is looked at
    t = trip_end(A, loop)
    init = {A.sym.val(x) for pb, x in phi.args if pb not in loop.body}
    if t is None or t[1] != 1 or len(init) != 1:
        ck.count("undecided")
    else:
        first, end = t[0], t[2]
        shift = s._index - Lin.a(("iter", loop.header))
        k0 = init.pop().const()
        lo = shift.const()
        sizes = [a for a in end.atoms() if a[0] == "size"]
        delta = (end - Lin.a(sizes[0])).const() if len(sizes) == 1 else None
        if lo is None or k0 is None or delta is None:
            ck.count("undecided")
        else:
            last = delta + (shift - first).const() if (shift - first).const() is not None else None
            ck.ob("all-candidates", "%s: loop over the candidates" % name, (lo <= 1 and k0 == 0 or lo == 0) and last == 0,
                  "the loop looks at candidates %s to size%+d, starting from candidate %s as the best" % (lo, (last or 0) - 1, k0), "all-candidates:%s" % name)
            # starting value
            for w in sorted(x for x in s.headphis if f.defs[x].get("dt") == "double"):
                for x in sources(f, [x for pb, x in f.defs[w].args if pb not in loop.body]):
                    e0 = A.value(x)
                    if e0[0] == "c" and isinstance(e0[1], str) and re.match(r"#f-?(0|[1-9]\.?\d*(E[+-]?\d?\d)?$)", e0[1]) and not re.search(r"E\+?[123]\d\d$", e0[1]):
                        ck.ob("running-value", "%s: starting value" % name, False, "the search starts from the constant %s instead of the value of the first candidate" % e0[1][2:], "running-value:%s:start" % name)
                    elif e0[0] not in ("?", "c", "phi", "cell"):
                        els = [y[2].const() for y in find(e0, lambda y: y[0] == "el") if y[2].const() is not None]
                        if els:
                            ck.ob("running-value", "%s: starting value" % name, set(els) == {k0}, "the value the search starts with belongs to candidate %s, not to candidate %s" % (els[0], k0), "running-value:%s:start" % name)
    # the compared value belongs to the returned candidate
    R = A.read(cont, s._index, 0)
    while R[0] == "call" and R[1] == "get" and len(R) == 3:
        R = R[2]
    if unknown(R) or unknown(V):
        ck.count("undecided")
        return
    fn = next(("a%d" % k for k, a in enumerate(f.d["args"]) if a.get("n") != "this" and not a.get("sret")), None)
    tops = outermost(V, lambda x: ("a", fn) in x[1:])
    if not tops:
        ck.count("undecided")
        return
    ok = all(R in x[1:] for x in tops)
    ck.ob("own-value", "%s: value compared for the candidate returned at %s" % (name, where), ok,
          "the value compared is computed from %s, the candidate returned is %s" % (brief(V), brief(R)), "own-value:" + name)


def late(ck, f, A, name, cont):
    """a candidate is not exchanged after its value was taken"""
    wr, ev = [], []
    for i in f.insts():
        n = f.prog.base(i.callee or "") if i.is_call() else ""
        if n.split("::")[-1] == "operator=" and i.args and "vector" not in n:
            e = A.element(i.args[0])
            if e and e[0] == cont:
                wr.append((i, e[1]))
        elif i.op == "store":
            e = A.element(i.args[1])
            if e and e[0] != cont and f.defs.get(i.args[0]) is not None and i.d.get("vt", "double") == "double":
                if find(A.value(i.args[0]), lambda x: x[0] == "call" and x[1] == "operatorCALL"):
                    ev.append((i, e[1]))
    for i, ix in wr:
        for l in f.loops():
            if i.bb not in l.body or ("iter", l.header) not in ix.atoms():
                continue
            same = [j for j, jx in ev if j.bb in l.body and jx == ix]
            # written, valued, written again
            same = [j for j in same if any(k.bb in l.body and kx == ix and (k.bb == j.bb and k.ix < j.ix or k.bb != j.bb and k.bb in f.dom()[j.bb]) for k, kx in wr if k is not i)]
            if not same or not any(j.bb == i.bb and j.ix < i.ix or j.bb != i.bb and j.bb in f.dom()[i.bb] for j in same):
                continue
            # after the evaluation, without another one before the iteration ends
            st, seen, bad = [i.bb], set(), False
            first = True
            while st:
                b = st.pop()
                if any(j.bb == b and (not first or j.ix > i.ix) for j in same):
                    first = False
                    continue
                first = False
                for y, lab in f.succ[b]:
                    if lab == "u" or y not in l.body:
                        continue
                    if y == l.header:
                        bad = True
                    elif y not in seen:
                        seen.add(y)
                        st.append(y)
            ck.ob("own-value", "%s: candidate written at %s" % (name, i.repo_loc), not bad, "the candidate is exchanged after its value was computed", "own-value:%s:late" % name)


def early(ck, prog, f, A, name, phi, heads):
    """a loop with more than one way out: only what happens in it is judged"""
    s = Select(A, heads[phi.bb], None, ("idx", phi.id), None, flag=bool_arg(f))
    s.run()
    ck.count("undecided")
    for rule, ok, text, at in s.out:
        if ok is False:
            ck.ob(rule, "%s: selection loop" % name, ok, text + (" (%s)" % at if at else ""), "%s:%s:%s" % (rule, name, text[:60]))


def outermost(e, pred):
    if not isinstance(e, tuple):
        return []
    if pred(e):
        return [e]
    return [y for x in e for y in outermost(x, pred)]


def brief(e):
    if e[0] == "el":
        return "element of %s" % brief(e[1][0]) if isinstance(e[1], tuple) and isinstance(e[1][0], tuple) else "element"
    if e[0] == "call":
        return "%s(%s)" % (e[1].replace("operatorCALL", "objective"), ", ".join(brief(x) for x in e[2:]))
    if e[0] == "new":
        return "new %s(%s)" % (e[1], ", ".join(brief(x) for x in e[2:]))
    if e[0] == "a":
        return "argument " + e[1][1:]
    return e[0]


def random_search(ck, prog):
    for f in prog.jobs["rs"]:
        if "thunk" in f.dem:
            continue
        A = Align(f, ROW)
        for i in f.calls():
            n = "::".join(prog.vslot_name(i.get("v"))) if i.get("v") else prog.base(i.callee or "")
            if not n.endswith("ProcessParameters"):
                continue
            d = A.value(i.args[-1])
            if d[0] == "lin" and len(d[1].t) == 1 and d[1].t.get(next(iter(d[1].atoms()), None)) == 1:
                d = A.value(next(iter(d[1].atoms()))[1])
            k = d[1] if d[0] == "c" else None
            own = d[0] == "call" and d[1] == "get_maximize"
            if own or k is not None or d[0] in ("op", "lin"):
                ck.ob("direction-passed", "RandomSearch at %s" % i.repo_loc, own, "the direction given to the parameters processor is not the one the caller asked for", "direction-passed:RandomSearch")
            else:
                ck.count("undecided")
            res = A.content("a0")
            rets = [j for j in f.calls() if j.get("sr") and j.args[0] == "a0"]
            for j in rets:
                e = A.result(j, 0)
                src = find(e, lambda x: x[0] == "call" and x[1] == "ProcessParameters")
                if unknown(e):
                    ck.count("undecided")
                else:
                    ck.ob("returned", "RandomSearch at %s" % j.repo_loc, bool(src), "the values returned do not come from the candidate the processor chose", "returned:RandomSearch")


class Simplex:
    """pairs of vertex and value"""

    def __init__(self, ck, f):
        self.ck, self.f, self.prog = ck, f, f.prog
        self.A = Align(f, ROW)

    def run(self):
        f, A, ck, prog = self.f, self.A, self.ck, self.prog
        for i, p in result_elements(f):
            e = A.element(p)
            if e is None or e[2] != 0:
                continue
            self.P = e[0]
            ats = [a for a in e[1].atoms()]
            sel = self.selected(p, e[1]) or self.manual(i, e[1])
            if sel is None:
                ck.count("undecided")
                continue
            kind, self.FV, where = sel
            self.direction()
            if self.dir is None or kind is None:
                ck.count("undecided")
            elif kind == "loop":
                pass
            else:
                want = {"min": "min_element", "max": "max_element"}[self.dir]
                ck.ob("order", "simplex: vertex returned at %s" % i.repo_loc, kind == want,
                      "the values are to be %s, the vertex returned is the one with the %s value" % ("minimised" if self.dir == "min" else "maximised", "largest" if kind == "max_element" else "smallest"),
                      "order:simplex")
            self.pairs(i)

    def selected(self, p, lin):
        """(min_element or max_element, value container) the index was obtained from"""
        f, A = self.f, self.A
        st, seen = [x for x in f.defs.values() if x.is_call() and self.prog.base(x.callee or "") in ("std::min_element", "std::max_element")], None
        deps = self.slice(p)
        hits = [x for x in st if x.id in deps]
        for x in hits:
            b, e = A.sym.begin_of(x.args[0]), A.sym.end_of(x.args[1])
            y = self.f.defs.get(x.args[1])
            cut = self.cut(x.args[1], A.sym.end_of) or self.cut(x.args[0], A.sym.begin_of)
            if cut and len(x.args) == 2:
                self.ck.ob("all-candidates", "simplex: vertex searched for at %s" % x.repo_loc, False, "%+d vertices of the range are looked at" % -abs(cut), "all-candidates:simplex")
        if len(hits) != 1:
            return None
        x = hits[0]
        b, e = A.sym.begin_of(x.args[0]), A.sym.end_of(x.args[1])
        if b is None or b != e or len(x.args) > 2:
            return None
        return self.prog.base(x.callee).split("::")[-1], b, x

    def cut(self, v, edge):
        """number of elements by which an iterator misses the edge of its container"""
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or edge(v) is not None:
            return 0
        if d.op == "getelementptr" and not d.d.get("vo") and edge(d.d["p"]) is not None:
            k = d.d.get("off", 0)
            return k // 8 if edge.__name__ == "end_of" and k < 0 or edge.__name__ == "begin_of" and k > 0 else 0
        return 0

    def manual(self, ret, idx):
        """a hand-written loop that looks for the index"""
        f, A, ck = self.f, self.A, self.ck
        phi = next((d for d in (f.defs.get(a[1]) for a in idx.atoms() if a[0] == "val" and isinstance(a[1], str)) if d is not None and d.op == "phi"), None)
        loop = next((l for l in f.loops() if phi is not None and l.header == phi.bb), None)
        if loop is None:
            return None
        conts = set()
        for b in loop.body:
            for i in f.blocks[b]:
                if i.op == "load":
                    e = A.element(i.args[0])
                    if e and ("iter", loop.header) in e[1].atoms():
                        conts.add(e[0])
        if len(conts) != 1:
            return None
        self.FV = conts.pop()
        self.direction()
        if self.dir is None:
            return None
        A.plain = {self.FV}
        s = Select(A, loop, None, ("idx", phi.id), None, direction=self.dir)
        s.run()
        A.plain = set()
        for rule, ok, text, at in s.out:
            if ok is None:
                ck.count("undecided")
            else:
                ck.ob(rule, "simplex: loop choosing the vertex returned at %s" % ret.repo_loc, ok, text.replace("maximise", "maximise values").replace("minimise", "minimise values"), "%s:simplex:%s" % (rule, text[:50]))
        return "loop", self.FV, None

    def slice(self, v):
        deps, st = set(), [v]
        while st:
            x = st.pop()
            if x in deps or not isinstance(x, str):
                continue
            deps.add(x)
            d = self.f.defs.get(x)
            if d is None:
                continue
            if d.op == "getelementptr":
                st.append(d.d["p"])
                st.extend(y for y, _ in d.d.get("vo", []))
            elif d.op == "phi":
                st.extend(y for _, y in d.args)
            elif d.op == "load":
                b, o, vo = addr(self.f, d.args[0])
                st.extend(i.args[0] for i in f_stores(self.f) if addr(self.f, i.args[1])[:2] == (b, o) and b in self.A.allocas)
            else:
                st.extend(d.args)
        return deps

    def direction(self):
        """which way the values are oriented: from the evaluator that fills them"""
        A, names = self.A, set()
        for d in A.defs.get(self.FV, []):
            c = d
            if d[0] == "copy":
                c2 = A.cont(d[1])
                srcs = A.defs.get(c2, [])
            else:
                srcs = [d]
            for s in srcs:
                if s[0] == "idx":
                    names |= {x[1] for x in find(A.src(s[3], 0), lambda x: x[0] == "call" and x[1].startswith("CountObjectiveFunctionValue"))}
        self.dir = {"CountObjectiveFunctionValueToMinimize": "min", "CountObjectiveFunctionValueToMaximize": "max"}.get(next(iter(names))) if len(names) == 1 else None

    def origins(self, v, depth=0):
        """the points a stored value may belong to: a list, or None"""
        d = self.f.defs.get(v)
        if d is not None and d.op == "phi" and depth < 6:
            r = []
            for _, x in d.args:
                if x == v:
                    continue
                o = self.origins(x, depth + 1)
                if o is None:
                    return None
                r += o
            return r
        if d is not None and d.op == "load":
            e = self.A.element(d.args[0])
            if e and e[0] == self.FV:
                return [("vertex", e[1])]
        if d is not None and d.op == "select" and depth < 6:
            os = [tuple(o) if o else None for o in (self.origins(x, depth + 1) for x in d.args[1:])]
            if None in os:
                return None
            return [("either",) + tuple(os)] if os[0] != os[1] else list(os[0])
        o = self.origin(self.A.value(v))
        return [o] if o is not None and o[0] == "vec" else None

    def origin(self, e):
        """the point an evaluated value belongs to, as the container its coordinates were copied from"""
        for x in find(e, lambda x: x[0] == "call" and x[1].startswith("CountObjectiveFunctionValue")):
            a = x[-1]
            n = 0
            while n < 10:
                n += 1
                if a[0] == "&el":
                    ds = [d for d in self.A.defs.get((a_addr(self.f, a), 0), [])]
                    inner = self.element_source(a)
                    if inner is None:
                        return ("elem", a[1], a[2])
                    a = inner
                    continue
                if a[0] == "o":
                    return ("vec", a[1])
                return None
        return None

    def element_source(self, a):
        """the vector copied into element a of a local container of vectors"""
        src = []
        for i in self.f.calls():
            n = self.prog.base(i.callee or "")
            if n in ("std::vector::operator=",) and len(i.args) > 1:
                e = self.A.element(i.args[0])
                if e and e[0] == a[1] and e[1] == a[2]:
                    src.append(i.args[1])
        if len(src) == 1:
            b, o, vo = addr(self.f, src[0])
            if b in self.A.allocas and o == 0 and not vo:
                return ("o", b)
        return None

    def pairs(self, ret):
        """typestate: a vertex and its value change together"""
        f, A, ck, prog = self.f, self.A, self.ck, self.prog
        ev = {}
        P, FV = self.P, self.FV
        for i in f.insts():
            n = prog.base(i.callee or "") if i.is_call() and i.callee else ""
            if n == "std::vector::operator=" and len(i.args) > 1:
                c = A.cont(i.args[0])
                e = A.element(i.args[0])
                if c == FV or c == P:
                    fills = self.filled(i.args[1])
                    ev[(i.bb, i.ix)] = ("all", i) if c == FV and fills == P else ("none",)
                elif e and e[0] == P:
                    b, o, vo = addr(f, i.args[1])
                    ev[(i.bb, i.ix)] = ("P", e[1], ("vec", b) if b in A.allocas and not vo else None, i)
            elif n == "std::vector::vector" and len(i.args) > 1 and A.cont(i.args[0]) == FV:
                ev[(i.bb, i.ix)] = ("all", i)
            elif i.op == "store":
                e = A.element(i.args[1])
                if e and e[0] == FV:
                    ev[(i.bb, i.ix)] = ("F", e[1], tuple(self.origins(i.args[0]) or ()), i)
                    if [a for a in e[1].atoms() if a[0] == "iter"]:
                        ev[(i.bb, i.ix)] = ("all", i)
                elif e:
                    r = self.row(e[0])
                    if r:
                        ev[(i.bb, i.ix)] = ("P", None, None, i)
            elif n in ("std::min_element", "std::max_element") and A.sym.begin_of(i.args[0]) == FV:
                ev[(i.bb, i.ix)] = ("use", i)
        # values are first brought in line with the vertices when they are first computed
        loops = [l for l in f.loops() if any(ev.get(k, ("",))[0] == "F" and k[0] in l.body for k in ev)]
        main = max(loops, key=lambda l: len(l.body)) if loops else None
        if main is None:
            ck.count("undecided")
            return
        bad, n = {}, 0
        start = (main.header, frozenset())
        seen, st = {start}, [start]
        while st:
            b, s = st.pop()
            if len(seen) > 20000:
                ck.count("undecided")
                return
            for i in f.blocks[b]:
                e = ev.get((i.bb, i.ix))
                if e is None:
                    continue
                n += 1
                if e[0] == "all":
                    s = frozenset()
                elif e[0] == "use":
                    for x in s:
                        bad[x] = i
                elif e[0] in ("P", "F"):
                    other = "F" if e[0] == "P" else "P"
                    m = [x for x in s if x[0] == other and x[1] == e[1] and e[1] is not None]
                    if m:
                        x = m[0]
                        s = s - {x}
                        pt, vs = (e[2], x[2]) if e[0] == "P" else (x[2], e[2])
                        if pt and vs and pt not in vs:
                            bad[(e[0], e[1], "mix", e[3].repo_loc)] = e[3]
                    else:
                        s = frozenset({x for x in s if not (x[0] == e[0] and x[1] == e[1] and e[1] is not None)} | {(e[0], e[1], e[2], e[3].repo_loc)})
            for y, lab in f.succ[b]:
                if lab == "u":
                    continue
                if y == main.header:
                    for x in s:
                        bad.setdefault(x, f.blocks[b][-1])
                    continue
                if (y, s) not in seen:
                    seen.add((y, s))
                    st.append((y, s))
        ck.count("simplex_updates", len([e for e in ev.values() if e[0] in "PF"]))
        for x, at in sorted(bad.items(), key=str):
            if x[2] == "mix":
                t = "the value stored for a vertex belongs to a different point"
            elif x[0] == "P":
                t = "a vertex moved without its value being brought up to date before the values are used again"
            else:
                t = "a vertex's value changed without the vertex"
            ck.ob("vertex-value", "simplex vertex written at %s" % x[3], False, t, "vertex-value:%s:%s" % (x[0], x[2] == "mix"))
        ck.ob("vertex-value", "simplex: all updates", True)

    def filled(self, v):
        """the container of vertices whose values a temporary holds"""
        A = self.A
        c = A.cont(v)
        for d in A.defs.get(c, []):
            if d[0] == "idx":
                for x in find(A.src(d[3], 0), lambda x: x[0] == "call" and x[1].startswith("CountObjectiveFunctionValue")):
                    if x[-1][0] == "&el":
                        return x[-1][1]
        return None

    def row(self, c):
        """is container c the coordinates of one vertex?"""
        k = c[0]
        s = str(k)
        base = str(("load", self.P[0])) if isinstance(self.P[0], str) else None
        return isinstance(k, tuple) and k[0] == "gep" and base is not None and str(k[1]) == base


def f_stores(f):
    return [i for i in f.insts() if i.op == "store"]


def a_addr(f, a):
    return None


def check(ck, prog):
    ck.need([f for f in prog.jobs["proc"] if "thunk" not in f.dem], "parameters processors")
    processors(ck, prog)
    random_search(ck, prog)
    for f in prog.jobs["nm"]:
        if "thunk" not in f.dem:
            Simplex(ck, f).run()
