"""C16: maximise and minimise are honoured by every optimiser."""
import re
from align import Align
from ir import ACCESSORS
from val import addr, cint, key

TECHNIQUE = ("sign dataflow over each search, specialised once to 'maximise' and once to 'minimise' (branches on the request folded), with the direction of the search read off the comparisons that decide which "
             "point is kept; plus provenance of the request through every layer")
LEVEL_NOTE = "all continuous searches with their helpers inlined, both requests; dispatch, tasks and processors; whether a numerical step really descends is not judged"
EXPLANATION = """
Each search is analysed twice, with the remembered request assumed true and assumed false. A dataflow gives every number computed from the objective the sign with which it grows or falls with it. Rules: one-sign (numbers compared with or
subtracted from each other have the same sign, and all of a search's comparisons use one sign), request-used (the sign differs between the two requests), direction (where a comparison decides that a point is
kept - it is copied over the other one, accepted with certainty, selected as the least of all, or its step is continued - the kept one is better under the request), passed-on (every call that takes the request gets the
one the caller was given, neither a constant nor its negation, and it is remembered before the search starts), refuses (a search that cannot minimise refuses before anything is evaluated).
"""
ASSUMPTIONS = ["objective values are ordered (no NaN)", "the direction of a search without a comparison that decides which point is kept is given by the sign convention alone"]
OPT = "k52::optimization::"
OPAQUE = [r"^std::", r"^boost::", r"^k52::common::", r"ObjectiveFunctionCounter", r"operator<<"]
PASSED = {"Optimize", "ProcessParameters", "OptimizationTask"}


def takers(j):
    """functions that call something that takes the request"""
    r = []
    for f, d in j["funcs"].items():
        n = j["dem"].get(f, f)
        if d.get("repo") and n.startswith(OPT) and "GridSearch" not in n and re.search(r"::(Optimize|ProcessParameters|FindOptimalParameters|OptimizationTask|Clone|Perform)\(", n):
            r.append(f)
    return r


JOBS = [{"id": "ctor", "roots": [r"^k52::optimization::[A-Za-z]*(Method|Annealing|Mead|Search)::[A-Za-z]*(Method|Annealing|Mead|Search)\("], "opaque": OPAQUE, "inline": ACCESSORS},
        {"id": "search", "roots": [r"^k52::optimization::\w*::FindOptimalParameters\(".replace(r"\w", "[A-Za-z0-9_]")], "opaque": OPAQUE, "inline": ACCESSORS},
        {"id": "pass", "select": takers, "opaque": OPAQUE + ["OptimizationTask::OptimizationTask", "FindOptimalParameters"], "inline": ACCESSORS}]


def flag_member(prog):
    r = [(c["name"], e["off"]) for c in prog.classes.values() if c["name"] == OPT + "ContinuousOptimizer" for e in c["elems"] if e["k"] == "m" and e["t"] in ("bool", "b", "_Bool")]
    return r[0][1] if len(r) == 1 else None


def this_arg(f):
    """the argument that is 'this'"""
    return next(("a%d" % k for k, x in enumerate(f.d["args"]) if x.get("n") == "this"), "a1" if "FindOptimalParameters" in f.dem else "a0")


PEEL = ("zext", "trunc", "freeze", "sext", "bitcast")


class Run:
    """the search under one assumption about the request"""

    def __init__(self, A, flag_off, maximise):
        self.A, self.f, self.prog, self.off, self.maximise = A, A.fn, A.prog, flag_off, maximise
        self.this = this_arg(A.fn)
        self.memo = {}
        self.reach, self.edges = self.reachable()
        self.sign, self.orig, self.cont = {}, {}, {}
        self.evals = [i for i in self.f.calls() if i.bb in self.reach and self.is_eval(i)]
        self.solve()

    def base(self, i):
        return self.prog.base(i.callee) if i.callee else ""

    def is_eval(self, i):
        return bool(i.get("v")) and self.prog.vslot_name(i.get("v"))[-1] == "operator()"

    # --- constants under the assumption
    def const(self, v, depth=0):
        """number the value is under the assumption"""
        if not isinstance(v, str) or depth > 12:
            return None
        if v.startswith("#f"):
            try:
                return float(v[2:])
            except ValueError:
                return None
        k = cint(v)
        if k is not None:
            return k
        d = self.f.defs.get(v)
        if d is None:
            return None
        C = lambda x: self.const(x, depth + 1)
        if d.op == "load":
            b, o, vo = addr(self.f, d.args[0])
            return int(self.maximise) if b == self.this and o == self.off and not vo else None
        if d.op in PEEL or d.op in ("sitofp", "uitofp"):
            return C(d.args[0])
        if d.op == "and" and 1 in (cint(d.args[0]), cint(d.args[1])):
            return C(d.args[0] if cint(d.args[1]) == 1 else d.args[1])
        if d.op == "xor" and cint(d.args[1]) in (1, -1):
            x = C(d.args[0])
            return None if x is None else 1 - int(bool(x))
        if d.op in ("add", "sub", "mul", "shl") and d.op != "load":
            x, y = C(d.args[0]), C(d.args[1])
            if x is None or y is None:
                return None
            return x + y if d.op == "add" else x - y if d.op == "sub" else x * y if d.op == "mul" else x << y
        if d.op in ("fadd", "fsub", "fmul"):
            x, y = C(d.args[0]), C(d.args[1])
            if x is None or y is None:
                return None
            return x + y if d.op == "fadd" else x - y if d.op == "fsub" else x * y
        if d.op == "fneg":
            x = C(d.args[0])
            return None if x is None else -x
        if d.op == "icmp" and d.get("pred") in ("eq", "ne"):
            x, y = C(d.args[0]), C(d.args[1])
            return None if x is None or y is None else int((x == y) == (d.get("pred") == "eq"))
        if d.op == "select":
            c = C(d.args[0])
            return None if c is None else C(d.args[1] if c else d.args[2])
        if d.op == "phi":
            vs = {C(x) for p, x in d.args if (p, d.bb) in self.edges} if hasattr(self, "edges") else {None}
            return vs.pop() if len(vs) == 1 else None
        return None

    def reachable(self):
        f = self.f
        for _ in range(3):
            seen, edges, todo = {0}, set(), [0]
            while todo:
                b = todo.pop()
                t = f.blocks[b][-1]
                c = self.const(t.d["cond"]) if t.d.get("cond") else None
                for y, lab in f.succ[b]:
                    if lab == "u" or lab in ("t", "f") and c is not None and bool(c) != (lab == "t"):
                        continue
                    edges.add((b, y))
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            if getattr(self, "edges", None) == edges:
                break
            self.edges = edges
        return seen, edges

    # --- signs
    def place(self, p):
        if not isinstance(p, str):
            return None
        e = self.A.element(p)
        if e:
            return ("el", e[0])
        b, o, vo = addr(self.f, p)
        d = self.f.defs.get(b)
        return ("cell", b, o) if d is not None and d.op == "alloca" and not vo else None

    def vec(self, p):
        b, o, vo = addr(self.f, p)
        return ("el", (key(self.f, b), o)) if not vo else None

    def jc(self, a, b):
        """what a container holds"""
        j = self.join(a, b)
        return "TC" if j == "T" else j

    @staticmethod
    def join(a, b):
        return b if a in (None, 0) else a if b in (None, 0) or a == b else "TC" if "TC" in (a, b) else "T"

    def solve(self):
        f = self.f
        for _ in range(12):
            old = (dict(self.sign), dict(self.cont), dict(self.orig))
            for b in sorted(self.reach):
                for i in f.blocks[b]:
                    self.step(i)
            if (self.sign, self.cont, self.orig) == old:
                break

    def s(self, v):
        return self.sign.get(v, 0)

    def step(self, i):
        a = i.args
        S, O = self.sign, self.orig
        r, o = 0, None
        if i.is_call() and self.is_eval(i):
            r, o = 1, (i.id, 1)
        elif i.op == "fneg":
            r = self.flip(self.s(a[0]))
            o = self.oflip(O.get(a[0]))
        elif i.op in ("fmul", "fdiv"):
            x, y = self.const(a[0]), self.const(a[1])
            if self.s(a[0]) and y is not None and y != 0:
                r = self.s(a[0]) if y > 0 else self.flip(self.s(a[0]))
                o = O.get(a[0]) if y > 0 else self.oflip(O.get(a[0]))
            elif self.s(a[1]) and x is not None and x != 0 and i.op == "fmul":
                r = self.s(a[1]) if x > 0 else self.flip(self.s(a[1]))
                o = O.get(a[1]) if x > 0 else self.oflip(O.get(a[1]))
        elif i.op in ("fadd", "fsub"):
            x, y = self.s(a[0]), self.s(a[1]) if i.op == "fadd" else self.flip(self.s(a[1]))
            r = 0 if x and y and x != y else x or y
        elif i.op == "call" and self.base(i) == "llvm.fmuladd.f64":
            k = [self.const(x) for x in a[:2]]
            x = 0
            if self.s(a[0]) and k[1]:
                x = self.s(a[0]) if k[1] > 0 else self.flip(self.s(a[0]))
            elif self.s(a[1]) and k[0]:
                x = self.s(a[1]) if k[0] > 0 else self.flip(self.s(a[1]))
            y = self.s(a[2])
            r = 0 if x and y and x != y else x or y
        elif i.op == "phi":
            os = []
            for p, x in a:
                if (p, i.bb) in self.edges:
                    r = self.join(r, self.s(x))
                    os.append(O.get(x))
            o = os[0] if os and all(x == os[0] for x in os) else None
        elif i.op == "select":
            c = self.const(a[0])
            xs = a[1:] if c is None else [a[1] if c else a[2]]
            for x in xs:
                r = self.join(r, self.s(x))
            o = O.get(xs[0]) if len({O.get(x) for x in xs}) == 1 else None
        elif i.op in ("freeze", "bitcast", "fpext", "fptrunc"):
            r, o = self.s(a[0]), O.get(a[0])
        elif i.op == "load":
            p = self.place(a[0])
            if p is not None:
                r = self.cont.get(p, 0)
                o = self.cont.get(("o", p)) if p[0] == "cell" else None
        elif i.op == "store":
            p = self.place(a[1])
            if p is not None and self.s(a[0]):
                self.cont[p] = (self.jc if p[0] == "el" else self.join)(self.cont.get(p, 0), self.s(a[0]))
                if p[0] == "cell":
                    self.cont[("o", p)] = O.get(a[0]) if self.cont.get(("o", p), O.get(a[0])) == O.get(a[0]) else None
            return
        elif i.is_call():
            n = self.base(i)
            last = n.split("::")[-1]
            if n.startswith("std::vector::") and last in ("vector", "operator=", "swap") and len(a) >= 2:
                p, q = self.vec(a[0]), self.vec(a[1]) if isinstance(a[1], str) and re.search(r"\(std::vector<", self.prog.callee_dem(i) or "") else None
                if p and q and self.cont.get(q):
                    self.cont[p] = self.jc(self.cont.get(p, 0), self.cont[q])
                if p and q and last == "swap" and self.cont.get(p):
                    self.cont[q] = self.jc(self.cont.get(q, 0), self.cont[p])
            elif n.startswith("std::vector::") and last == "push_back":
                p = self.vec(a[0])
                for x in a[1:]:
                    q = self.place(x)
                    if p and q and self.cont.get(q):
                        self.cont[p] = self.jc(self.cont.get(p, 0), self.cont[q])
            elif last in ("at", "operator[]", "front", "back") and n.startswith("std::vector::"):
                pass
            elif last in ("min", "max") and n.startswith("std::"):
                pass
            return_value = i.id
            r = 0
        if r:
            S[i.id] = r
        if o:
            O[i.id] = o

    @staticmethod
    def flip(s):
        return -s if s in (1, -1) else s

    @staticmethod
    def oflip(o):
        return (o[0], -o[1]) if o else None

    # --- uses
    def uses(self):
        """(instruction, sign or 'mixed', kind) for every comparison or difference of numbers computed from the objective"""
        f = self.f
        for b in sorted(self.reach):
            for i in f.blocks[b]:
                if i.op == "fcmp" or i.op == "fsub":
                    x, y = self.s(i.args[0]), self.s(i.args[1])
                    if not x and not y:
                        continue
                    if "TC" in (x, y):
                        yield i, "mixed", i.op
                    elif "T" in (x, y):
                        yield i, None, i.op
                    elif x and y and x != y:
                        yield i, "mixed", i.op
                    elif x and y:
                        yield i, x, i.op
                elif i.is_call() and self.base(i) in ("std::min_element", "std::max_element"):
                    c = self.A.sym.begin_of(i.args[0])
                    s = self.cont.get(("el", c)) if c else None
                    if s in (1, -1):
                        yield i, s, "least" if "min" in self.base(i) else "greatest"

    # --- which point is kept
    def point(self, e):
        """the container whose content was evaluated by call e"""
        f = self.f
        b, ix = e.bb, f.blocks[e.bb].index(e)
        dom = f.dom()
        best = None
        for i in f.calls():
            if i.get("v") and self.prog.vslot_name(i.get("v"))[-1] == "SetValues" and i.bb in self.reach:
                if (i.bb in dom[b] and i.bb != b) or i.bb == b and f.blocks[b].index(i) < ix:
                    if best is None or best.bb in dom[i.bb] and (best.bb != i.bb or f.blocks[i.bb].index(best) < f.blocks[i.bb].index(i)):
                        best = i
        if best is None:
            return None
        return self.vec(best.args[-1])

    def region(self, start, stop):
        seen, todo = set(), [start]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in stop:
                continue
            todo += [y for y, lab in self.f.succ[x] if (x, y) in self.edges]
        return seen

    def copies(self, blocks, evs):
        """(target, source) of the containers copied in these blocks, up to the next evaluation"""
        r = set()
        for b in blocks:
            for i in self.f.blocks[b]:
                if i in evs:
                    break
                if i.is_call() and self.base(i).startswith("std::vector::") and self.base(i).split("::")[-1] in ("operator=", "swap") and len(i.args) >= 2:
                    r.add((self.vec(i.args[0]), self.vec(i.args[1])))
                    if self.base(i).endswith("swap"):
                        r.add((self.vec(i.args[1]), self.vec(i.args[0])))
        return r

    def branches(self, v):
        """(block, target if the value is true, target if false)"""
        f = self.f
        for b in sorted(self.reach):
            t = f.blocks[b][-1]
            c = t.d.get("cond")
            if not c:
                continue
            pol = True
            for _ in range(6):
                if c == v:
                    s = dict((lab, y) for y, lab in f.succ[b])
                    if "t" in s and "f" in s:
                        yield b, (s["t"] if pol else s["f"]), (s["f"] if pol else s["t"])
                    break
                d = f.defs.get(c)
                if d is None:
                    break
                if d.op == "xor" and cint(d.args[1]) in (1, -1):
                    pol = not pol
                elif d.op == "icmp" and d.get("pred") in ("eq", "ne") and cint(d.args[1]) == 0:
                    pol = pol == (d.get("pred") == "ne")
                elif d.op not in PEEL and not (d.op == "and" and cint(d.args[1]) == 1):
                    break
                c = d.args[0]

    def evidence(self):
        """(instruction, 'smaller'/'greater', sign, how): what a comparison's outcome keeps"""
        f = self.f
        evs = set(self.evals)
        stop = {e.bb for e in evs}
        for i, s, kind in self.uses():
            if kind == "least":
                yield i, "smaller", s, "the least of all is selected"
                continue
            if kind == "greatest":
                yield i, "greater", s, "the greatest of all is selected"
                continue
            if kind != "fcmp" or s not in (1, -1):
                continue
            ox, oy = self.orig.get(i.args[0]), self.orig.get(i.args[1])
            if not ox or not oy:
                continue
            ex, ey = f.defs[ox[0]], f.defs[oy[0]]
            P, Q = self.point(ex), self.point(ey)
            if P is None or Q is None or P == Q:
                continue
            p = i.get("pred")
            rel = {"olt": "L", "ole": "L", "ult": "L", "ule": "L", "ogt": "G", "oge": "G", "ugt": "G", "uge": "G"}.get(p)
            if rel is None:
                continue
            for b, yes, no in self.branches(i.id):
                ry, rn = self.region(yes, stop), self.region(no, stop)
                cy, cn = self.copies(ry, evs), self.copies(rn, evs)
                for X, Y, x_first in ((P, Q, True), (Q, P, False)):
                    for side, mine, other in ((True, cy, cn), (False, cn, cy)):
                        if (Y, X) in mine and (Y, X) not in other and (X, Y) not in mine:
                            less = (rel == "L") == side      # the first operand is smaller on this side
                            yield i, "smaller" if less == x_first else "greater", s, "the point is copied over the other one"
                # accepted with certainty
                for side, t in ((True, yes), (False, no)):
                    for ph in [d for d in f.insts() if d.op == "phi"]:
                        one = [pb for pb, x in ph.args if self.const(x) == 1 and isinstance(x, str) and x.startswith("#f")]
                        if not any(pb == t and len([1 for z in range(len(f.blocks)) for y, l in f.succ[z] if y == t and l != "u"]) == 1 or pb == b and ph.bb == t for pb in one) or len(ph.args) < 2:
                            continue
                        for c in f.calls():
                            if ph.id not in c.args or "CheckEventOutcome" not in self.base(c):
                                continue
                            for bb, y2, n2 in self.branches(c.id):
                                c1, c2 = self.copies(self.region(y2, stop), evs), self.copies(self.region(n2, stop), evs)
                                for X, Y, x_first in ((P, Q, True), (Q, P, False)):
                                    if (Y, X) in c1 and (Y, X) not in c2 and (X, Y) not in c1:
                                        less = (rel == "L") == side
                                        yield i, "smaller" if less == x_first else "greater", s, "the point is accepted with certainty"
                # the step is continued or turned round
                dx, dy = self.depth(ex), self.depth(ey)
                if dx != dy:
                    k = [self.factor(ry - rn), self.factor(rn - ry)]
                    if k[0] is not None and k[1] is not None and (k[0] > 0) != (k[1] > 0):
                        side = k[0] > 0
                        less = (rel == "L") == side
                        first = dx > dy                      # the candidate is the first operand
                        yield i, "smaller" if less == first else "greater", s, "the step is continued"

    def depth(self, e):
        l = self.f.loop_of(e.bb)
        return l.depth() if l is not None else 0

    def factor(self, blocks):
        """constant by which an element is multiplied in these blocks"""
        r = set()
        for b in blocks:
            for i in self.f.blocks[b]:
                if i.op == "store" and self.place(i.args[1]) is not None or i.op == "store":
                    d = self.f.defs.get(i.args[0])
                    if d is not None and d.op == "fmul":
                        for x in d.args:
                            dx = self.f.defs.get(x)
                            if dx is not None and dx.op == "load":
                                bb, o, vo = addr(self.f, dx.args[0])
                                if bb == self.this and not vo:
                                    r.add(self.member_sign(o))
                            elif self.const(x) is not None and isinstance(x, str):
                                r.add(self.const(x))
        r.discard(None)
        return r.pop() if len(r) == 1 else None

    def member_sign(self, off):
        return self.constants.get(off)

    constants = {}


def check(ck, prog):
    off = flag_member(prog)
    if off is None:
        ck.count("undecided")
    else:
        searches(ck, prog, off)
    passing(ck, prog, off)


def constants_of(prog, f):
    """members that the class's constructors set to a constant"""
    cls = re.sub(r"::FindOptimalParameters.*", "", f.dem)
    r = {}
    for n, d in prog.funcs.items():
        dem = prog.dem(n)
        if re.match(re.escape(cls) + r"::" + cls.split("::")[-1] + r"\(", dem):
            for off, v in ctor_stores(prog, n):
                r.setdefault(off, set()).add(v)
    return {o: next(iter(v)) for o, v in r.items() if len(v) == 1 and None not in v}


def ctor_stores(prog, n):
    g = next((x for x in prog.jobs["ctor"] if x.name == n), None) if "ctor" in prog.jobs else None
    if g is None:
        return
    for i in g.insts():
        if i.op == "store":
            b, o, vo = addr(g, i.args[1])
            if b == this_arg(g) and not vo:
                v = i.args[0]
                try:
                    yield o, float(v[2:]) if isinstance(v, str) and v.startswith("#f") else None
                except ValueError:
                    yield o, None


def searches(ck, prog, off):
    for f in prog.jobs["search"]:
        if "thunk" in f.dem or "GridSearch" in f.dem:
            continue
        name = f.dem.split("(")[0]
        A = Align(f)
        runs = {}
        Run.constants = constants_of(prog, f)
        for mx in (True, False):
            runs[mx] = Run(A, off, mx)
        if not runs[True].evals:
            ck.fact("no_evaluation", name)
            continue
        signs = {}
        for mx, r in runs.items():
            how = "maximise" if mx else "minimise"
            got = {}
            for i, s, kind in r.uses():
                if s is None:
                    ck.count("undecided")
                    ck.fact("undecided_sign", i.repo_loc)
                    continue
                ck.ob("one-sign", "%s at %s when asked to %s" % (kind, i.repo_loc, how), s != "mixed",
                      "%s: the objective and its negation are %s each other" % (name, "compared with" if kind == "fcmp" else "subtracted from"), "one-sign:%s:%s" % (name, how))
                if s in (1, -1):
                    got.setdefault(s, i)
            if len(got) == 2:
                a, b = got[1], got[-1]
                ck.ob("one-sign", "%s when asked to %s" % (name, how), False, "the search compares the objective at %s and its negation at %s" % (a.repo_loc, b.repo_loc), "one-sign:%s:both" % name)
            elif got:
                signs[mx] = next(iter(got))
        if len(signs) == 2:
            ck.ob("request-used", name, signs[True] != signs[False], "the search steers by the same value whether it is asked to maximise or to minimise", "request-used:" + name)
        elif not signs:
            ck.count("undecided")
        n = 0
        for mx, r in runs.items():
            seen = set()
            for i, kept, s, why in r.evidence():
                if (i.id, kept) in seen:
                    continue
                seen.add((i.id, kept))
                n += 1
                good = (kept == "greater") == ((s == 1) == mx)
                ck.ob("direction", "comparison at %s when asked to %s" % (i.repo_loc, "maximise" if mx else "minimise"), good,
                      "%s: %s although its objective value is %s" % (name, why, "smaller" if mx else "greater"), "direction:%s:%s" % (name, i.repo_loc.split(":")[0]))
        ck.fact("direction_evidence", "%s: %d" % (name, n))
        if not n and signs.get(True) == 1:
            ck.count("undecided")


# --- the request on its way
def peel(f, v, pol=True):
    for _ in range(10):
        d = f.defs.get(v) if isinstance(v, str) else None
        if d is None:
            break
        if d.op in PEEL:
            v = d.args[0]
        elif d.op == "and" and cint(d.args[1]) == 1:
            v = d.args[0]
        elif d.op == "xor" and cint(d.args[1]) in (1, -1):
            v, pol = d.args[0], not pol
        elif d.op == "icmp" and d.get("pred") in ("eq", "ne") and cint(d.args[1]) == 0:
            v, pol = d.args[0], pol == (d.get("pred") == "ne")
        elif d.op == "icmp" and d.get("pred") in ("eq", "ne") and cint(d.args[1]) == 1:
            v, pol = d.args[0], pol == (d.get("pred") == "eq")
        elif d.op == "select" and cint(d.args[1]) in (0, 1, -1) and cint(d.args[2]) in (0, 1, -1) and cint(d.args[1]) != cint(d.args[2]):
            v, pol = d.args[0], pol == (cint(d.args[1]) != 0)
        else:
            break
    return v, pol


def bool_param(f):
    r = ["a%d" % k for k, x in enumerate(f.d["args"]) if x.get("t") in ("i1", "i8")]
    return r[0] if len(r) == 1 else None


def passing(ck, prog, off):
    offs = {}
    for c in prog.classes.values():
        if c["name"].startswith(OPT):
            m = [e["off"] for e in c["elems"] if e["k"] == "m" and e["t"] == "bool"]
            if len(m) == 1:
                offs[c["name"]] = m[0]
    for f in prog.jobs["pass"]:
        if "thunk" in f.dem:
            continue
        name = f.dem.split("(")[0]
        cls, last = name.rsplit("::", 1)
        this = this_arg(f)
        own = bool_param(f)
        member = offs.get(cls, off if "FindOptimalParameters" in name else None)
        for i in f.calls():
            n = prog.base(i.callee) if i.callee else ""
            tgt = prog.vslot_name(i.get("v"))[-1] if i.get("v") else n.split("::")[-1]
            if tgt not in PASSED or not (i.get("v") or n.startswith(OPT)):
                continue
            if tgt == "OptimizationTask" and len(i.args) < 4:
                continue
            v, pol = peel(f, i.args[-1])
            what = source(f, v, this, own, member)
            if what == "request":
                ck.ob("passed-on", "call of %s at %s" % (tgt, i.repo_loc), pol, "%s passes the negated request on" % name, "passed-on:" + name)
            elif what == "constant":
                ck.ob("passed-on", "call of %s at %s" % (tgt, i.repo_loc), False, "%s passes a constant on instead of the request" % name, "passed-on:" + name)
            else:
                ck.count("undecided")
                ck.fact("undecided_passing", "%s at %s" % (name, i.repo_loc))
        # remembered
        if own and member is not None and (last == cls.split("::")[-1] or last == "Optimize"):
            st = [i for i in f.insts() if i.op == "store" and addr(f, i.args[1])[0] == this and addr(f, i.args[1])[1] == member and not addr(f, i.args[1])[2]]
            for i in st:
                v, pol = peel(f, i.args[0])
                what = source(f, v, this, own, None)
                if what in ("request", "constant"):
                    ck.ob("passed-on", "request remembered at %s" % i.repo_loc, what == "request" and pol, "%s remembers %s" % (name, "a constant" if what == "constant" else "the negated request"), "remembered:" + name)
                else:
                    d = f.defs.get(v)
                    if d is not None and d.op == "load" and addr(f, d.args[0])[:2] == (this, member):
                        ck.ob("passed-on", "request remembered at %s" % i.repo_loc, False, "%s keeps the request of an earlier run" % name, "remembered:" + name)
                    else:
                        ck.count("undecided")
            runs = [i for i in f.calls() if i.get("v") and prog.vslot_name(i.get("v"))[-1] == "FindOptimalParameters"]
            for r in runs:
                ok = any(i.bb in f.dom()[r.bb] and (i.bb != r.bb or f.blocks[r.bb].index(i) < f.blocks[r.bb].index(r)) for i in st)
                if st or cls == OPT + "ContinuousOptimizer":
                    ck.ob("passed-on", "search started at %s" % r.repo_loc, ok, "the search starts before the request is remembered", "remembered-first:" + name)
        # refuses
        if own and cls == OPT + "GeneticAlgorithm" and last == "Optimize":
            refuses(ck, prog, f, own)


def source(f, v, this, own, member):
    if v == own and own:
        return "request"
    if cint(v) is not None:
        return "constant"
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is not None and d.op == "load" and member is not None:
        b, o, vo = addr(f, d.args[0])
        if b == this and o == member and not vo:
            return "request"
    return None


def refuses(ck, prog, f, own):
    seen, todo = {0}, [0]
    while todo:
        b = todo.pop()
        t = f.blocks[b][-1]
        pol = None
        if t.d.get("cond"):
            v, p = peel(f, t.d["cond"])
            if v == own:
                pol = not p            # truth of the condition when the request is to minimise
        for y, lab in f.succ[b]:
            if lab == "u" or lab in ("t", "f") and pol is not None and pol != (lab == "t"):
                continue
            if y not in seen:
                seen.add(y)
                todo.append(y)
    bad = [i for i in f.calls() if i.bb in seen and prog.base(i.callee or "").split("::")[-1] in ("ObtainFitness", "CountObjectiveFunctionValues")]
    ck.ob("refuses", "genetic algorithm asked to minimise", not bad, "a search that can only maximise goes on when asked to minimise (%s)" % (bad[0].repo_loc if bad else ""), "refuses")
