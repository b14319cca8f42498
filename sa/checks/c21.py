"""C21: the best individual the genetic algorithm reports never gets worse."""
import re
from align import Align, find
from argbest import Select, trip_end
from ir import ACCESSORS
from sym import Lin
from val import addr, cint, key

TECHNIQUE = ("order-lattice dataflow over the selection of a generation's best individual, backward justification of every replacement on the control-flow graph, and a may-alias dataflow (allocation sites marked as "
             "'possibly the best') up to every operation that changes a genotype")
LEVEL_NOTE = "the whole run of the genetic algorithm (helpers inlined), all paths and numbers of generations"
EXPLANATION = """
The kept individual is the algorithm's own shared pointer to an individual. (1) Every assignment to it after an evaluation must be justified on every path by a branch that found it without fitness or found
its fitness not greater than the new one's. (2) The new one is selected from the population by a loop that keeps the greatest fitness and visits every individual. (3) No path leads from an evaluation to the
next evaluation or to the end without the comparison. (4) Individuals the kept pointer may share are marked by allocation site; the marks follow shared pointers and containers through the whole run, and no
operation that changes a genotype may be applied to a marked one. (5) The parameters handed back are decoded from the kept individual's chromosome.
"""
ASSUMPTIONS = ["fitness values are ordered (no NaN)", "a fitness belongs to its individual's genotype (C20)", "the callback and the mutator do not keep or change individuals (their interfaces give no access)"]
IND = "k52::optimization::Individual"
OPAQUE = [r"^std::", r"^boost::", "InitializationChecker", "^k52::common::", "^k52::optimization::Individual::", "ObjectiveFunctionCounter", "GenerationStatistics", "operator(<<|>>)", "^k52::optimization::operator"]
JOBS = [{"id": "run", "roots": [r"^k52::optimization::GeneticAlgorithm::Optimize\("], "opaque": OPAQUE, "inline": ACCESSORS}]
CHANGE = {"Mutate", "Crossover", "SetRandomChromosome", "Initialize", "operator=", "operatorRSH", "operator>>"}


def fconst(v):
    if isinstance(v, str) and v.startswith("#f"):
        try:
            return float(v[2:])
        except ValueError:
            return None
    return None


def kept_member(prog):
    r = [e["off"] for c in prog.classes.values() if c["name"] == "k52::optimization::GeneticAlgorithm" for e in c["elems"]
         if e["k"] == "m" and "shared_ptr" in e["t"] and e["t"].startswith("_ZTSN5boost10shared_ptr") and "10IndividualE" in e["t"]]
    return r[0] if len(r) == 1 else None


class Run:
    def __init__(self, ck, prog, f, off):
        self.ck, self.prog, self.f, self.off = ck, prog, f, off
        self.A = Align(f)
        pops = {e[0] for e in (self.A.element(i.args[0]) for i in f.insts() if i.op == "load") if e and e[0][0] == "a0"}
        self.A.plain |= pops
        self.B = ("fld", ("a", "a0"), off)
        self.assigns = list(self.find_assigns())

    def base(self, i):
        return self.prog.base(i.callee) if i.callee else ""

    def place(self, p):
        if not isinstance(p, str):
            return None, False
        e = self.A.element(p)
        if e:
            return e[0], True
        b, o, vo = addr(self.f, p)
        return ((key(self.f, b), o), False) if not vo else (None, False)

    def is_kept(self, p):
        b, o, vo = addr(self.f, p)
        return b == "a0" and o == self.off and not vo

    def find_assigns(self):
        """(instruction, source expression, source place) of every assignment to the kept pointer or to the individual it points to"""
        for i in self.f.calls():
            n = self.base(i)
            last = n.split("::")[-1]
            a = i.args
            if re.match(r"^(boost|std)::shared_ptr::", n) and last in ("operator=", "reset", "swap") and a and self.is_kept(a[0]):
                if len(a) < 2:
                    yield i, ("c", "null")
                    continue
                d = self.prog.callee_dem(i) or ""
                yield i, (self.A.content(a[1]) if last != "reset" else self.A.value(a[1]))
            elif n == IND + "::operator=" and len(a) == 2 and self.A.value(a[0]) == self.B:
                yield i, self.A.value(a[1])
            elif last == "swap" and len(a) == 2 and not n.startswith("boost::shared_ptr") and any(isinstance(x, str) and self.is_kept(x) for x in a):
                o = a[1] if self.is_kept(a[0]) else a[0]
                yield i, self.A.content(o)

    # --- control flow
    def succ(self, b):
        return [t for t, lab in self.f.succ[b] if lab != "u"]

    def from_(self, b, stop=()):
        seen, todo = set(), list(self.succ(b))
        while todo:
            x = todo.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            todo += self.succ(x)
        return seen

    def evaluations(self):
        return [i for i in self.f.calls() if self.base(i).split("::")[-1] in ("ObtainFitness", "set_fitness")]

    # --- conditions
    def fitness_of(self, v):
        """the individual whose fitness v is"""
        e = self.A.value(v)
        return self.strip(e[2]) if e[0] == "call" and e[1] == "get_fitness" else None

    def shifted(self, v):
        """a value without the constant added to it, and the constant"""
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is not None and d.op in ("fadd", "fsub"):
            k = fconst(d.args[1])
            if k is not None:
                return d.args[0], (k if d.op == "fadd" else -k)
            k = fconst(d.args[0])
            if k is not None and d.op == "fadd":
                return d.args[1], k
        if d is not None and d.op in ("fmul", "fdiv"):
            k = [fconst(x) for x in d.args]
            if k[1] is not None and k[1] != 1:
                return d.args[0], None
            if k[0] is not None and k[0] != 1 and d.op == "fmul":
                return d.args[1], None
        return v, 0.0

    @staticmethod
    def strip(e):
        while e[0] == "new" and e[1] == "Individual" and len(e) == 3 or e[0] == "call" and e[1] in ("get", "operator->", "operator*") and len(e) == 3:
            e = e[2]
        return e

    def justified(self, c, truth, cand, depth=0):
        """True: the condition says the kept one may be replaced by cand; False: it compares them and does not say so; None: about something else"""
        d = self.f.defs.get(c) if isinstance(c, str) else None
        if d is None or depth > 8:
            return None
        J = lambda x, t: self.justified(x, t, cand, depth + 1)
        if d.op == "xor" and cint(d.args[1]) in (1, -1):
            return J(d.args[0], not truth)
        if d.op in ("zext", "trunc", "freeze"):
            return J(d.args[0], truth)
        if d.op == "icmp" and d.get("pred") in ("eq", "ne") and cint(d.args[1]) in (0, 1):
            return J(d.args[0], truth == ((d.get("pred") == "ne") == (cint(d.args[1]) == 0)))
        if d.op == "select":
            x, y, z = d.args
            if cint(z) == 0:
                return self.both(J(x, True), J(y, True)) if truth else self.either(J(x, False), J(y, False))
            if cint(y) in (1, -1):
                return self.both(J(x, False), J(z, False)) if not truth else self.either(J(x, True), J(z, True))
        if d.op in ("and", "or"):
            p, q = J(d.args[0], truth), J(d.args[1], truth)
            return self.both(p, q) if (d.op == "and") == truth else self.either(p, q)
        if d.op == "fcmp":
            (u, m), (v, n) = self.shifted(d.args[0]), self.shifted(d.args[1])
            x, y = self.fitness_of(u), self.fitness_of(v)
            if x is None or y is None:
                return None
            p = d.get("pred")
            if {x, y} == {self.B, cand} and m != n:
                # better by some margin still justifies a replacement, worse by some margin does not
                if m is None or n is None or (n - m if x == self.B else m - n) > 0:
                    return False
            less = p in ("olt", "ole", "ult", "ule") if truth else p in ("ogt", "oge", "ugt", "uge")
            more = p in ("ogt", "oge", "ugt", "uge") if truth else p in ("olt", "ole", "ult", "ule")
            if x == self.B and y == cand:
                return True if less else False
            if y == self.B and x == cand:
                return True if more else False
            return None
        e = self.A.value(c)
        if e[0] == "call" and e[1] == "HasFitness" and self.strip(e[2]) == self.B:
            return not truth
        return None

    @staticmethod
    def both(p, q):
        return True if p or q else False if False in (p, q) else None

    @staticmethod
    def either(p, q):
        return True if p and q else False if False in (p, q) else None

    def about(self, c, seen=None):
        """the condition looks at the kept individual's fitness"""
        seen = seen if seen is not None else set()
        d = self.f.defs.get(c) if isinstance(c, str) else None
        if d is None or c in seen:
            return False
        seen.add(c)
        e = self.A.value(c) if d.is_call() else None
        if e is not None:
            return e[0] == "call" and e[1] in ("HasFitness", "get_fitness") and self.strip(e[2]) == self.B
        return any(self.about(x, seen) for x in ([y for p, y in d.args] if d.op == "phi" else d.args))

    def compares(self, c, seen=None):
        """the condition relates the kept individual's fitness to another individual's"""
        seen = seen if seen is not None else set()
        d = self.f.defs.get(c) if isinstance(c, str) else None
        if d is None or c in seen:
            return False
        seen.add(c)
        if d.op == "fcmp" or d.is_call() and len(d.args) > 1:
            return self.about(c) and (d.op != "fcmp" or all(self.person(x) for x in d.args))
        return any(self.compares(x, seen) for x in ([y for p, y in d.args] if d.op == "phi" else d.args))

    def person(self, v, depth=0):
        """a number that may come from an individual"""
        e = self.A.value(v)
        if e[0] == "call":
            return True
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None:
            return False
        if d.op in ("phi", "select") and depth < 6:
            return any(self.person(x, depth + 1) for x in ([y for _, y in d.args] if d.op == "phi" else d.args[1:]) if x != v)
        if d.op == "load":
            return e[0] not in ("fld", "c")
        return d.is_call() or any(self.person(x, depth + 1) for x in d.args) if depth < 6 else True

    def replaced(self):
        """(1) every replacement is justified"""
        f, ck = self.f, self.ck
        after = set()
        for i in self.evaluations():
            after |= self.from_(i.bb) | {i.bb}
        upd = []
        for i, e in self.assigns:
            if i.bb not in after or not any(j.bb != i.bb and i.bb in self.from_(j.bb) or j.bb == i.bb for j in self.evaluations()):
                continue
            upd.append((i, e))
            cand = self.strip(e)
            if cand[0] == "?":
                ck.count("undecided")
                continue
            ends, seen, odd = [], set(), []
            evs = {j.bb for j in self.evaluations()}
            todo = [(i.bb, None)]
            preds = {}
            for b in range(len(f.blocks)):
                for t, lab in f.succ[b]:
                    preds.setdefault(t, []).append((b, lab))
            unknown = False
            while todo:
                b, want = todo.pop()
                if (b, want) in seen:
                    continue
                seen.add((b, want))
                if b in evs or b not in preds:
                    ends.append(b)
                    continue
                for p, lab in preds[b]:
                    if lab == "u":
                        continue
                    w = want
                    # the value wanted of a phi of this block
                    c2 = []
                    if w is not None:
                        d = f.defs.get(w[0])
                        if d is not None and d.op == "phi" and d.bb == b:
                            x = next((y for pb, y in d.args if pb == p), None)
                            k = cint(x)
                            if k is not None:
                                if bool(k) != w[1]:
                                    continue
                                w = None
                            else:
                                w = (x, w[1])
                                j = self.justified(x, w[1], cand)
                                if j:
                                    continue
                    t = f.blocks[p][-1]
                    c = t.d.get("cond")
                    if lab in ("t", "f") and c is not None:
                        truth = lab == "t"
                        j = self.justified(c, truth, cand)
                        if j:
                            continue
                        r = self.flag(c, truth)
                        if r is not None:
                            w = r
                        elif j is None and self.about(c):
                            unknown = True
                    todo.append((p, w))
            if ends and unknown:
                ck.count("undecided")
                ck.fact("undecided_replacement", i.repo_loc)
                continue
            ck.ob("replacement", "replacement of the kept individual at %s" % i.repo_loc, not ends,
                  "the kept individual can be replaced without having been found worse than the new one (and without having been found to have no fitness)", "replacement:%d" % len(upd))
        return upd

    def flag(self, c, truth):
        """the boolean a branch tests, when it is a phi"""
        d = self.f.defs.get(c)
        for _ in range(6):
            if d is None:
                return None
            if d.op == "phi":
                return (d.id, truth)
            if d.op == "xor" and cint(d.args[1]) in (1, -1):
                truth = not truth
            elif d.op == "icmp" and d.get("pred") in ("eq", "ne") and cint(d.args[1]) == 0:
                truth = truth == (d.get("pred") == "ne")
            elif d.op not in ("zext", "trunc", "freeze"):
                return None
            d = self.f.defs.get(d.args[0])
        return None

    def always(self, upd):
        """(3) no way around the comparison"""
        f, ck = self.f, self.ck
        deciding = {b for b in range(len(f.blocks)) if any(self.about(self.f.blocks[b][-1].d.get("cond")) for _ in (0,) if self.f.blocks[b][-1].d.get("cond"))}
        deciding |= {i.bb for i, e in upd}
        # the stop criterion looks at the fitness too: only branches from which a replacement can follow before the next evaluation count
        evs = [i for i in f.calls() if self.base(i).split("::")[-1] == "ObtainFitness"]
        stop = {i.bb for i in evs}
        deciding = {b for b in deciding if {i.bb for i, e in upd} & (self.from_(b, stop) | {b})}
        # having a fitness at all, or reaching a bound, is no comparison with the generation
        deciding = {b for b in deciding if b in {i.bb for i, e in upd} or self.compares(f.blocks[b][-1].d.get("cond"))}
        for l in f.loops():
            # a loop over the individuals that compares each of them
            if deciding & l.body and not stop & l.body:
                inside = {b for b in deciding if b in l.body}
                seen, todo = set(), [t for t in self.succ(l.header) if t in l.body and l.header not in inside]
                while todo:
                    x = todo.pop()
                    if x in seen or x in inside:
                        continue
                    seen.add(x)
                    todo += [t for t in self.succ(x) if t in l.body]
                if l.header in seen:
                    ck.count("undecided")
                    ck.fact("undecided_every", "an iteration of the loop at %s can pass without a comparison" % f.blocks[l.header][-1].repo_loc)
                deciding.add(l.header)
        for i in evs:
            seen, todo, bad = set(), list(self.succ(i.bb)), None
            while todo:
                x = todo.pop()
                if x in seen or x in deciding:
                    continue
                seen.add(x)
                t = f.blocks[x][-1]
                if t.op == "ret" or x in stop:
                    bad = t
                    break
                todo += self.succ(x)
            ck.ob("every-generation", "evaluation at %s" % i.repo_loc, bad is None, "a path leads from the evaluation to %s without comparing the kept individual with the generation"
                  % ("the end of the run" if bad is not None and bad.op == "ret" else "the next evaluation"), "every-generation")

    def selected(self, upd):
        """(2) the new one is the best of the population"""
        f, ck, A = self.f, self.ck, self.A
        for i, e in upd:
            cand = self.strip(e)
            if cand[0] == "cell":
                cell = cand[1]
                places = [(s, w) for s, w in A.cells.get((cell, 0), [])]
                loops = {f.loop_of(w.bb) for s, w in places}
                inner = [l for l in loops if l is not None and not any(m is not None and m.header in l.body and m is not l for m in loops)]
                inner = [l for l in inner if i.bb not in l.body]
                inits = [A.src(s, 0) for s, w in places if not any(w.bb in l.body for l in inner)]
                els = [x for x in (A.src(s, 0) for s, w in places if any(w.bb in l.body for l in inner)) if x[0] == "el"]
                if len(inner) != 1 or len(inits) != 1 or not els:
                    if len(inits) == 1 and not inner and inits[0][0] == "el" and inits[0][2].const() is not None:
                        ck.ob("selection", "candidate at %s" % i.repo_loc, False, "the candidate is always individual %s" % inits[0][2].const(), "selection:constant")
                    else:
                        ck.count("undecided")
                    continue
                loop, init = inner[0], inits[0]
                cont = next((c for c in A.plain if ("el", (A.value(c[0]), c[1])) == els[0][:2]), None)
                if cont is None:
                    ck.count("undecided")
                    continue
                s = Select(A, loop, cont, ("cell", cell), None, direction="max")
            elif cand[0] == "el" and cand[2].const() is not None:
                ck.ob("selection", "candidate at %s" % i.repo_loc, False, "the candidate is always individual %s" % cand[2].const(), "selection:constant")
                continue
            elif cand[0] == "el":
                ats = [a for a in cand[2].atoms()]
                phi = next((d for d in (f.defs.get(a[1]) for a in ats if a[0] == "val" and isinstance(a[1], str)) if d is not None and d.op == "phi"), None)
                loop = next((l for l in f.loops() if phi is not None and l.header == phi.bb), None)
                if loop is None:
                    # replaced while walking over the population
                    l = next((l for l in f.loops() for a in ats if a == ("iter", l.header)), None)
                    if l is not None and i.bb in l.body:
                        self.covers(l, cand[2], None)
                    else:
                        ck.count("undecided")
                    continue
                s = Select(A, loop, None, ("idx", phi.id), None, direction="max")
                inits = [x for pb, x in phi.args if pb not in loop.body]
                k = A.sym.val(inits[0]) if len(inits) == 1 else None
                init = ("el", cand[1], k) if k is not None else None
            else:
                ck.count("undecided")
                continue
            V = s.run()
            for rule, ok, text, at in s.out:
                if ok is None:
                    ck.count("undecided")
                    ck.fact("undecided_selection", text)
                else:
                    ck.ob("selection", "selection of the generation's best", ok, text + (" (%s)" % at if at else ""), "selection:" + text[:60])
            if V is not None:
                self.covers(loop, s._index, init)

    def setting(self, k):
        """arithmetic on members of the algorithm"""
        if isinstance(k, tuple):
            return bool(k) and (k[0] in ("load", "gep") or k[0] in ("or", "and", "shl", "add", "sub", "mul", "sext", "zext", "trunc", "udiv", "sdiv", "ashr", "lshr")) and all(self.setting(x) for x in k[1:]) or k == ()
        return k is None or isinstance(k, int) or k in ("a0",) or isinstance(k, str) and k.startswith("#")

    def covers(self, loop, index, init):
        """every individual is looked at"""
        A, ck, f = self.A, self.ck, self.f
        t = trip_end(A, loop)
        if t is not None and t[1] > 1:
            es = set()
            for e in (A.value(i.args[0]) for b in loop.body for i in f.blocks[b] if i.is_call() and i.args and isinstance(i.args[0], str)):
                es |= {x[2] for x in find(e, lambda y: y[0] == "el" and len(y) > 2)}
            if len(es) == 1:
                ck.ob("all-individuals", "loop over the population", False, "the loop looks at every %d-th individual only" % t[1], "all-individuals")
                return
        if t is None or t[1] != 1:
            ck.count("undecided")
            return
        first, end = t[0], t[2]
        shift = (index - Lin.a(("iter", loop.header))).const()
        k0 = init[2].const() if init is not None and init[0] == "el" else None
        ends = [a for a in end.atoms() if a != 1]
        if first.const() is None and all(a[0] == "size" or a[0] == "val" and self.setting(a[1]) for a in first.atoms() if a != 1) and (init is None or k0 is not None):
            ck.ob("all-individuals", "loop over the population", False, "the loop starts at an individual that depends on %s; the ones before it are not looked at" %
                  ("a setting" if all(a[0] == "val" for a in first.atoms() if a != 1) else "the size"), "all-individuals")
            return
        if len(ends) != 1 or ends[0][0] not in ("size", "val") or shift is None or init is not None and k0 is None or first.const() is None:
            ck.count("undecided")
            return
        if ends[0][0] == "val" and not (isinstance(ends[0][1], tuple) and ends[0][1][0] == "load"):
            ck.count("undecided")
            return
        delta = (end - Lin.a(ends[0])).const()
        last = delta + shift - first.const() if delta is not None else None
        ck.ob("all-individuals", "loop over the population", last == 0 and (shift == 0 or shift == 1 and k0 == 0),
              "the loop looks at individuals %s to size%+d only, starting from %s as the best" % (shift, (last or 0) - 1, k0), "all-individuals")

    # --- (4) aliasing
    def aliasing(self):
        f, ck = self.f, self.ck
        kept = {i.id for i, e in self.assigns}
        IN = {0: {}}
        work, OUTS = [0], {}
        bad = {}
        n = 0
        while work and n < 20000:
            n += 1
            b = work.pop(0)
            st = dict(IN[b])
            for i in f.blocks[b]:
                self.transfer(i, st, bad)
            for t in self.succ(b):
                s2 = dict(st)
                for i in f.blocks[t]:
                    if i.op != "phi":
                        break
                    x = next((y for pb, y in i.args if pb == b), None)
                    s2[i.id] = st.get(x, frozenset())
                old = IN.get(t)
                if old is None:
                    IN[t] = s2
                    work.append(t)
                else:
                    ch = False
                    for k, v in s2.items():
                        o = old.get(k, frozenset())
                        if not v <= o:
                            old[k] = o | v
                            ch = True
                    if ch and t not in work:
                        work.append(t)
        sites = [i for i in f.calls() if self.changes(i)]
        for i in sites:
            ck.ob("not-changed-later", "%s at %s" % (self.base(i).split("::")[-1], i.repo_loc), i.id not in bad,
                  "the individual changed here may be the kept best one itself (shared since %s)" % bad.get(i.id, ""), "not-changed-later:%s" % self.base(i).split("::")[-1])

    def changes(self, i):
        n = self.base(i)
        last = n.split("::")[-1]
        if n.startswith(IND + "::"):
            return last in CHANGE and not (last == "operator=" and self.A.value(i.args[0]) == self.B)
        return last in ("operatorRSH", "operator>>") and "Individual" in (self.prog.callee_dem(i) or "")

    def partial(self, i):
        """the loop around the call leaves some individuals out"""
        l = self.f.loop_of(i.bb)
        t = trip_end(self.A, l) if l is not None else None
        e = self.A.value(i.args[0])
        return e[0] == "el" and t is not None and (e[2] - Lin.a(("iter", l.header))).const() not in (0, None)

    def transfer(self, i, st, bad):
        f, a = self.f, i.args
        Z = frozenset()
        if i.op == "load":
            p, el = self.place(a[0])
            if p is not None:
                st[i.id] = st.get(p, Z)
            return
        if i.op in ("bitcast", "getelementptr", "freeze", "select", "phi"):
            if i.op == "getelementptr" and i.d.get("p") in st and i.d.get("off") == 0 and not i.d.get("vo"):
                st[i.id] = st[i.d["p"]]
            elif i.op == "select":
                st[i.id] = st.get(a[1], Z) | st.get(a[2], Z)
            elif i.op in ("bitcast", "freeze"):
                st[i.id] = st.get(a[0], Z)
            return
        if not i.is_call():
            return
        n = self.base(i)
        last = n.split("::")[-1]
        if n == "operator new":
            st[i.id] = frozenset({(i.id, 0)})
            return
        sp = re.match(r"^(boost|std)::shared_ptr::", n)
        if self.changes(i):
            args = a[:2] if last == "Crossover" else a[1:2] if last in ("operatorRSH", "operator>>") else a[:1]
            for x in args:
                m = [s for s, k in st.get(x, Z) if k]
                if m and not self.partial(i):
                    bad.setdefault(i.id, ", ".join(sorted({f.defs[s].repo_loc for s in m if s in f.defs})))
        if sp and (last in ("operator=", "shared_ptr", "reset", "swap")) or last == "swap" and len(a) == 2:
            d = self.prog.callee_dem(i) or ""
            p, el = self.place(a[0])
            if p is None:
                return
            if last == "swap":
                q, el2 = self.place(a[1])
                if q is None:
                    return
                x, y = st.get(p, Z), st.get(q, Z)
                st[p], st[q] = (x | y if el else y), (x | y if el2 else x)
                for k in a[:2]:
                    if self.is_kept(k):
                        self.mark(st, st[p] if k == a[0] else st[q])
                return
            if len(a) < 2:
                src = Z
            else:
                ref = re.search(r"\((boost|std)::shared_ptr<.*(&|&&)\)", d) is not None or last == "operator="
                q, _ = self.place(a[1])
                src = st.get(q, Z) if ref else st.get(a[1], Z)
            st[p] = st.get(p, Z) | src if el else src
            if last == "operator=":
                st[i.id] = src
            if self.is_kept(a[0]) and last != "shared_ptr":
                self.mark(st, src)
            return
        if sp and last in ("get", "operator->", "operator*"):
            p, el = self.place(a[0])
            st[i.id] = st.get(p, Z)
            return
        if last.startswith("~") and a:
            p, el = self.place(a[0])
            if p is not None and not el:
                st[p] = Z
            return
        if n.startswith("std::vector::"):
            p, el = self.place(a[0])
            if p is None:
                return
            if last == "vector" and len(a) >= 2 and not isinstance(self.place(a[1])[0], type(None)) and re.search(r"\(std::vector<", self.prog.callee_dem(i) or "") or last == "operator=":
                q, _ = self.place(a[1])
                st[p] = st.get(q, Z)
            elif last in ("vector", "clear"):
                st[p] = Z
            elif last in ("push_back", "insert", "emplace_back", "assign"):
                for x in a[1:]:
                    q, _ = self.place(x)
                    st[p] = st.get(p, Z) | st.get(q, Z)
            elif last in ("at", "operator[]", "front", "back"):
                st[i.id] = st.get(p, Z)
            return
        if n.startswith("std::") or "std::" in (self.prog.callee_dem(i) or "").split("(")[0]:
            cs = [self.A.sym.begin_of(x) for x in a if isinstance(x, str)]
            cs = [c for c in cs if c]
            for c in cs[1:]:
                if c != cs[0] and c in st or cs[0] in st:
                    st[c] = st.get(c, Z) | st.get(cs[0], Z)

    def mark(self, st, src):
        m = {s for s, k in src}
        for k, v in list(st.items()):
            st[k] = frozenset((s, 1 if s in m else 0) for s, _ in v)

    # --- (5) what is handed back
    def returned(self):
        f, ck = self.f, self.ck
        n = 0
        for i in f.calls():
            if not (i.get("v") and self.prog.vslot_name(i.get("v"))[-1] == "SetFromChromosome"):
                continue
            b, o, vo = addr(f, i.args[0])
            if b not in ("a1", "a2", "a3"):
                continue
            n += 1
            src = set()
            for x in i.args[1:]:
                src |= self.sources(x, set())
            es = {self.strip(self.A.value(g.args[0])) for g in src}
            if not es or any(find(e, lambda y: y[0] == "?") or e[0] == "?" for e in es):
                ck.count("undecided")
                continue
            ck.ob("returned", "parameters handed back at %s" % i.repo_loc, es == {self.B}, "the result is decoded from %s instead of the kept best individual"
                  % ("an individual of the population" if any(e[0] == "el" for e in es) else "another individual"), "returned")

    def sources(self, v, seen):
        """the GetChromosome calls a value comes from"""
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or v in seen:
            return set()
        seen.add(v)
        if d.is_call() and self.base(d).split("::")[-1] == "GetChromosome":
            return {d}
        r = set()
        if d.op == "load" or d.op == "alloca" or d.op == "getelementptr":
            b, o, vo = addr(self.f, d.args[0] if d.op == "load" else v)
            db = self.f.defs.get(b)
            if db is not None and db.op == "alloca":
                for j in self.f.insts():
                    if j.op == "store" and addr(self.f, j.args[1])[0] == b:
                        r |= self.sources(j.args[0], seen)
                    elif j.is_call() and j.args and isinstance(j.args[0], str) and addr(self.f, j.args[0])[0] == b and not self.base(j).split("::")[-1].startswith("~"):
                        for x in j.args[1:]:
                            r |= self.sources(x, seen)
            elif b != v:
                r |= self.sources(b, seen)
            return r
        for x in ([y for p, y in d.args] if d.op == "phi" else d.args):
            r |= self.sources(x, seen)
        return r


def check(ck, prog):
    off = kept_member(prog)
    if off is None:
        ck.count("undecided")
        return
    for f in prog.jobs["run"]:
        if "thunk" in f.dem:
            continue
        r = Run(ck, prog, f, off)
        upd = r.replaced()
        if not upd:
            ck.count("undecided")
            ck.fact("undecided_update", "no replacement of the kept individual found")
        else:
            r.always(upd)
            r.selected(upd)
        r.aliasing()
        r.returned()
