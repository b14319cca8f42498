"""Recognises a loop that keeps the best of several candidates and decides, on every path through one iteration, whether the right one is kept.

The kept candidate is either an index (a loop phi) or a local object that holds a copy of the candidate (a shared pointer). One iteration is split
into its paths; the comparisons taken on a path restrict how the new candidate's value relates to the kept one's, and the path either keeps or
replaces. Nothing is executed and no solver is involved: the domain is the three-element set of orderings {<, =, >}."""
from align import find, subst
from sym import Lin
from val import cint

T = {"ogt": "G", "ugt": "G", "oge": "GE", "uge": "GE", "olt": "L", "ult": "L", "ole": "LE", "ule": "LE", "oeq": "E", "ueq": "E", "one": "GL", "une": "GL"}
FLIP = {"G": "L", "L": "G", "E": "E"}
NAME = {"G": "greater than", "L": "smaller than", "E": "equal to"}


class Select:
    def __init__(self, A, loop, cand, best, mode, direction=None, flag=None):
        """cand: container of candidates; best: ('idx', phi) or ('cell', alloca); flag: argument that asks to maximise, or direction 'max'/'min'"""
        self.A, self.fn, self.loop, self.cand, self.best = A, A.fn, loop, cand, best
        self.direction, self.flag = direction, flag
        self.h = loop.header
        self.out = []          # (rule, ok or None, text, instruction)
        self.headphis = {i.id: i for i in self.fn.blocks[self.h] if i.op == "phi"}

    # --- expressions
    def resolve(self, v, env):
        n = 0
        while isinstance(v, str) and n < 40:
            n += 1
            if v in env:
                v = env[v]
                continue
            d = self.fn.defs.get(v)
            if d is not None and d.op in ("zext", "trunc", "freeze", "bitcast", "sext"):
                v = d.args[0]
                continue
            break
        return v

    def expr(self, v, env):
        v = self.resolve(v, env)
        if v in self.headphis and not self.A.sym.induction(self.headphis[v]):
            return ("phi", v)
        return self.A.value(v)

    def at_best(self, e):
        if not isinstance(e, tuple):
            return False
        if self.best[0] == "cell":
            return e[0] == "cell" and e[1] == self.best[1]
        return e[0] == "el" and isinstance(e[2], Lin) and any(a == ("val", self.bestkey()) for a in e[2].atoms())

    def bestkey(self):
        from val import key
        return key(self.fn, self.best[1])

    def at_i(self, e):
        return isinstance(e, tuple) and len(e) > 2 and e[0] == "el" and isinstance(e[2], Lin) and ("iter", self.h) in e[2].atoms()

    def side(self, e):
        i = bool(find(e, self.at_i)) or self.at_i(e)
        b = bool(find(e, lambda x: self.at_best(x) or x[0] == "phi" and x[1] in self.headphis and x[1] != self.best[1]))
        return "B" if i and b else "V" if i else "W" if b else None

    # --- conditions
    def alts(self, c, truth, env, depth=0):
        """alternatives, each a list of (condition value, truth), under which condition c has this truth"""
        c = self.resolve(c, env)
        k = cint(c) if isinstance(c, str) else None
        if k is not None:
            return [[]] if bool(k) == truth else []
        d = self.fn.defs.get(c)
        if d is None or depth > 8:
            return [[(c, truth)]]
        if d.op == "xor" and cint(d.args[1]) in (1, -1):
            return self.alts(d.args[0], not truth, env, depth + 1)
        if d.op == "icmp" and d.get("pred") in ("eq", "ne"):
            x, y = [self.resolve(a, env) for a in d.args]
            eq = (d.get("pred") == "eq") == truth
            if self.is_bool(x) and (self.is_bool(y) or cint(y) in (0, 1)):
                r = []
                for t in (True, False):
                    for p in self.alts(x, t, env, depth + 1):
                        for q in self.alts(y, t == eq, env, depth + 1):
                            r.append(p + q)
                return r
        if d.op in ("and", "or") and self.is_bool(d.args[0]) and self.is_bool(d.args[1]):
            r = []
            for s in (True, False):
                for t in (True, False):
                    if ((s and t) if d.op == "and" else (s or t)) == truth:
                        for p in self.alts(d.args[0], s, env, depth + 1):
                            for q in self.alts(d.args[1], t, env, depth + 1):
                                r.append(p + q)
            return r
        if d.op == "select":
            r = []
            for t in (True, False):
                for p in self.alts(d.args[0], t, env, depth + 1):
                    for q in self.alts(d.args[1 if t else 2], truth, env, depth + 1):
                        r.append(p + q)
            return r
        return [[(c, truth)]]

    def is_bool(self, v):
        v = self.resolve(v, {})
        if not isinstance(v, str):
            return False
        d = self.fn.defs.get(v)
        if d is None:
            return v == self.flag
        return d.op in ("icmp", "fcmp") or d.op in ("xor", "and", "or") and all(self.is_bool(a) or cint(a) in (1, 0, -1) for a in d.args) or \
            d.op == "phi" and d.get("dt") == "bool" or d.op == "select" and self.is_bool(d.args[1])

    # --- paths of one iteration
    def paths(self, limit=3000):
        fn, body = self.fn, self.loop.body
        heads = {l.header for l in fn.loops() if l is not self.loop and l.body < body}
        out = []
        st = [(self.h, (), {}, (self.h,))]
        while st:
            b, facts, env, trail = st.pop()
            if len(out) > limit or len(trail) > 400:
                return None
            t = fn.blocks[b][-1]
            for y, lab in fn.succ[b]:
                if lab == "u" or (y not in body and y != self.h):
                    continue
                alts = [[]]
                if lab in ("t", "f") and "cond" in t.d:
                    alts = self.alts(t.d["cond"], lab == "t", env) if b != self.h or True else [[]]
                for al in alts:
                    f2 = facts + tuple((c, tr, b) for c, tr in al)
                    seen = {}
                    if any(seen.setdefault(c, tr) != tr for c, tr, _ in f2):
                        continue
                    if y == self.h:
                        out.append((b, f2, env, trail))
                        continue
                    if y in trail:
                        if y in heads:
                            continue
                        return None
                    e2 = dict(env)
                    for i in fn.blocks[y]:
                        if i.op != "phi":
                            break
                        if y in heads:
                            continue
                        x = next((x for pb, x in i.args if pb == b), None)
                        e2[i.id] = self.resolve(x, env)
                    st.append((y, f2, e2, trail + (y,)))
        return out

    def latch(self, phi, last, env):
        x = next((x for pb, x in self.headphis[phi].args if pb == last), None)
        return self.resolve(x, env)

    def run(self):
        """fills out; returns the expression V of the compared value at the loop's index (None when not recognised)"""
        A, fn = self.A, self.fn
        ps = self.paths()
        if not ps:
            return self.no("cannot follow the paths of the selection loop")
        iv = None
        V, cmpphis, recs = None, set(), []
        for last, facts, env, trail in ps:
            rel, unk, flag = set("GLE"), [], None
            for c, tr, b in facts:
                if self.flag is not None and c == self.flag:
                    if flag is not None and flag != tr:
                        rel = set()
                    flag = tr
                    continue
                d = fn.defs.get(c)
                if d is None:
                    unk.append((c, b))
                    continue
                if b == self.h and len(fn.blocks[b]) and c == self.resolve(fn.blocks[b][-1].d.get("cond"), {}):
                    continue            # the loop's own bound
                if d.op != "fcmp":
                    if any(y not in self.loop.body for y, lab in fn.succ[b] if lab != "u"):
                        continue        # a bound tested further down, or a check that throws
                    unk.append((c, b))
                    continue
                x, y = self.expr(d.args[0], env), self.expr(d.args[1], env)
                x, y = self.even(x), self.even(y)
                if y[0] == "c" and str(y[1]) in ("#f0", "#f0.0", "#f0.0E+0", "#f-0", "#f-0.0") and x[:2] == ("op", "fsub"):
                    x, y = x[3], x[4]
                sx, sy = self.side(x), self.side(y)
                pr = d.get("pred")
                if pr in ("ord", "uno"):
                    continue
                if (sx, sy) in (("V", "V"), ("V", None), (None, "V")) and self.shape(x) == self.shape(y):
                    unk.append((c, b, x, y))       # a candidate compared with another one than the kept one
                    V = V if V is not None else x if sx == "V" else y
                    continue
                if {sx, sy} != {"V", "W"} or pr not in T:
                    if "B" in (sx, sy) or {sx, sy} == {"V", "W"}:
                        unk.append((c, b, x, y))
                        z = x if sx == "B" else y
                        if V is None and z[:2] == ("op", "fsub") and {self.side(z[3]), self.side(z[4])} == {"V", "W"}:
                            z = self.peel(z[3] if self.side(z[3]) == "V" else z[4])
                            V = z if z[0] not in ("op", "even") else None
                    else:
                        unk.append((c, b))
                    continue
                r = set(T[pr]) if tr else set("GLE") - set(T[pr])
                if sx == "W":
                    r = {FLIP[k] for k in r}
                    x, y = y, x
                sc = [z for z in (x, y) if z[0] in ("op", "even")]
                if sc:
                    unk.append((c, b, x, y))
                    x, y = self.peel(x), self.peel(y)
                    if x[0] not in ("op", "even") and y[0] != "op" and V is None:
                        V = x
                    if y[0] == "phi":
                        cmpphis.add(y[1])
                    continue
                if V is None:
                    V = x
                elif V != x:
                    unk.append((c, b))
                    continue
                if y[0] == "phi":
                    cmpphis.add(y[1])
                elif self.sub(y) != self.sub(x):
                    unk.append((c, b))
                    continue
                rel &= r
            recs.append((last, facts, env, trail, rel, unk, flag))
        if V is None:
            return self.no("no comparison of a candidate with the kept one")
        ix = {e[2] for e in find(V, lambda e: self.at_i(e) and (self.cand is None or e[1][1] == self.cand[1]))}
        if len(ix) != 1:
            return self.no("the compared value belongs to no single candidate") if not ix else self.bad("own-value", "the compared value mixes several candidates", None)
        self._index = ix.pop()
        definite = 0
        for last, facts, env, trail, rel, unk, flag in recs:
            if not rel:
                continue
            upd, how = self.update(last, env, trail)
            if upd is None:
                self.no(how)
                continue
            at = fn.blocks[last][-1]
            where = next((fn.defs[c].repo_loc for c, _, _ in facts if c in fn.defs and fn.defs[c].op == "fcmp"), at.repo_loc)
            if upd == "wrong":
                self.bad("kept-candidate", how, where)
                continue
            for w in sorted(cmpphis):
                nw = self.latch(w, last, env)
                ne = ("phi", w) if nw == w else A.value(nw)
                if upd and nw == w:
                    self.bad("running-value", "the kept candidate is replaced but the value it is compared by is not", where)
                elif upd and V is not None and ne != V and ne[0] not in ("?", "phi"):
                    self.bad("running-value", "the value remembered for the kept candidate is not that candidate's value", where)
                elif not upd and nw != w:
                    self.bad("running-value", "the value compared against changes although the kept candidate does not", where)
            for mx in ((True, False) if self.flag is not None and flag is None else (flag,) if self.flag is not None else (self.direction == "max",)):
                ok = set("GE" if upd else "LE") if mx else set("LE" if upd else "GE")
                if rel <= ok:
                    definite += 1
                    continue
                if unk:
                    odd = [u for u in unk if len(u) == 4]
                    if odd and not any(self.scaled(u[2]) or self.scaled(u[3]) for u in odd) and len(odd) == len(unk):
                        self.bad("order", "when asked to %s, whether a candidate replaces the kept one is decided by something other than the order of their two values"
                                 % ("maximise" if mx else "minimise"), where)
                    else:
                        self.no("a condition of the selection is not understood")
                    continue
                w = sorted(rel - ok)[0]
                self.bad("order", "when asked to %s, a candidate whose value is %s the kept one's %s it" %
                         ("maximise" if mx else "minimise", NAME[w], "replaces" if upd else "does not replace"), where)
        for x in self.exits():
            if x is None or x[1] is None:
                self.no("a way out of the selection loop is not understood")
            else:
                self.bad("all-candidates", "the search can end here before every candidate has been looked at", x[1])
        if definite and not self.out:
            self.out.append(("order", True, "", None))
        return V

    def scaled(self, e):
        return bool(find(e, lambda x: x[0] == "op" and self.even(x)[0] != "even" and x[1] in ("fmul", "fneg", "fdiv", "select")) or find(e, lambda x: x[0] in ("?", "phi") and (x[0] == "?" or x[1] not in self.headphis)))

    def even(self, e):
        """a square or an absolute value of something: neither order nor sign of that survive"""
        if e[0] == "op" and e[1] == "fmul" and len(e) > 4 and e[3] == e[4]:
            return ("even", self.even(e[3]))
        if e[0] == "call" and e[1] in ("llvm.fabs.f64", "fabs", "abs") and len(e) == 3:
            return ("even", e[2])
        return e

    def peel(self, e):
        """without a constant added or subtracted"""
        while e[0] == "even" or e[0] == "op" and e[1] in ("fadd", "fsub") and (e[4][0] == "c" or e[3][0] == "c"):
            e = e[1] if e[0] == "even" else e[3] if e[4][0] == "c" else e[4]
        return e

    def exits(self):
        """(condition, place) of ways out of the loop, other than by an exception, on which candidates can remain that were not looked at; None for a way that is not understood"""
        fn, body = self.fn, self.loop.body
        returns = set()
        st = [b for b in range(len(fn.blocks)) if fn.blocks[b][-1].op == "ret"]
        while st:
            x = st.pop()
            if x in returns:
                continue
            returns.add(x)
            st += [p for p, lab in fn.pred[x] if lab != "u"]
        out = []
        st, seen = [(self.h, (self.h,), ())], 0
        while st:
            b, trail, facts = st.pop()
            seen += 1
            if seen > 4000:
                return [None]
            t = fn.blocks[b][-1]
            for y, lab in fn.succ[b]:
                if lab == "u" or y == self.h or y in trail or y not in returns:
                    continue
                c = t.d.get("cond") if lab in ("t", "f") else None
                f2 = facts + ((c, b),) if c else facts
                if y in body:
                    st.append((y, trail + (y,), f2))
                    continue
                if c and self.bounds(c):
                    continue
                kinds = {self.kind(x, bb) for x, bb in f2}
                out.append((t, None) if "?" in kinds else (t, fn.blocks[b][-1].repo_loc))
        return out

    def bounds(self, c):
        """a comparison of the position with the number of candidates"""
        d = self.fn.defs.get(self.resolve(c, {}))
        if d is None or d.op != "icmp":
            return False
        l = self.A.sym.val(d.args[0]) - self.A.sym.val(d.args[1])
        it = l.t.get(("iter", self.h))
        rest = [a for a in l.atoms() if a != ("iter", self.h)]
        if it is None:
            return any(a[0] != "size" for a in rest)          # some other counter
        return it not in (1, -1) or not rest or any(a[0] == "size" and l.t[a] in (1, -1) or a[0] == "val" and not self.derived(a) for a in rest)

    def derived(self, a):
        """computed from a size, so that it differs from it"""
        d = self.fn.defs.get(a[1]) if isinstance(a[1], str) else None
        op = d.op if d is not None else a[1][0] if isinstance(a[1], tuple) else None
        return op in ("lshr", "udiv", "sdiv", "urem", "and", "ashr")

    def kind(self, c, b):
        """what a condition on the way out is about: 'bound', 'flag', 'order' (of two candidates' values), 'place' or '?'"""
        c = self.resolve(c, {})
        if c == self.flag:
            return "flag"
        if self.bounds(c):
            return "bound"
        d = self.fn.defs.get(c)
        if d is None:
            return "?"
        if d.op == "phi" and d.get("dt") == "bool":
            ks = {self.kind(x, b) if cint(x) is None else "flag" for _, x in d.args}
            return "?" if "?" in ks else "order"
        if d.op == "icmp":
            l = self.A.sym.val(d.args[0]) - self.A.sym.val(d.args[1])
            return "place" if ("iter", self.h) in l.atoms() and all(a[0] in ("iter", "size") or self.derived(a) for a in l.atoms()) else "?"
        if d.op == "fcmp":
            s = {self.side(self.expr(x, {})) for x in d.args}
            return "order" if s in ({"V", "W"}, {"V"}) else "?"
        if d.op in ("xor", "and", "or", "select"):
            ks = {self.kind(x, b) for x in d.args if cint(x) is None}
            return "?" if "?" in ks else "order"
        return "?"

    def shape(self, e):
        if isinstance(e, tuple):
            if len(e) > 2 and e[0] == "el" and isinstance(e[2], Lin):
                return ("CAND", e[1])
            return tuple(self.shape(x) for x in e)
        return e

    def sub(self, e):
        """the expression with its candidate replaced by a placeholder"""
        if isinstance(e, tuple):
            if self.at_i(e) or self.at_best(e):
                return ("CAND", e[1] if e[0] == "el" and self.best[0] == "idx" else None)
            return tuple(self.sub(x) for x in e)
        return e

    def update(self, last, env, trail):
        A, fn = self.A, self.fn
        if self.best[0] == "idx":
            p = self.best[1]
            n = self.latch(p, last, env)
            if n == p:
                return False, None
            l = A.sym.val(n)
            d = l - self.index()
            if not d.t or d.const() == 0:
                return True, None
            if d.const() is not None:
                return "wrong", "the index kept is not the index of the candidate compared (off by %s)" % d.const()
            return None, "the index kept is not understood"
        cell = self.best[1]
        up = False
        for b in trail:
            for i in fn.blocks[b]:
                for s, w in A.cells.get((cell, 0), []):
                    if w is i:
                        e = A.src(s, 0)
                        if e == self.candidate():
                            up = True
                        elif e[0] == "cell" and e[1] == cell:
                            pass
                        elif e[0] == "el" and isinstance(e[2], Lin) and (e[2] - self.index()).const() not in (None, 0):
                            return "wrong", "the candidate kept is not the one compared"
                        else:
                            return None, "the candidate kept is not understood"
        return up, None

    def candidate(self):
        return self.A.read(self.cand, self.index(), 0)

    def index(self):
        """index of the candidate looked at in an iteration"""
        return self._index

    def bad(self, rule, text, where):
        if (rule, False, text) not in [(r[0], r[1], r[2]) for r in self.out]:
            self.out.append((rule, False, text, where))

    def no(self, text):
        self.out.append(("order", None, text, None))
        return None


def bound(A, loop, index):
    """(first index, step, end Lin or None, condition loc): the indices a counting loop visits"""
    fn = A.fn
    t = fn.blocks[loop.header][-1]
    c = t.d.get("cond")
    d = fn.defs.get(c)
    ind = next((i for i in fn.blocks[loop.header] if i.op == "phi" and A.sym.induction(i)), None)
    return ind, d


def trip_end(A, loop):
    """(initial Lin, step, end Lin) of a loop `for (i = a; i < end; ++i)` tested in its header; None when it has another shape"""
    fn = A.fn
    t = fn.blocks[loop.header][-1]
    d = fn.defs.get(t.d.get("cond")) if t.d.get("cond") else None
    if d is None or d.op != "icmp":
        return None
    s = dict((lab, y) for y, lab in fn.succ[loop.header])
    inside = s.get("t") in loop.body
    p = d.get("pred")
    a, b = A.sym.val(d.args[0]), A.sym.val(d.args[1])
    if not inside:
        p = {"ult": "uge", "uge": "ult", "slt": "sge", "sge": "slt", "eq": "ne", "ne": "eq", "ule": "ugt", "ugt": "ule", "sle": "sgt", "sgt": "sle"}.get(p)
    it = ("iter", loop.header)
    if it not in a.atoms():
        a, b = b, a
        p = {"ult": "ugt", "ugt": "ult", "slt": "sgt", "sgt": "slt", "ule": "uge", "uge": "ule", "sle": "sge", "sge": "sle"}.get(p, p)
    if it not in a.atoms() or it in b.atoms():
        return None
    k = a.t[it]
    init = a - Lin.a(it).scale(k)
    if p in ("ult", "slt", "ne"):
        return init, k, b
    if p in ("ule", "sle"):
        return init, k, b + Lin.c(1)
    return None
