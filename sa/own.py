"""Ownership typestate of explicitly released resources in one flattened member function."""
import re
from flow import explore, trace
from val import addr, cint
from parq import STD

PAIRS = [(r"^fftw[fl]?_(malloc|alloc_real|alloc_complex)$", r"^fftw[fl]?_free$", "fftw_free"),
         (r"^fftw[fl]?_plan_", r"^fftw[fl]?_destroy_plan$", "fftw_destroy_plan"),
         (r"^_Znw", r"^_ZdlPv", "delete"), (r"^_Zna", r"^_ZdaPv", "delete[]"), (r"^(malloc|calloc|realloc|strdup)$", r"^free$", "free")]
SMART = re.compile(r"^(std|boost)::(shared_ptr|unique_ptr|scoped_ptr|scoped_array|shared_array|auto_ptr|intrusive_ptr|__shared_ptr)(<.*>)?::")


def acquire(i):
    if i.is_call() and i.callee:
        for k, (a, r, n) in enumerate(PAIRS):
            if re.match(a, i.callee):
                return k
    return None


def releases(i):
    if i.is_call() and i.callee:
        for k, (a, r, n) in enumerate(PAIRS):
            if re.match(r, i.callee):
                return k
    return None


class Owner:
    def __init__(self, fn, kind, this="a0", owned=None):
        """kind: 'ctor' | 'dtor' | 'other'; owned: path -> pair index known from the constructors"""
        self.fn, self.kind, self.this, self.owned = fn, kind, this, owned or {}
        self.problems = []
        self.result = []      # per normal exit of a constructor: {path: pair}
        self.sites = {i.id: i for i in fn.calls() if acquire(i) is not None}
        self.undecided = 0

    def loc(self, v, s):
        """memory location of an address"""
        b, o, vo = addr(self.fn, v)
        if vo:
            return None
        r = self.resolve(b, s)
        if r is None:
            return None
        if r[0] == "site":
            return (r[1], (o,))
        return ("this", r[1] + (o,))

    def resolve(self, v, s, depth=0):
        if v == self.this:
            return ("path", ())
        if v in self.sites:
            return ("site", v)
        d = self.fn.defs.get(v)
        if d is None or depth > 8:
            return None
        if d.op in ("bitcast", "freeze"):
            return self.resolve(d.args[0], s, depth + 1)
        if d.op == "getelementptr":
            b, o, vo = addr(self.fn, v)
            return None if b == v or o or vo else self.resolve(b, s, depth + 1)
        if d.op == "load":
            l = self.loc(d.args[0], s)
            if l is None:
                return None
            m = dict(s[1])
            if l in m:
                return m[l]
            return ("path", l[1]) if l[0] == "this" else None
        if d.op in ("phi", "select"):
            xs = [x for _, x in d.args] if d.op == "phi" else d.args[1:]
            rs = {self.resolve(x, s, depth + 1) for x in xs if x not in ("null", v)}
            rs.discard(None)
            return rs.pop() if len(rs) == 1 else None
        return None

    def bad(self, i, rule, msg):
        self.problems.append((rule, i, msg))

    def step(self, i, s):
        st, mem, rel = s
        if i.op == "store":
            l = self.loc(i.args[1], s)
            r = self.resolve(i.args[0], s)
            if l is not None:
                m = dict(mem)
                if r is not None:
                    if r[0] == "path" and r[1] == ():
                        return [("n", s)]
                    m[l] = r
                elif l in m:
                    del m[l]
                if self.kind == "other" and l[0] == "this" and l[1] in self.owned and l[1] not in rel \
                        and r is not None and r[0] == "site" and not any(x == ("path", l[1]) for k, x in mem):
                    self.bad(i, "no-leak", "a new resource replaces the one the object holds, which is never released")
                if l[0] == "this" and l[1] in rel and r is not None and r[0] == "site":
                    rel = rel - {l[1]}
                return [("n", (st, frozenset(m.items()), rel))]
            return [("n", s)]
        if not i.is_call():
            return [("n", s)]
        k = acquire(i)
        if k is not None:
            d = dict(st)
            if d.get(i.id) == "live":
                return [("n", s)]
            d[i.id] = "live"
            out = [("n", (tuple(sorted(d.items())), mem, rel))]
            if k in (2, 3):
                out.append(("t", STD, s))
            return out
        k = releases(i)
        if k is not None and i.args:
            r = self.resolve(i.args[0], s)
            if r is None:
                return [("n", s)]
            if r[0] == "site":
                d = dict(st)
                if d.get(r[1]) == "gone":
                    self.bad(i, "release-once", "releases the same resource twice")
                if acquire(self.sites[r[1]]) != k:
                    self.bad(i, "matching-release", "releases with %s what was acquired with %s" % (PAIRS[k][2], self.fn.prog.base(self.sites[r[1]].callee)))
                d[r[1]] = "gone"
                return [("n", (tuple(sorted(d.items())), mem, rel))]
            p = r[1]
            if p == ():
                return [("n", s)]
            if p in rel:
                self.bad(i, "release-once", "releases the same resource twice")
            if p in self.owned and self.owned[p] != k:
                self.bad(i, "matching-release", "releases with %s what must be released with %s" % (PAIRS[k][2], PAIRS[self.owned[p]][2]))
            return [("n", (st, mem, rel | {p}))]
        # handed to a smart pointer or something else that keeps it
        hand = []
        name = self.fn.prog.callee_dem(i) or ""
        if not (i.callee or "").startswith(("fftw", "llvm.", "__cxa", "__clang", "__gxx")):
            smart = SMART.match(name)
            for a in i.args:
                if not isinstance(a, str) or a == self.this:
                    continue
                r = self.resolve(a, s)
                if r is not None and r[0] == "site" and dict(st).get(r[1]) == "live" and (smart or not self.fn.prog.funcs.get(i.callee, {}).get("repo")):
                    if smart or not i.get("ro"):
                        hand.append(r[1])
        if hand:
            d = dict(st)
            for x in hand:
                d[x] = "handed"
            s2 = (tuple(sorted(d.items())), mem, rel)
            return [("n", s2)] + ([] if i.get("nt") else [("t", STD, s2)])
        if i.get("nt") or (i.callee or "").startswith(("fftw", "llvm.", "__cxa", "__clang")):
            # use after release
            for a in i.args:
                r = self.resolve(a, s) if isinstance(a, str) else None
                if r is not None and (r[0] == "path" and r[1] in rel or r[0] == "site" and dict(st).get(r[1]) == "gone") and (i.callee or "").startswith("fftw"):
                    self.bad(i, "no-use-after-release", "uses a resource after releasing it")
            return [("n", s)]
        return [("n", s), ("t", STD, s)]

    def branch(self, c, val, s):
        d = self.fn.defs.get(c)
        if d is None or d.op != "icmp" or "null" not in d.args or d.get("pred") not in ("eq", "ne"):
            return s
        x = [a for a in d.args if a != "null"]
        if len(x) != 1:
            return s
        r = self.resolve(x[0], s)
        isnull = bool(val) == (d.get("pred") == "eq")
        if r is None or not isnull:
            return s
        if r[0] == "site":
            st = dict(s[0])
            if acquire(self.sites[r[1]]) in (2, 3):
                return None
            st[r[1]] = "gone" if st.get(r[1]) == "live" else st.get(r[1])
            # nothing was acquired: releasing null later is harmless
            st = {k: v for k, v in st.items() if k != r[1]}
            return (tuple(sorted(st.items())), s[1], s[2])
        if r[1] in self.owned:
            return None
        return s

    def run(self):
        exits, n = explore(self.fn, ((), frozenset(), frozenset()), self.step, branch=self.branch)
        for e in exits:
            st, mem, rel = e[2]
            live = {k for k, v in st if v == "live"}
            handed = {k for k, v in st if v == "handed"}
            reach = {}
            work = [("this", ())] + [(h, None) for h in handed]
            seen = set()
            while work:
                root, path = work.pop()
                if root in seen:
                    continue
                seen.add(root)
                for (r, offs), x in mem:
                    if r == root and x[0] == "site":
                        p = None if path is None else path + offs
                        reach[x[1]] = p
                        work.append((x[1], p))
            gone = self.kind == "ctor" and e[0] == "escape"
            for k in live:
                if k not in reach or gone and reach.get(k) is not None or gone and k not in reach:
                    self.bad(self.sites[k], "no-leak", "acquired at %s and lost on %s: %s" % (self.sites[k].repo_loc,
                             "an exception" if e[0] == "escape" else "a return", trace(e[3])))
            if self.kind == "ctor" and e[0] == "ret":
                self.result.append({reach[k]: acquire(self.sites[k]) for k in live if reach.get(k) is not None})
            if self.kind == "dtor" and e[0] == "ret":
                for p, k in self.owned.items():
                    if p not in rel:
                        self.bad(e[1], "release-once", "the resource at field path %s is not released on the path %s" % (list(p), trace(e[3])))
            if self.kind == "other":
                m = {l[1] for l, x in mem if l[0] == "this" and x[0] == "site"}
                for p in rel:
                    if p in self.owned and p not in m:
                        self.bad(e[1], "no-use-after-release", "leaves the object holding a released resource: " + trace(e[3]))
        return n
