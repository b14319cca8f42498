"""In-memory form of the flattened functions: instructions, control flow with exception edges,
dominators, loops, and a symbolic value view (expr)."""
import re
from collections import defaultdict

# library accessors that are inlined so that every way of walking a container (index, iterator,
# range-for, pointer) becomes the same address arithmetic
ACCESSORS = [
    r"^std::vector<.*>::(operator\[\]|begin|end|cbegin|cend|size|empty|front|back|data|at|_M_range_check)\(",
    r"^__gnu_cxx::__normal_iterator<.*>::",
    r"__gnu_cxx::operator(==|!=|-|<|>)<",
    r"^bool __gnu_cxx::operator(==|!=|<|>)",
    r"^(decltype|.*__gnu_cxx::__normal_iterator<.*>::difference_type) ?__gnu_cxx::operator-",
    r"^boost::shared_ptr<.*>::(get|operator\*|operator->|operator bool|operator!)\(",
    r"^bool boost::operator(==|!=)<",
    r"std::(move|forward|__addressof|addressof|__niter_base|__miter_base)<",
    r"(double|int|unsigned long|float) const& std::(max|min)<",
    r"^std::array<.*>::(operator\[\]|begin|end|size)\(",
    r"^boost::sp_adl_block",
]
VB = r"std::vector<bool"


class Inst:
    __slots__ = ("d", "id", "op", "bb", "ix", "fn")

    def __init__(self, d, fn, bb, ix):
        self.d, self.fn, self.bb, self.ix = d, fn, bb, ix
        self.id, self.op = d["i"], d["o"]

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def args(self):
        return self.d.get("a", [])

    @property
    def callee(self):
        return self.d.get("f")

    @property
    def loc(self):
        l = self.d.get("l", "?")
        c = self.d.get("c")
        return l + (" (inlined at %s)" % c if c else "")

    @property
    def repo_loc(self):
        """innermost location inside the repository"""
        cand = [self.d.get("l", "?")] + (self.d.get("c", "").split(" < ") if self.d.get("c") else [])
        for x in cand:
            if not x.startswith("/") and x != "?":
                return x
        return cand[0]

    def is_call(self):
        return self.op in ("call", "invoke")

    def __repr__(self):
        return "<%s %s@%s>" % (self.id, self.op, self.d.get("l"))


class Fn:
    def __init__(self, d, prog):
        self.d, self.prog = d, prog
        self.name = d["name"]
        self.dem = prog.dem(self.name)
        self.blocks = []
        self.defs = {}
        for b, il in enumerate(d["blocks"]):
            L = [Inst(x, self, b, i) for i, x in enumerate(il)]
            self.blocks.append(L)
            for x in L:
                self.defs[x.id] = x
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]   # list of (target, label)
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            t = self.blocks[b][-1]
            if t.op == "br":
                s = t.get("succ")
                if len(s) == 1:
                    self._edge(b, s[0], "n")
                else:
                    self._edge(b, s[0], "t")
                    self._edge(b, s[1], "f")
            elif t.op == "switch":
                self._edge(b, t.get("def"), "default")
                for v, x in t.get("cases"):
                    self._edge(b, x, ("case", v))
            elif t.op == "invoke":
                self._edge(b, t.get("nb"), "n")
                self._edge(b, t.get("ub"), "u")
        self._dom = self._pdom = None
        self._loops = None
        self._uses = None

    def _edge(self, a, b, l):
        self.succ[a].append((b, l))
        self.pred[b].append((a, l))

    @property
    def loc(self):
        return "%s:%s" % (self.d.get("file", "?"), self.d.get("line", "?"))

    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self):
        for i in self.insts():
            if i.is_call():
                yield i

    def uses(self, vid):
        if self._uses is None:
            u = defaultdict(list)
            for i in self.insts():
                for o in operands(i):
                    u[o].append(i)
            self._uses = u
        return self._uses.get(vid, [])

    # --- dominators -----------------------------------------------------------------------
    def dom(self):
        if self._dom is None:
            self._dom = dominators(len(self.blocks), 0, [[p for p, _ in ps] for ps in self.pred])
        return self._dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb:
            return a.ix < b.ix
        return a.bb in self.dom()[b.bb]

    def reachable_from(self, bb, labels=None, stop=()):
        seen, st = set(), [bb]
        while st:
            x = st.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            for y, l in self.succ[x]:
                if labels is None or l in labels:
                    st.append(y)
        return seen

    # --- loops ------------------------------------------------------------------------------
    def loops(self):
        """list of Loop, innermost resolvable through Loop.parent"""
        if self._loops is not None:
            return self._loops
        dom = self.dom()
        by_header = defaultdict(set)
        latches = defaultdict(list)
        for b in range(len(self.blocks)):
            for s, _ in self.succ[b]:
                if s in dom[b]:
                    latches[s].append(b)
                    body = by_header[s]
                    body.add(s)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p, _ in self.pred[x])
        ls = [Loop(self, h, frozenset(bs), latches[h]) for h, bs in by_header.items()]
        ls.sort(key=lambda l: len(l.body))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.header in m.body and l is not m:
                    l.parent = m
                    break
        self._loops = ls
        return ls

    def loop_of(self, bb):
        for l in self.loops():
            if bb in l.body:
                return l
        return None


class Loop:
    def __init__(self, fn, header, body, latches):
        self.fn, self.header, self.body, self.latches = fn, header, body, latches
        self.parent = None

    def exits(self, labels=None):
        """(from block, to block, label) leaving the loop"""
        r = []
        for b in self.body:
            for s, l in self.fn.succ[b]:
                if s not in self.body and (labels is None or l in labels):
                    r.append((b, s, l))
        return r

    def depth(self):
        return 1 + (self.parent.depth() if self.parent else 0)


def operands(i):
    r = []
    if i.op == "phi":
        return [v for _, v in i.args]
    for a in i.args:
        r.append(a)
    if "p" in i.d:
        r.append(i.d["p"])
    for v, _ in i.d.get("vo", []):
        r.append(v)
    if "cond" in i.d:
        r.append(i.d["cond"])
    if "fp" in i.d:
        r.append(i.d["fp"])
    return r


def dominators(n, entry, preds):
    reach = set()
    succ = [[] for _ in range(n)]
    for b, ps in enumerate(preds):
        for p in ps:
            succ[p].append(b)
    order, st = [], [(entry, iter(succ[entry]))]
    reach.add(entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in reach:
                reach.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    full = set(order)
    dom = [set([b]) if b not in full else set(full) for b in range(n)]
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry:
                continue
            ps = [dom[p] for p in preds[b] if p in full]
            new = set.intersection(*ps) if ps else set()
            new = new | {b}
            if new != dom[b]:
                dom[b] = new
                ch = True
    return dom


# the exception hierarchy of the standard library, whose type information is external to the module
STD_BASES = {}
for _d, _b in (("bad_alloc", "exception"), ("bad_cast", "exception"), ("bad_typeid", "exception"), ("bad_exception", "exception"),
               ("logic_error", "exception"), ("runtime_error", "exception"), ("invalid_argument", "logic_error"),
               ("domain_error", "logic_error"), ("length_error", "logic_error"), ("out_of_range", "logic_error"),
               ("range_error", "runtime_error"), ("overflow_error", "runtime_error"), ("underflow_error", "runtime_error"),
               ("bad_function_call", "exception"), ("bad_weak_ptr", "exception"), ("bad_array_length", "bad_alloc"),
               ("bad_array_new_length", "bad_alloc")):
    STD_BASES["_ZTISt%d%s" % (len(_d), _d)] = ["_ZTISt%d%s" % (len(_b), _b)]
STD_BASES["_ZTISt12system_error"] = ["_ZTISt13runtime_error"]
STD_BASES["_ZTINSt8ios_base7failureB5cxx11E"] = ["_ZTISt12system_error"]


class Program:
    def __init__(self, j, units):
        self.j, self.units = j, units
        self._dem = j["dem"]
        self.jobs = {k: [Fn(f, self) for f in fs] for k, fs in j["jobs"].items()}
        self.classes, self.funcs, self.globals = j["classes"], j["funcs"], j["globals"]
        self.typeinfo, self.vtables = j["typeinfo"], j["vtables"]

    def dem(self, n):
        return self._dem.get(n, n)

    def base(self, n):
        """demangled name without the parameter list"""
        return short(self.dem(n))

    def callee_dem(self, i):
        return self.dem(i.callee) if i.callee else None

    def derives(self, ti, base):
        seen, st = set(), [ti]
        while st:
            x = st.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            if not x.startswith("_ZTIP"):     # a pointer's type information names its pointee, which is no base
                st.extend(self.typeinfo.get(x) or STD_BASES.get(x, []))
        return False

    def vslot_name(self, v):
        """(class name, method name) for a virtual call annotation [typeid, slot, impls...]"""
        tid, slot = v[0], int(v[1])
        c = self.classes.get(tid)
        seen = set()
        st = [tid]
        cname = c["name"] if c else tid
        while st:
            t = st.pop(0)
            if t in seen:
                continue
            seen.add(t)
            c = self.classes.get(t)
            if not c:
                continue
            for e in c["elems"]:
                if e["k"] == "f" and e.get("vidx") == slot and e["virt"]:
                    return cname, e["n"]
                if e["k"] == "b" and e["off"] == 0:
                    st.append(e["t"])
        for im in v[2:]:
            return cname, short(self.dem(im)).split("::")[-1]
        return cname, "?"

    def class_by_name(self, name):
        for k, c in self.classes.items():
            if c["name"] == name:
                return k, c
        return None, None


def short(d):
    """strip parameters and template arguments of the final name"""
    depth, out = 0, []
    i = 0
    d = re.sub(r"operator(<<|>>|<=|>=|<|>|\(\)|->)", lambda m: "operator" + {"<<": "LSH", ">>": "RSH", "<=": "LE", ">=": "GE", "<": "LT", ">": "GT", "()": "CALL", "->": "ARROW"}[m.group(1)], d)
    d = d.replace("(anonymous namespace)", "{anon}")
    for ch in d:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif depth == 0:
            if ch == "(":
                break
            out.append(ch)
    s = "".join(out).strip()
    # drop a return type
    if " " in s and not s.startswith("operator"):
        s = s.split(" ")[-1] if "operator " not in s else s
    return s
