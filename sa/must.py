"""Forward must-analysis of one flattened function with facts that hold conditionally on truth values.

A state is a frozenset of facts:  ("ok", key)             the property holds for key
                                  ("imp", v, val, key)    if value v is val, the property holds for key (key "*": v is not val)
                                  any other tuple         a plain fact, kept at a join only if all branches have it
The client's transfer function adds and removes facts at an instruction; conditions, joins, phis and exceptional edges are
handled here.  run() joins states at block entries, confirm() follows the paths one by one."""
from flow import explore
from heapq import heappush, heappop


def truth(f, v, want=1, depth=0):
    """(value, polarity): the condition v is true exactly if the call or phi result is `polarity`"""
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 10:
        return None
    if d.op in ("zext", "trunc", "freeze"):
        return truth(f, d.args[0], want, depth + 1)
    if d.op == "xor" and any(x in ("#1", "#-1", "#255") for x in d.args):
        return truth(f, next((x for x in d.args if x not in ("#1", "#-1", "#255")), None), 1 - want, depth + 1)
    if d.op == "icmp" and d.d["pred"] in ("eq", "ne") and any(x in ("#0", "#1") for x in d.args):
        c = next(x for x in d.args if x in ("#0", "#1"))
        o = next((x for x in d.args if x != c), None)
        return truth(f, o, 1 - want if (d.d["pred"] == "eq") == (c == "#0") else want, depth + 1)
    if d.op == "phi" or d.is_call():
        return d.id, want
    return None


def ok(st, k):
    return ("ok", k) in st


def verdict(st, v, *keys):
    """the call or phi v being true means the property holds for the keys"""
    return forget(st, v) | {("imp", v, 1, k) for k in keys}


def forget(st, v):
    return frozenset(x for x in st if not (x[0] == "imp" and x[1] == v))


def lost(st, *keys):
    """the property no longer holds for the keys, nor under any condition"""
    return frozenset(x for x in st if not (x[0] == "ok" and x[1] in keys or x[0] == "imp" and x[3] in keys))


class Must:
    def __init__(self, f, init, transfer, on_edge=None):
        self.f, self.init, self.transfer, self.on_edge = f, frozenset(init), transfer, on_edge
        self.phis = {}
        for n, b in enumerate(f.blocks):
            for p in b:
                if p.op == "phi" and p.d.get("t") in ("i1", "i8", "i32"):
                    self.phis.setdefault(n, []).append(p)

    def refine(self, st, cond, val):
        y = truth(self.f, cond)
        if not y:
            return st
        v, pol = y
        x = pol if val else 1 - pol
        if ("imp", v, x, "*") in st:
            return None
        return st | {("ok", a[3]) for a in st if a[0] == "imp" and a[1] == v and a[2] == x}

    def edge(self, frm, to, st):
        old = st
        for p in self.phis.get(to, ()):
            st = forget(st, p.id)
        for p in self.phis.get(to, ()):
            for pb, v in p.args:
                if pb != frm:
                    continue
                if v in ("#0", "#1", "#-1"):
                    st = st | {("imp", p.id, 0 if v != "#0" else 1, "*")}
                else:
                    y = truth(self.f, v)
                    if y:
                        for a in old:
                            if a[0] == "imp" and a[1] == y[0]:
                                st = st | {("imp", p.id, a[2] if y[1] else 1 - a[2], a[3])}
        if self.on_edge:
            st = self.on_edge(frm, to, st)
        return st

    @staticmethod
    def join(a, b):
        if a == b:
            return a
        def holds(s, x):
            if x in s:
                return True
            return x[0] == "imp" and (("ok", x[3]) in s or ("imp", x[1], x[2], "*") in s)
        return frozenset(x for x in a | b if holds(a, x) and holds(b, x))

    def run(self):
        """the state before every block, and the states at returns"""
        f = self.f
        order = f.rpo() if hasattr(f, "rpo") else self.rpo()
        pos = {b: n for n, b in enumerate(order)}
        self.at = {0: self.init}
        work = [(0, 0)]
        queued = {0}
        while work:
            _, b = heappop(work)
            queued.discard(b)
            st = self.at[b]
            L = f.blocks[b]
            pre = st
            for i in L:
                pre = st
                st = self.transfer(i, st)
                if st is None:
                    break
            if st is None:
                continue
            t = L[-1]
            outs = []
            for s, lab in f.succ[b]:
                if lab == "u":
                    outs.append((s, pre & st))
                elif lab in ("t", "f"):
                    r = self.refine(st, t.d.get("cond"), 1 if lab == "t" else 0)
                    if r is not None:
                        outs.append((s, r))
                else:
                    outs.append((s, st))
            for s, x in outs:
                x = self.edge(b, s, x)
                n = x if s not in self.at else self.join(self.at[s], x)
                if self.at.get(s) != n:
                    self.at[s] = n
                    if s not in queued:
                        queued.add(s)
                        heappush(work, (pos.get(s, 10 ** 6), s))
        return self.at

    def rpo(self):
        f = self.f
        seen, out = {0}, []
        stack = [(0, iter(f.succ[0]))]
        while stack:
            b, it = stack[-1]
            for s, _ in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.succ[s])))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]

    def visit(self, look):
        """look(inst, state before) for every reachable instruction, at the fixed point"""
        self.run()
        for b, st in sorted(self.at.items()):
            for i in self.f.blocks[b]:
                look(i, st)
                st = self.transfer(i, st)
                if st is None:
                    break

    def confirm(self, look, max_nodes=150000):
        """the same along the single paths: False when they are too many"""
        def step(i, st):
            look(i, st)
            r = self.transfer(i, st)
            return [] if r is None else [("n", r)]
        try:
            explore(self.f, self.init, step, max_nodes=max_nodes, branch=lambda c, v, st: self.refine(st, c, v), on_enter=self.edge)
        except OverflowError:
            return False
        return True

    def bad(self, judge):
        """instructions judge(inst, state) calls wrong: at the fixed point and, if the paths can be enumerated, on a path"""
        first = {}
        self.visit(lambda i, st: judge(i, st) is False and first.setdefault(id(i), i))
        if not first:
            return {}
        second = {}
        if not self.confirm(lambda i, st: id(i) in first and judge(i, st) is False and second.setdefault(id(i), i)):
            return first
        return second

    def reached(self, want):
        out = []
        self.visit(lambda i, st: want(i, st) and out.append(i))
        return out
