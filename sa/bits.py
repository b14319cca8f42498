"""Loops over ranges of std::vector<bool>: symbolic positions of bit iterators and closed forms of loop variables.

A position is  root + (sym, a, b)  =  root + sym + a + b*k  in iteration k, where root is the range's beginning or end and sym
is None or "size" (the length of the range)."""
from flow import const

ZERO = (None, 0, 0)


def add(x, y, s=1):
    """sum (or difference) of two linear forms, None if not expressible"""
    if x is None or y is None:
        return None
    sx, sy = x[0], y[0]
    if s == 1:
        if sx is None or sy is None:
            sym = sx or sy
        elif sx == "-" + sy or sy == "-" + sx:
            sym = None
        else:
            return None
    else:
        if sy is None:
            sym = sx
        elif sx == sy:
            sym = None
        elif sx is None:
            sym = sy[1:] if sy.startswith("-") else "-" + sy
        else:
            return None
    return (sym, x[1] + s * y[1], x[2] + s * y[2])


class BitLoop:
    """one loop of f that walks the range [from, to) whose halves are the arguments `args` of f (four of them)"""

    def __init__(self, f, loop, args, bname):
        self.f, self.loop, self.bname = f, loop, bname
        self.halves = {}
        for k, (r, h) in zip(args, (("from", 0), ("from", 1), ("to", 0), ("to", 1))):
            self.halves["a%d" % k] = ("half", (r, ZERO), h)
        self.env = {}
        self.mem0 = {}
        self.opaque_before = []
        self.changed = set()
        self.delta = {}
        self._pre()
        self.paths = self._paths()
        self._roots()

    # ---- memory of iterator objects -----------------------------------------------------------
    def place(self, v):
        """(alloca, offset)"""
        off = 0
        for _ in range(6):
            d = self.f.defs.get(v)
            if d is None:
                return None
            if d.op == "getelementptr" and not d.d.get("vo"):
                off += d.d.get("off", 0)
                v = d.d["p"]
                continue
            return (d.id, off) if d.op == "alloca" else None
        return None

    def value(self, v, env):
        return env.get(v) or self.env.get(v) or self.halves.get(v)

    def get(self, mem, v):
        """the iterator (or reference) held by the object v points to"""
        p = self.place(v)
        if p is None:
            return None
        lo, hi = mem.get((p[0], p[1])), mem.get((p[0], p[1] + 8))
        if lo and hi and lo[:2] == hi[:2] and (lo[2], hi[2]) == (0, 1):
            return lo[0], lo[1]
        return None

    def put(self, mem, v, kind, it):
        p = self.place(v)
        if p is None:
            return
        for h in (0, 1):
            if it is None:
                mem.pop((p[0], p[1] + 8 * h), None)
            else:
                mem[(p[0], p[1] + 8 * h)] = (kind, it, h)
        self.touched.add(p[0])

    def shift(self, it, n, s=1):
        if it is None or n is None:
            return None
        r = add(it[1], n, s)
        return None if r is None else (it[0], r)

    def step(self, i, mem, env, events, sel):
        f = self.f
        if i.op == "store":
            v, p = i.args[0], self.place(i.args[1])
            if p:
                x = self.value(v, env)
                if x and x[0] in ("half", "halfref"):
                    mem[p] = ("it" if x[0] == "half" else "ref", x[1], x[2])
                else:
                    mem.pop(p, None)
                self.touched.add(p[0])
            return
        if i.op == "load":
            p = self.place(i.args[0])
            x = mem.get(p) if p else None
            if x:
                env[i.id] = ("half" if x[0] == "it" else "halfref", x[1], x[2])
            return
        if i.op == "extractvalue":
            x = self.value(i.args[0], env)
            if x and x[0] in ("IT", "REF"):
                env[i.id] = ("half" if x[0] == "IT" else "halfref", x[1], i.d.get("idx", 0))
            return
        if not i.is_call():
            return
        b = self.bname(i)
        a = i.args
        its = [self.get(mem, x) for x in a if isinstance(x, str)]
        if b == "llvm.memcpy.p0.p0.i64":
            x = self.get(mem, a[1])
            self.put(mem, a[0], x[0] if x else "it", x[1] if x else None)
            return
        if b.endswith("_Bit_reference::operator bool"):
            x = self.get(mem, a[0])
            if x and x[0] == "ref":
                env[i.id] = ("BIT", x[1])
                events.append(("read", i, x[1]))
            return
        if b.endswith("_Bit_reference::operator="):
            x = self.get(mem, a[0])
            events.append(("write", i, x[1] if x and x[0] == "ref" else None, a[1]))
            return
        it = its[0][1] if its and its[0] and its[0][0] == "it" else None
        m = b.split("::")[-1]
        if "_Bit_" in f.prog.dem(i.callee or "") or "_Bit_" in b:
            if m == "operator++" or m == "operator--":
                s = 1 if m == "operator++" else -1
                new = self.shift(it, (None, s, 0))
                self.put(mem, a[0], "it", new)
                if len(a) > 1:
                    env[i.id] = ("IT", it) if it else None
                return
            if m in ("operator+=", "operator-="):
                self.put(mem, a[0], "it", self.shift(it, self.lin(a[1], sel), 1 if m == "operator+=" else -1))
                return
            if m in ("operator+", "operator-"):
                other = its[1] if len(its) > 1 else None
                if other is None:
                    x = a if its and its[0] else list(reversed(a))
                    src = it
                    if src is None and len(its) > 1 and its[1]:
                        src = its[1][1]
                    r = self.shift(src, self.lin(x[1], sel), 1 if m == "operator+" else -1)
                    env[i.id] = ("IT", r) if r else None
                else:
                    env[i.id] = self.env[i.id] = ("DIFF", it, other[1])
                return
            if m == "operator*" or m == "operator[]":
                pos = it if m == "operator*" else self.shift(it, self.lin(a[1], sel))
                if "_Bit_const_iterator" in f.prog.dem(i.callee or ""):
                    env[i.id] = ("BIT", pos)
                    events.append(("read", i, pos))
                else:
                    env[i.id] = ("REF", pos)
                return
            if m in ("operator!=", "operator==", "operatorLT", "operatorGT", "operatorLE", "operatorGE"):
                env[i.id] = ("CMP", m, it, its[1][1] if len(its) > 1 and its[1] else None)
                return
            if m in ("_Bit_const_iterator", "_Bit_iterator"):
                src = self.get(mem, a[1]) if len(a) > 1 else None
                self.put(mem, a[0], "it", src[1] if src else None)
                return
        if any(x for x in its):
            self.opaque_before.append(i)
            for x in a:
                if isinstance(x, str) and self.place(x):
                    self.put(mem, x, "it", None)
        elif any((self.value(x, env) or (0,))[0] in ("half", "halfref") for x in a if isinstance(x, str)):
            events.append(("pass", i, [self.pair(a, k, env) for k in range(len(a))]))

    def pair(self, a, k, env):
        if k + 1 >= len(a) or not isinstance(a[k], str) or not isinstance(a[k + 1], str):
            return None
        x, y = self.value(a[k], env), self.value(a[k + 1], env)
        if x and y and x[0] == y[0] == "half" and x[1] == y[1] and (x[2], y[2]) == (0, 1):
            return x[1]
        return None

    # ---- before the loop ------------------------------------------------------------------------
    def _pre(self):
        self.touched = set()
        dom = self.f.dom()
        chain = sorted((b for b in dom[self.loop.header] if b != self.loop.header), key=lambda b: len(dom[b]))
        # a loop on the way that dominates the header has finished: what it changes is unknown
        for b in chain:
            for i in self.f.blocks[b]:
                self.step(i, self.mem0, self.env, [], {})
        for l in self.f.loops():
            if l.header in chain and l.header != self.loop.header and self.loop.header not in l.body:
                for b in l.body:
                    for i in self.f.blocks[b]:
                        for x in i.args if not i.op == "phi" else []:
                            if isinstance(x, str) and self.place(x) and i.op in ("store", "call", "invoke"):
                                if i.op == "store" or "const" not in self.f.prog.dem(i.callee or ""):
                                    self.mem0.pop(self.place(x), None)
        self.pre_opaque = list(self.opaque_before)

    # ---- paths of one iteration -------------------------------------------------------------------
    def _paths(self, limit=200):
        """[(list of blocks, end)]: end is "latch" or (block, target, label) of an exit; paths that throw are left out"""
        f, L = self.f, self.loop
        out, st = [], [([L.header], [])]
        inner = [l for l in f.loops() if l is not L and l.header in L.body]
        if inner:
            return []
        while st:
            bs, cs = st.pop()
            b = bs[-1]
            if not f.succ[b]:
                continue
            for s, l in f.succ[b]:
                if l == "u":
                    continue
                c = cs + [(f.blocks[b][-1].d.get("cond"), l)] if l in ("t", "f") else cs
                if s == L.header:
                    out.append((bs, c, "latch"))
                elif s not in L.body:
                    if not self._throws(s):
                        out.append((bs, c, (b, s, l)))
                else:
                    st.append((bs + [s], c))
            if len(out) + len(st) > limit:
                return []
        return out

    def _throws(self, b):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.f.blocks[x][-1].op == "ret":
                return False
            st.extend(s for s, _ in self.f.succ[x])
        return True

    def sel(self, bs):
        """choice of the phis inside the iteration"""
        r = {}
        for p, b in zip(bs, bs[1:]):
            for i in self.f.blocks[b]:
                if i.op == "phi":
                    r[i.id] = next((v for q, v in i.args if q == p), None)
        return r

    def _walk(self, bs, start):
        mem, env, events = dict(start), {}, []
        self.opaque_before = []
        sel = self.sel(bs)
        for b in bs:
            for i in self.f.blocks[b]:
                self.step(i, mem, env, events, sel)
        return mem, env, events, sel

    def _roots(self):
        """which iterator objects change in the loop, by how much per iteration"""
        self.touched = set()
        for bs, cs, end in self.paths:
            self._walk(bs, self.mem0)
        ch = set(self.touched)
        start = {k: v for k, v in self.mem0.items() if k[0] not in ch}
        for a in ch:
            x = self.mem0.get((a, 0))
            for h in (0, 1):
                start[(a, 8 * h)] = ("it", (("L", a), ZERO), h)
        self.start = start
        deltas = {}
        for bs, cs, end in self.paths:
            if end != "latch":
                continue
            mem, env, events, sel = self._walk(bs, start)
            for a in ch:
                lo = mem.get((a, 0))
                hi = mem.get((a, 8))
                d = None
                if lo and hi and lo[0] == hi[0] == "it" and lo[1] == hi[1]:
                    if lo[1][0] == ("L", a):
                        d = lo[1][1]
                    else:
                        d = ("set", lo[1])
                deltas.setdefault(a, []).append(d)
        self.delta = {a: (ds[0] if all(d == ds[0] for d in ds) else None) for a, ds in deltas.items()}
        self.results = [(bs, cs, end) + tuple(self._walk(bs, start)) for bs, cs, end in self.paths]

    def position(self, it, depth=0):
        """closed form of an iterator in iteration k as a distance from the beginning"""
        if it is None or depth > 4:
            return None
        root, l = it
        if root == "from":
            return l
        if root == "to":
            return add(("size", 0, 0), l)
        a = root[1]
        x, d = self.mem0.get((a, 0)), self.delta.get(a)
        if not x or x[0] != "it" or d is None or d[0] == "set":
            return None
        p0 = self.position(x[1], depth + 1)
        if p0 is None or p0[2] or d[0] is not None or d[2]:
            return None
        return add(add(p0, (None, 0, d[1])), l)

    # ---- closed forms -------------------------------------------------------------------------------
    def lin(self, v, sel, depth=0):
        """an integer as (sym, a, b): sym + a + b*k"""
        c = const(v)
        if c is not None:
            return (None, c, 0)
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or depth > 12:
            return None
        if d.op in ("zext", "trunc", "sext", "freeze"):
            return self.lin(d.args[0], sel, depth + 1)
        if d.op in ("add", "sub"):
            return add(self.lin(d.args[0], sel, depth + 1), self.lin(d.args[1], sel, depth + 1), 1 if d.op == "add" else -1)
        if d.op == "xor" and "#-1" in d.args:
            return add((None, -1, 0), self.lin(next((x for x in d.args if x != "#-1"), None), sel, depth + 1), -1)
        if d.op == "phi":
            if d.bb == self.loop.header:
                ini = [x for q, x in d.args if q not in self.loop.body]
                nxt = [x for q, x in d.args if q in self.loop.body]
                if len(ini) != 1 or len(set(nxt)) != 1:
                    return None
                a = self.lin(ini[0], {}, depth + 1)
                s = self.stride(nxt[0], d.id)
                if a is None or s is None or a[2]:
                    return None
                return (a[0], a[1], s)
            if d.id in sel:
                return self.lin(sel[d.id], sel, depth + 1)
            return None
        if d.is_call() and (self.env.get(d.id) or (0,))[0] == "DIFF":
            x = self.env[d.id]
            p, q = self.position(x[1]) if x[1] else None, self.position(x[2]) if x[2] else None
            return add(p, q, -1)
        return self.size_of(d)

    def size_of(self, d):
        return None

    def stride(self, v, phi, depth=0):
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if v == phi:
            return 0
        if d is None or depth > 6:
            return None
        if d.op in ("zext", "trunc", "sext", "freeze"):
            return self.stride(d.args[0], phi, depth + 1)
        if d.op in ("add", "sub"):
            for x, y in ((0, 1), (1, 0)):
                c = const(d.args[y])
                if c is not None and (d.op == "add" or y == 1):
                    s = self.stride(d.args[x], phi, depth + 1)
                    return None if s is None else s + (c if d.op == "add" else -c)
        return None

    def header_phi(self, v):
        """(initial value, value after an iteration) of a phi of the loop header"""
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or d.op != "phi" or d.bb != self.loop.header:
            return None
        ini = [x for q, x in d.args if q not in self.loop.body]
        nxt = [x for q, x in d.args if q in self.loop.body]
        return (ini[0], nxt[0]) if len(ini) == 1 and len(set(nxt)) == 1 else None

    def weight(self, v, sel, depth=0):
        """the exponent e (linear form) if v is 2**e"""
        c = const(v)
        if c is not None:
            return (None, c.bit_length() - 1, 0) if c > 0 and c & (c - 1) == 0 else None
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or depth > 10:
            return None
        if d.op in ("zext", "trunc", "sext", "freeze"):
            return self.weight(d.args[0], sel, depth + 1)
        if d.op == "shl":
            return add(self.weight(d.args[0], sel, depth + 1), self.lin(d.args[1], sel))
        if d.op == "lshr" or d.op == "ashr":
            return add(self.weight(d.args[0], sel, depth + 1), self.lin(d.args[1], sel), -1)
        if d.op == "mul":
            return add(self.weight(d.args[0], sel, depth + 1), self.weight(d.args[1], sel, depth + 1))
        p = self.header_phi(v)
        if p:
            w0 = self.weight(p[0], {}, depth + 1)
            n = self.f.defs.get(p[1])
            s = None
            if n is not None and n.args and n.args[0] == v:
                if n.op == "shl" and const(n.args[1]) is not None:
                    s = const(n.args[1])
                elif n.op in ("lshr", "ashr") and const(n.args[1]) is not None:
                    s = -const(n.args[1])
                elif n.op == "mul" and const(n.args[1]) == 2 or n.op == "add" and n.args[1] == v:
                    s = 1
                elif n.op in ("udiv", "sdiv") and const(n.args[1]) == 2:
                    s = -1
            if w0 is not None and s is not None and not w0[2]:
                return (w0[0], w0[1], s)
            return None
        if d.op == "phi" and d.id in sel:
            return self.weight(sel[d.id], sel, depth + 1)
        return None
