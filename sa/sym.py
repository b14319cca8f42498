"""Linear symbolic values, loop induction, container sizes and uniform event counts.

Lin: a linear form over atoms with rational coefficients.  Atoms:
  ("size", container)        number of elements of a container on entry to the function
  ("iter", header block)     iteration number (0, 1, ...) of a loop
  ("val", key)               any other value, by structural key
A container is (base value key, byte offset)."""
from fractions import Fraction
from val import addr, cint, key


class Lin:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    @staticmethod
    def c(n):
        return Lin({1: Fraction(n)})

    @staticmethod
    def a(atom):
        return Lin({atom: Fraction(1)})

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return Lin(r)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, f):
        return Lin({k: v * f for k, v in self.t.items()})

    def const(self):
        if not self.t:
            return Fraction(0)
        if set(self.t) == {1}:
            return self.t[1]
        return None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def atoms(self):
        return [k for k in self.t if k != 1]

    def __repr__(self):
        if not self.t:
            return "0"
        def an(k):
            if k == 1:
                return ""
            return {"size": "size(%s)", "iter": "iter%s", "val": "val(%s)"}[k[0]] % (k[1],) if k[0] in ("size", "iter", "val") else str(k)
        return " + ".join(("%s*%s" % (v, an(k)) if v != 1 else an(k)) if k != 1 else str(v) for k, v in self.t.items())


class Sym:
    def __init__(self, fn, sizes=None):
        self.fn = fn
        self.memo = {}
        self.size_at = {}     # call id -> Lin, filled by the counter for size() calls
        self.cont_size = {}   # container -> Lin, current (counter) knowledge
        self.busy = set()

    # containers ---------------------------------------------------------------------------------
    def begin_of(self, v):
        """container whose begin pointer v is, or None"""
        d = self.fn.defs.get(v)
        if d is not None and d.op == "load":
            b, o, vo = addr(self.fn, d.args[0])
            if not vo:
                return (key(self.fn, b), o)
            return (key(self.fn, d.args[0]), 0)
        if d is not None and d.is_call() and d.callee:
            if self.fn.prog.base(d.callee).split("::")[-1] in ("begin", "cbegin", "data") and d.args:
                b, o, vo = addr(self.fn, d.args[0])
                return (key(self.fn, b), o)
        return None

    def end_of(self, v):
        d = self.fn.defs.get(v)
        if d is not None and d.op == "load":
            b, o, vo = addr(self.fn, d.args[0])
            if not vo:
                return (key(self.fn, b), o - 8)
            return (("gep", key(self.fn, b), o - 8, tuple((key(self.fn, x), s) for x, s in vo)), 0)
        if d is not None and d.is_call() and d.callee:
            if self.fn.prog.base(d.callee).split("::")[-1] in ("end", "cend") and d.args:
                b, o, vo = addr(self.fn, d.args[0])
                return (key(self.fn, b), o)
        return None

    def size(self, cont):
        return self.cont_size.get(cont, Lin.a(("size", cont)))

    # values ---------------------------------------------------------------------------------------
    def val(self, v):
        k = cint(v)
        if k is not None:
            return Lin.c(k)
        if v in self.size_at:
            return self.size_at[v]
        if v in self.memo:
            return self.memo[v]
        if v in self.busy:
            return Lin.a(("val", v))
        self.busy.add(v)
        r, cache = self._val(v)
        self.busy.discard(v)
        if cache:
            self.memo[v] = r
        return r

    def _val(self, v):
        fn = self.fn
        d = fn.defs.get(v)
        if d is None:
            return Lin.a(("val", v)), True
        if d.op in ("zext", "sext", "trunc", "freeze", "ptrtoint", "bitcast"):
            return self.val(d.args[0]), False
        if d.op == "add":
            return self.val(d.args[0]) + self.val(d.args[1]), False
        if d.op == "sub":
            return self.val(d.args[0]) - self.val(d.args[1]), False
        if d.op == "xor" and cint(d.args[1]) == -1:
            return self.val(d.args[0]).scale(-1) - Lin.c(1), False
        if d.op in ("mul", "shl"):
            a, b = self.val(d.args[0]), self.val(d.args[1])
            if d.op == "shl":
                k = b.const()
                if k is not None:
                    return a.scale(2 ** int(k)), False
            else:
                if b.const() is not None:
                    return a.scale(b.const()), False
                if a.const() is not None:
                    return b.scale(a.const()), False
        if d.op in ("ashr", "lshr", "sdiv", "udiv"):
            s = fn.defs.get(d.args[0])
            while s is not None and s.op in ("freeze",):
                s = fn.defs.get(s.args[0])
            if s is not None and s.op == "sub":
                e, b = fn.defs.get(s.args[0]), fn.defs.get(s.args[1])
                ev = e.args[0] if e is not None and e.op == "ptrtoint" else s.args[0]
                bv = b.args[0] if b is not None and b.op == "ptrtoint" else s.args[1]
                ce, cb = self.end_of(ev), self.begin_of(bv)
                if ce is not None and ce == cb:
                    return self.size(ce), False
                # pointer inside a container minus its begin
                k = cint(d.args[1])
                if cb is not None and k is not None:
                    es = 2 ** k if d.op in ("ashr", "lshr") else k
                    el = self.elem(ev, es)
                    if el is not None and el[0] == cb:
                        return el[1], False
        if d.op == "phi":
            iv = self.induction(d)
            if iv is not None:
                init, step, lp = iv
                return self.val(init) + Lin.a(("iter", lp.header)).scale(step), False
            vs = {self.val(x) for _, x in d.args if x != v}
            if len(vs) == 1:
                return vs.pop(), False
        return Lin.a(("val", key(fn, v))), False

    def induction(self, phi):
        """(init, step, loop) of an integer or pointer phi that is advanced by a constant on every iteration"""
        fn = self.fn
        lp = next((l for l in fn.loops() if l.header == phi.bb), None)
        if lp is None:
            return None
        inits, steps = set(), set()
        for pb, x in phi.args:
            if pb in lp.body:
                st = self.step_from(x, phi.id, lp)
                steps.add(st)
            else:
                inits.add(x)
        if len(inits) != 1 or len(steps) != 1 or None in steps or 0 in steps:
            return None
        return inits.pop(), steps.pop(), lp

    def step_from(self, x, root, lp, depth=0):
        if x == root:
            return 0
        if depth > 12:
            return None
        d = self.fn.defs.get(x)
        if d is None:
            return None
        if d.op == "add":
            for a, b in ((0, 1), (1, 0)):
                k = cint(d.args[b])
                if k is not None:
                    s = self.step_from(d.args[a], root, lp, depth + 1)
                    return None if s is None else s + k
            return None
        if d.op == "sub":
            k = cint(d.args[1])
            s = self.step_from(d.args[0], root, lp, depth + 1)
            return None if k is None or s is None else s - k
        if d.op == "getelementptr" and "off" in d.d and not d.d.get("vo"):
            s = self.step_from(d.d["p"], root, lp, depth + 1)
            return None if s is None else s + d.d["off"]
        if d.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            return self.step_from(d.args[0], root, lp, depth + 1)
        if d.op == "phi" and d.bb in lp.body:
            ss = {self.step_from(y, root, lp, depth + 1) for _, y in d.args if y != x}
            if len(ss) == 1:
                return ss.pop()
        return None

    def elem(self, p, scale=None):
        """(container, index Lin, element size, byte offset inside the element) of an element pointer"""
        fn = self.fn
        off, vos = 0, []
        v = p
        n = 0
        while n < 50:
            n += 1
            d = fn.defs.get(v)
            if d is None:
                return None
            if d.op == "getelementptr" and "off" in d.d:
                off += d.d["off"]
                vos += d.d.get("vo", [])
                v = d.d["p"]
                continue
            if d.op in ("bitcast", "freeze"):
                v = d.args[0]
                continue
            break
        d = fn.defs.get(v)
        idx = Lin()
        base = None
        if d.op == "phi":
            iv = self.induction(d)
            if iv is None:
                return None
            init, step, lp = iv
            if abs(step) < 1:
                return None
            sc = scale or (vos[0][1] if vos else abs(step))
            inner = self.elem(init, sc) if self.begin_of(init) is None else (self.begin_of(init), Lin(), sc, 0)
            if inner is None:
                ce = self.end_of(init)
                if ce is not None:
                    inner = (ce, self.size(ce), sc, 0)
            if inner is None:
                return None
            base = inner[0]
            idx = inner[1] + Lin.a(("iter", lp.header)).scale(Fraction(step, sc))
            off += inner[3]
        else:
            base = self.begin_of(v)
            if base is None:
                return None
            sc = scale or (vos[0][1] if vos else None)
        if sc is None:
            sc = off if off > 0 else 1
            # a constant element: element size unknown, keep the byte offset as index 0 displacement
            return (base, idx, None, off)
        for x, s in vos:
            idx = idx + self.val(x).scale(Fraction(s, sc))
        q, r = divmod(off, sc)
        return (base, idx + Lin.c(q), sc, r)


class Undecided(Exception):
    pass


def throw_only(fn):
    """blocks from which no normal return can be reached"""
    good = set()
    st = [b for b in range(len(fn.blocks)) if fn.blocks[b][-1].op == "ret"]
    while st:
        b = st.pop()
        if b in good:
            continue
        good.add(b)
        st.extend(p for p, l in fn.pred[b] if l != "u")
    return set(range(len(fn.blocks))) - good


class Counter:
    """Counts, symbolically and uniformly over all normally-returning paths, how often events happen.

    event(inst) -> list of event names.  Containers are tracked through container_op(inst) ->
    (op, container, arg) with op in new/copy/ins/rem/clear/resize/size/empty."""

    def __init__(self, fn, event, container_op):
        self.fn, self.event, self.cop = fn, event, container_op
        self.sym = Sym(fn)
        self.dead = throw_only(fn)
        self.snap = {}       # event instruction id -> (sizes snapshot)
        self.notes = []
        self.trips = {}
        self.exit_in_latch = {}
        self.once = set()        # headers of loops whose events count once, however often they turn
        self.early = {}          # loops with a counted exit that may also be left on an unrelated condition: header -> location

    def norm(self, lin, bb):
        """iteration numbers of loops already left become their final values"""
        for l in self.fn.loops():
            a = ("iter", l.header)
            if isinstance(lin, Lin) and a in lin.t and bb not in l.body:
                t = self.trips.get(l.header)
                if t is not None:
                    k = lin.t[a]
                    if self.exit_in_latch.get(l.header):
                        t = t - Lin.c(1)
                    lin = Lin({x: y for x, y in lin.t.items() if x != a}) + t.scale(k)
        return lin

    def run(self):
        self.sizes, self.counts = {}, {}
        return self.region(0, None, {}, {})

    def live_succ(self, b):
        return [s for s, l in self.fn.succ[b] if l != "u" and s not in self.dead]

    def region(self, entry, loop, sizes, counts):
        """processes the acyclic region starting at entry (a function or one loop iteration); returns
        (sizes, counts) at its end: for a function at the return, for a loop at the latches"""
        fn = self.fn
        body = loop.body if loop else set(range(len(fn.blocks)))
        inner = [l for l in fn.loops() if l is not loop and l.body <= body and
                 (l.parent is loop)]
        node_of = {}
        for l in inner:
            for b in l.body:
                node_of[b] = ("L", l.header)
        def node(b):
            return node_of.get(b, b)
        loops = {("L", l.header): l for l in inner}
        # topological order over nodes
        order, seen = [], set()
        def succs(n):
            if n in loops:
                r = []
                for f, t, lab in loops[n].exits():
                    if lab != "u" and t not in self.dead and t in body:
                        r.append(node(t))
                return list(dict.fromkeys(r))
            return list(dict.fromkeys(node(s) for s in self.live_succ(n) if s in body and not (loop and s == loop.header)))
        stack = [(node(entry) if not loop else entry, None)]
        def dfs(n):
            st = [(n, iter(succs(n)))]
            seen.add(n)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(succs(s))))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(node(entry) if not loop else entry)
        order.reverse()
        state = {order[0]: (dict(sizes), dict(counts))}
        out = []
        for n in order:
            if n not in state:
                continue
            sz, ct = state[n]
            if n in loops:
                sz, ct = self.loop(loops[n], sz, ct)
                nxt = succs(n)
            else:
                sz, ct = dict(sz), dict(ct)
                for i in fn.blocks[n]:
                    self.inst(i, sz, ct)
                nxt = succs(n)
                t = fn.blocks[n][-1]
                if t.op == "ret" or (loop and any(s == loop.header for s, l in fn.succ[n] if l != "u")):
                    out.append((sz, ct))
            for s in nxt:
                if s in state:
                    state[s] = self.merge(state[s], (sz, ct), s)
                else:
                    state[s] = (sz, ct)
        if not out:
            return None
        r = out[0]
        for x in out[1:]:
            r = self.merge(r, x, "end")
        return r

    def merge(self, a, b, where):
        res = []
        for x, y in zip(a, b):
            m = {}
            for k in set(x) | set(y):
                dx = x.get(k, Lin() if x is a[1] else None)
                dy = y.get(k, Lin() if x is a[1] else None)
                m[k] = dx if dx == dy else ("differs", dx, dy)
            res.append(m)
        return tuple(res)

    def inst(self, i, sz, ct):
        op = self.cop(i)
        self.sym.cont_size = {k: v for k, v in sz.items() if isinstance(v, Lin)}
        self.sym.memo = {}
        if op:
            o, c, arg = op
            if o == "new":
                sz[c] = Lin()
            elif o == "sized":
                sz[c] = self.norm(self.sym.val(arg), i.bb)
            elif o == "copy":
                sz[c] = sz.get(arg, Lin.a(("size", arg)))
            elif o in ("ins", "rem"):
                cur = sz.get(c, Lin.a(("size", c)))
                if isinstance(cur, Lin):
                    sz[c] = cur + Lin.c(1 if o == "ins" else -1)
            elif o == "size":
                cur = sz.get(c, Lin.a(("size", c)))
                if isinstance(cur, Lin):
                    self.sym.size_at[i.id] = cur
            elif o == "unknown":
                sz[c] = ("unknown",)
        for e in self.event(i):
            cur = ct.get(e, Lin())
            ct[e] = cur + Lin.c(1) if isinstance(cur, Lin) else cur
            self.snap[(e, i.id)] = dict(sz)

    def loop(self, l, sz, ct):
        fn = self.fn
        exits = [(f, t, lab) for f, t, lab in l.exits() if lab != "u" and t not in self.dead]
        # per-iteration effect, from a symbolic fresh state
        base = {k: v for k, v in sz.items()}
        touched = set()
        tripped = None
        # first pass: per-iteration deltas with sizes treated as in the first iteration
        r = self.region(l.header, l, base, {})
        trip = Lin.c(1) if l.header in self.once else self.trip(l, exits, sz, r)
        self.trips[l.header] = trip
        nsz, nct = dict(sz), dict(ct)
        if r is None:
            return nsz, nct
        rsz, rct = r
        # events in the header before an exit test run once more than the body
        for e, v in rct.items():
            cur = nct.get(e, Lin())
            if not isinstance(v, Lin):
                nct[e] = v
            elif not isinstance(cur, Lin):
                pass
            elif v == Lin():
                pass
            elif trip is None:
                nct[e] = ("trip?", l.header)
            else:
                c = v.const()
                tc = trip.const()
                if c is not None:
                    nct[e] = cur + trip.scale(c)
                elif tc is not None:
                    nct[e] = cur + v.scale(tc)
                else:
                    nct[e] = ("product", trip, v)
        for k, v in rsz.items():
            b = base.get(k)
            if v == b:
                continue
            if isinstance(v, Lin) and isinstance(b, Lin) and trip is not None and (v - b).const() is not None:
                nsz[k] = b + trip.scale((v - b).const())
            elif b is None and isinstance(v, Lin) and k not in sz:
                # created inside the iteration, or an entry-size container changed
                a = Lin.a(("size", k))
                if trip is not None and (v - a).const() is not None:
                    nsz[k] = a + trip.scale((v - a).const())
                else:
                    nsz[k] = ("unknown",)
            else:
                nsz[k] = ("unknown",)
        return nsz, nct

    def trip(self, l, exits, sz, r):
        fn = self.fn
        if len(exits) != 1:
            if len(exits) > 1:
                self.notes.append("loop at %s has several ways out" % fn.blocks[l.header][0].repo_loc)
                known, foreign = [], None
                for e in exits:
                    if self.trip(l, [e], sz, r) is not None:
                        known.append(e)
                    elif self.side_condition(l, e):
                        foreign = fn.blocks[e[0]][-1].repo_loc
                if len(known) == 1 and foreign and r is not None:
                    # nothing that could make up for the missing iterations follows
                    evs = {k for k, v in r[1].items() if v != Lin()}
                    seen, st = set(), [t for _, t, _ in exits]
                    while st:
                        x = st.pop()
                        if x not in seen and x not in l.body:
                            seen.add(x)
                            st.extend(self.live_succ(x))
                    if not any(e in evs for b in seen for i in fn.blocks[b] for e in self.event(i)):
                        self.early[l.header] = foreign
            return None
        f, t, lab = exits[0]
        if f != l.header and f not in l.latches:
            # a side-effect-free chain from the header is as good as the header
            pass
        term = fn.blocks[f][-1]
        if term.op != "br" or "cond" not in term.d:
            return None
        in_latch = f in l.latches and f != l.header
        self.exit_in_latch[l.header] = in_latch
        stay_val = not (lab == "t")       # condition value that keeps looping
        return self.cond_trip(l, term.d["cond"], stay_val, sz, r, in_latch)

    def side_condition(self, l, e):
        """the exit is taken on the answer of a call that has nothing to do with how far the loop has got"""
        fn = self.fn
        t = fn.blocks[e[0]][-1]
        if t.op != "br" or "cond" not in t.d:
            return False
        seen, st, call = set(), [t.d["cond"]], False
        while st:
            x = st.pop()
            d = fn.defs.get(x) if isinstance(x, str) else None
            if d is None or x in seen:
                continue
            seen.add(x)
            if d.is_call():
                if self.event(d) or any(self.event(i) for i in fn.calls() if i.id in self._operands(d)):
                    return False
                call = True
            elif d.op in ("icmp", "xor", "zext", "sext", "trunc", "and", "or", "freeze", "select"):
                st.extend(y for y in d.args if isinstance(y, str))
            elif d.op in ("phi", "load"):
                return False
        return call

    def _operands(self, d):
        fn = self.fn
        r, st = set(), [a for a in d.args if isinstance(a, str)]
        while st:
            x = st.pop()
            if x in r:
                continue
            r.add(x)
            e = fn.defs.get(x)
            if e is not None and e.op in ("load", "getelementptr", "trunc", "zext"):
                st.extend(y for y in ([e.d["p"]] if e.op == "getelementptr" else e.args) if isinstance(y, str))
        return r

    def cond_trip(self, l, c, stay, sz, r, in_latch):
        fn = self.fn
        d = fn.defs.get(c)
        while d is not None and d.op == "xor" and cint(d.args[1]) in (1, -1):
            stay = not stay
            d = fn.defs.get(d.args[0])
        if d is None:
            return None
        if d.is_call():
            op = self.cop(d)
            if op and op[0] == "empty" and not stay:
                return self.drain(op[1], sz, r)
            return None
        if d.op != "icmp":
            return None
        pred = d.get("pred")
        a, b = d.args
        if not stay:
            pred = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
                    "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[pred]
        # size() compared with 0
        for x, y in ((a, b), (b, a)):
            dd = fn.defs.get(x)
            while dd is not None and dd.op in ("zext", "sext", "trunc"):
                dd = fn.defs.get(dd.args[0])
            if dd is not None and dd.is_call() and cint(y) == 0:
                op = self.cop(dd)
                if op and op[0] == "size" and dd.bb in l.body and pred in ("ne", "ugt", "sgt"):
                    return self.drain(op[1], sz, r)
        self.sym.cont_size = {k: v for k, v in sz.items() if isinstance(v, Lin)}
        self.sym.memo = {}
        # pointers
        el_a = self.sym.elem(a) if self.is_ptr(a) else None
        if self.is_ptr(a) or self.is_ptr(b):
            return self.ptr_trip(l, a, b, pred)
        va, vb = self.sym.val(a), self.sym.val(b)
        diff = self.norm(vb - va, l.header)          # loop while a < b  <=> diff > 0
        it = ("iter", l.header)
        k = diff.t.get(it, Fraction(0))
        rest = Lin({x: y for x, y in diff.t.items() if x != it})
        if any(x != 1 and x[0] == "iter" and x != it for x in rest.t):
            pass
        if k == 0:
            return None
        if pred in ("slt", "ult") or (pred == "ne" and k < 0):
            n = rest.scale(Fraction(-1) / k)
        elif pred in ("sle", "ule"):
            n = (rest + Lin.c(1)).scale(Fraction(-1) / k) if abs(k) == 1 else None
        elif pred in ("sgt", "ugt") or (pred == "ne" and k > 0):
            n = rest.scale(Fraction(-1) / k)
        elif pred in ("sge", "uge"):
            n = (rest.scale(Fraction(-1) / k) + Lin.c(1)) if abs(k) == 1 else None
        else:
            return None
        if n is not None and in_latch:
            n = n + Lin.c(1)
        return n

    def is_ptr(self, v):
        d = self.fn.defs.get(v)
        return d is not None and d.get("t") == "ptr"

    def ptr_trip(self, l, a, b, pred):
        if pred not in ("ne", "ult", "slt", "ugt"):
            return None
        for x, y in ((a, b), (b, a)):
            d = self.fn.defs.get(x)
            if d is None or d.op != "phi":
                continue
            iv = self.sym.induction(d)
            if iv is None or iv[2] is not l:
                continue
            el = self.sym.elem(x)
            if el is None:
                continue
            end = self.sym.end_of(y)
            if end is not None and end == el[0]:
                it = ("iter", l.header)
                k = el[1].t.get(it)
                rest = Lin({q: w for q, w in el[1].t.items() if q != it})
                if k:
                    return (self.sym.size(end) - rest).scale(1 / k)
            beg = self.sym.begin_of(y)
            if beg is not None and beg == el[0]:
                it = ("iter", l.header)
                k = el[1].t.get(it)
                rest = Lin({q: w for q, w in el[1].t.items() if q != it})
                if k:
                    return (Lin() - rest).scale(1 / k)
        return None

    def drain(self, c, sz, r):
        """while the container is not empty"""
        cur = sz.get(c, Lin.a(("size", c)))
        if r is None or not isinstance(cur, Lin):
            return None
        after = r[0].get(c)
        if not isinstance(after, Lin):
            return None
        d = (after - cur).const()
        if d is None or d >= 0:
            return None
        return cur.scale(Fraction(-1) / d)


def std_container_op(prog, fn):
    """container_op for the standard containers"""
    def op(i):
        if not i.is_call() or not i.callee:
            return None
        n = prog.base(i.callee)
        if not n.startswith("std::") or not i.args:
            return None
        parts = n.split("::")
        last, cls = parts[-1], parts[-2] if len(parts) > 1 else ""
        if cls not in ("vector", "queue", "deque", "list", "stack", "set", "map"):
            return None
        b, o, vo = addr(fn, i.args[0])
        c = (key(fn, b), o)
        d = prog.callee_dem(i)
        if last == cls:
            # constructors
            ps = d.split("::" + cls + "(", 1)[1] if ("::" + cls + "(") in d else d
            if ps.startswith("unsigned long"):
                return ("sized", c, i.args[1])
            if "const&)" in ps or "&&)" in ps:
                if len(i.args) >= 2:
                    b2, o2, _ = addr(fn, i.args[1])
                    if ("std::%s<" % cls) in ps:
                        return ("copy", c, (key(fn, b2), o2))
            if len(i.args) == 1 or "allocator" in ps and len(i.args) == 2 and "vector<" not in ps:
                return ("new", c, None)
            return ("unknown", c, None)
        if last in ("push_back", "emplace_back", "push", "emplace", "push_front", "emplace_front"):
            return ("ins", c, None)
        if last in ("pop", "pop_back", "pop_front"):
            return ("rem", c, None)
        if last == "resize":
            return ("sized", c, i.args[1])
        if last == "clear":
            return ("new", c, None)
        if last in ("assign",) and len(i.args) == 3 and "unsigned long" in d:
            return ("sized", c, i.args[1])
        if last == "size":
            return ("size", c, None)
        if last == "empty":
            return ("empty", c, None)
        if last in ("insert", "erase", "swap", "assign", "operator="):
            return ("unknown", c, None)
        return None
    return op
