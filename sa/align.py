"""Symbolic contents of containers: what element k of a container is computed from, as a function of k.

Expressions: ('c', k) constant; ('a', n) argument; ('o', id) address of a local; ('el', container, index) element of a container nothing here
fills; ('fld', expr, offset) content of a field; ('p', expr, offset) address; ('call', name, args...) answer of an opaque function; ('new', class,
args...) an object made here; ('lin', Lin) an integer; ('op', name, args...); ('phi', id); ('?', why) not known.
The definitions of a local container (indexed stores in a loop, push_back in a loop, copies) are turned into a function of the index; a container
with several competing definitions, or one handed to code that may reorder it, has unknown elements."""
import re
from sym import Sym, Lin
from val import addr, cint, key
from heap import is_receiver, split_params

PASS = ("zext", "sext", "trunc", "freeze", "bitcast", "ptrtoint", "inttoptr")
IDENT = {"clone_pass": ()}


class Indices(Sym):
    """indices that are themselves kept in a container"""
    align = None

    def _val(self, v):
        d = self.fn.defs.get(v)
        if self.align is not None and d is not None and d.op == "load" and d.d.get("t", "").startswith("i"):
            e = self.align.element(d.args[0])
            if e and e[0] in self.align.defs:
                x = self.align.read(*e)
                if x[0] == "lin":
                    return x[1], False
        return Sym._val(self, v)


class Align:
    def __init__(self, fn, rowwise=(), depth=60):
        """rowwise: patterns of functions that answer a vector whose k-th element belongs to the k-th element of their vector argument"""
        self.fn, self.prog = fn, fn.prog
        self.sym = Indices(fn)
        self.rowwise = [re.compile(r) for r in rowwise]
        self.defs, self.cells = {}, {}
        self.busy = set()
        self.plain = set()     # containers whose elements are taken as they are
        self.limit = depth
        self.allocas = {i.id: i for i in fn.insts() if i.op == "alloca"}
        self.collect()
        self.sym.align = self

    # --- definitions ----------------------------------------------------------------------------
    def cont(self, v):
        """container whose object starts at address v"""
        b, o, vo = addr(self.fn, v)
        return (key(self.fn, b), o) if not vo else None

    def is_vec(self, i):
        n = self.prog.base(i.callee or "")
        return n.startswith("std::vector::")

    def collect(self):
        fn = self.fn
        for i in fn.insts():
            if i.op == "store":
                v, p = i.args[0], i.args[1]
                e = self.element(p)
                if e:
                    self.defs.setdefault(e[0], []).append(("idx", e[1], e[2], ("v", v), i))
                else:
                    b, o, vo = addr(fn, p)
                    if not vo:
                        self.cells.setdefault((b, o), []).append((("v", v), i))
            elif i.is_call():
                self.call(i)

    def call(self, i):
        fn, prog = self.fn, self.prog
        n = prog.base(i.callee or "") if i.callee else ""
        last = n.split("::")[-1]
        a = i.args
        if n.startswith("llvm.") or n.startswith("__cxa") or not a:
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                b, o, vo = addr(fn, a[0])
                self.cells.setdefault((b, o), []).append((("at", a[1]), i))
            return
        if self.is_vec(i):
            c = self.cont(a[0])
            d = prog.callee_dem(i) or ""
            ps = split_params(d)
            if last == "vector":
                if ps and "vector<" in ps[0].split(",")[0] and len(ps) <= 2 and len(a) >= 2 and re.match(r"^(std::)?vector<", ps[0]):
                    self.defs.setdefault(c, []).append(("copy", a[1], i))
                elif ps and ps[0].startswith("unsigned long"):
                    pass
                elif len(ps) >= 2 and not ps[0].startswith("std::allocator"):
                    self.defs.setdefault(c, []).append(("?", i))
            elif last == "operator=":
                self.defs.setdefault(c, []).append(("copy", a[1], i))
            elif last in ("push_back", "emplace_back"):
                self.defs.setdefault(c, []).append(("push", a[1] if len(a) > 1 else None, i))
            elif last == "swap":
                self.defs.setdefault(c, []).append(("?", i))
                self.defs.setdefault(self.cont(a[1]), []).append(("?", i))
            elif last not in ("reserve", "resize", "clear", "~vector", "size", "empty", "capacity", "shrink_to_fit", "at", "operator[]", "begin", "end", "cbegin", "cend", "data", "front", "back"):
                self.defs.setdefault(c, []).append(("?", i))
            return
        if last in ("shared_ptr", "operator=", "reset") and re.match(r"^(boost|std)::shared_ptr::", n):
            src = ("v", a[1]) if len(a) > 1 else ("c", "null")
            d = prog.callee_dem(i) or ""
            ps = split_params(d)
            if len(a) > 1 and ps and "shared_ptr<" in ps[0] and ps[0].endswith("&"):
                src = ("at", a[1])
            e = self.element(a[0])
            if e:
                self.defs.setdefault(e[0], []).append(("idx", e[1], e[2], src, i))
            else:
                b, o, vo = addr(fn, a[0])
                if not (last == "shared_ptr" and len(a) == 1):
                    self.cells.setdefault((b, o), []).append((src, i))
            return
        if last.startswith("~"):
            return
        sret = self.sret(i)
        if sret:
            b, o, vo = addr(fn, a[0])
            if re.search(r"(dynamic|static|const)_pointer_cast", n):
                src = ("at", a[1])
            else:
                src = ("res", i)
            e = self.element(a[0])
            if e:
                self.defs.setdefault(e[0], []).append(("idx", e[1], e[2], src, i))
            else:
                self.cells.setdefault((b, o), []).append((src, i))
                self.defs.setdefault(self.cont(a[0]), []).append(("res", i))
            return
        # anything else that may change a container it is given
        names = [prog.callee_dem(i) or ""] if not i.get("v") else [prog.dem(x) for x in i.get("v")[2:]]
        ps = split_params(names[0]) if names else []
        recv = bool(names) and (i.get("v") is not None or is_receiver(names[0]))
        for k, x in enumerate(a):
            if not isinstance(x, str) or x.startswith(("#", "@")):
                continue
            j = k - 1 if recv else k
            if j < 0:
                if re.search(r"\) const( &+)?$", names[0]):
                    continue
                t = "&"
            else:
                t = ps[j] if j < len(ps) else "&"
            if re.search(r"\bconst ?[&*]*$|^const\b", t.strip()) and "iterator" not in t or not (t.rstrip().endswith(("&", "*")) or "iterator" in t):
                continue
            b = self.sym.begin_of(x) or self.sym.end_of(x)
            e = self.element(x) if not b else None
            if b:
                self.defs.setdefault(b, []).append(("?", i))
            elif e and not re.search(r"^(boost|std)::shared_ptr|^k52::", n):
                self.defs.setdefault(e[0], []).append(("?", i))
            elif addr(fn, x)[0] in self.allocas:
                self.defs.setdefault(self.cont(x), []).append(("?", i))
                b2, o2, _ = addr(fn, x)
                self.cells.setdefault((b2, o2), []).append((("?", n), i))

    def sret(self, i):
        """a call that returns its result through its first argument"""
        return bool(i.get("sr"))

    def element(self, p):
        """(container, index, byte offset in the element) of an element address"""
        e = self.sym.elem(p)
        if e is None or e[2] is None:
            if e is not None and self.sym.begin_of(p) is not None and e[3] in (0, 1):
                return (e[0], Lin(), 0)
            return None
        return (e[0], e[1], int(e[3]))

    # --- expressions ----------------------------------------------------------------------------
    def src(self, s, depth):
        if s[0] == "v":
            return self.value(s[1], depth)
        if s[0] == "at":
            return self.content(s[1], depth)
        if s[0] == "res":
            return self.result(s[1], depth)
        return s

    def result(self, i, depth):
        a = [x for x in i.args]
        if self.sret(i):
            a = a[1:]
        n = self.prog.base(i.callee) if i.callee else ""
        if i.get("v"):
            impl = [self.prog.base(x) for x in i.get("v")[2:] if x != "__cxa_pure_virtual"]
            n = impl[0].split("::")[-1] if impl else "?"
        else:
            n = n.replace("k52::", "")
        return ("call", n.split("::")[-1], *[self.operand(x, depth + 1) for x in a])

    def operand(self, x, depth):
        """an argument of an opaque call: the object it leads to when it is the address of one, else its value"""
        return self.value(x, depth)

    def value(self, v, depth=0):
        if not isinstance(v, str):
            return ("?", "operand")
        k = cint(v)
        if k is not None:
            return ("c", k)
        if v.startswith("#") or v in ("null", "undef", "zeroinit"):
            return ("c", v)
        if v[0] == "@":
            return ("g", v)
        if depth > self.limit or v in self.busy:
            return ("?", "deep")
        d = self.fn.defs.get(v)
        if d is None:
            return ("a", v)
        self.busy.add(v)
        try:
            return self._value(v, d, depth)
        finally:
            self.busy.discard(v)

    def _value(self, v, d, depth):
        fn = self.fn
        if d.op == "alloca":
            return ("o", v)
        if d.op in ("bitcast", "freeze") or d.op in PASS and d.d.get("t") == "ptr":
            return self.value(d.args[0], depth)
        if d.op == "load":
            return self.content(d.args[0], depth + 1)
        if d.op == "getelementptr":
            e = self.element(v)
            if e:
                return ("&el", e[0], e[1], e[2])
            b, o, vo = addr(fn, v)
            if vo or b == v:
                return ("?", "gep")
            x = self.value(b, depth + 1)
            return x if o == 0 else ("p", x, o)
        if d.op == "phi":
            if self.sym.induction(d):
                if self.element(v):
                    e = self.element(v)
                    return ("&el", e[0], e[1], e[2])
                return ("lin", self.sym.val(v))
            es = {self.value(x, depth + 1) for _, x in d.args if x != v}
            if len(es) == 1:
                return es.pop()
            return ("phi", v)
        if d.is_call():
            n = self.prog.base(d.callee) if d.callee else ""
            if n == "__dynamic_cast":
                return self.value(d.args[0], depth + 1)
            if n == "operator new":
                c = self.made(v)
                if c is not None:
                    return ("new", self.prog.base(c.callee).split("::")[-1], *[self.value(x, depth + 1) for x in c.args[1:]])
                return ("new", v)
            if re.match(r"^(boost|std)::shared_ptr::(get|operator->|operator\*)", n):
                return self.content(d.args[0], depth + 1)
            if self.is_vec(d) and n.split("::")[-1] in ("operator[]", "at"):
                return ("&el", self.cont(d.args[0]), self.sym.val(d.args[1]), 0)
            return self.result(d, depth)
        if d.op in PASS + ("add", "sub", "mul", "shl", "ashr", "lshr", "udiv", "sdiv", "xor"):
            l = self.sym.val(v)
            if d.op in PASS:
                x = self.value(d.args[0], depth + 1)
                if x[0] not in ("?", "lin"):
                    return x
            return ("lin", l)
        if d.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "sitofp", "uitofp", "fptosi", "fcmp", "icmp", "select"):
            return ("op", d.op, d.get("pred")) + tuple(self.value(x, depth + 1) for x in d.args)
        return ("?", d.op)

    def made(self, v):
        """the constructor run on a new object"""
        for u in self.fn.uses(v):
            if u.is_call() and u.callee and u.args and u.args[0] == v:
                n = self.prog.base(u.callee).split("::")
                if len(n) > 1 and n[-1] == n[-2]:
                    return u
        return None

    def content(self, p, depth=0):
        """what the memory at address p holds"""
        fn = self.fn
        if depth > self.limit:
            return ("?", "deep")
        e = self.element(p)
        if e:
            return self.read(e[0], e[1], e[2], depth + 1)
        d = fn.defs.get(p)
        if d is not None and d.is_call() and self.is_vec(d) and self.prog.base(d.callee).split("::")[-1] in ("operator[]", "at"):
            return self.read(self.cont(d.args[0]), self.sym.val(d.args[1]), 0, depth + 1)
        b, o, vo = addr(fn, p)
        if vo:
            return ("?", "indexed")
        if b in self.allocas or (b, o) in self.cells and b in fn.defs and fn.defs[b].is_call():
            ds = self.cells.get((b, o), [])
            es = {self.src(s, depth + 1) for s, i in ds}
            if len(es) == 1:
                return es.pop()
            if len(es) > 1 and o == 0 and b in self.allocas and not any(e[0] == "?" for e in es if e[1] == "deep"):
                return ("cell", b)
            return ("?", "cell")
        x = self.value(b, depth + 1)
        if x[0] == "&el":
            return self.read(x[1], x[2], x[3] + o, depth + 1)
        return ("fld", x, o)

    def read(self, c, idx, off, depth=0):
        """element idx of container c"""
        k = ("read", c, idx, off)
        if depth > self.limit or k in self.busy:
            return ("?", "deep")
        self.busy.add(k)
        try:
            return self._read(c, idx, off, depth)
        finally:
            self.busy.discard(k)

    def _read(self, c, idx, off, depth):
        ds = self.defs.get(c)
        if not ds or c in self.plain:
            b = c[0]
            x = self.value(b, depth + 1) if isinstance(b, str) else ("at", b)
            if x[0] == "?":
                x = ("at", b)
            return ("el", (x, c[1]), idx) if off == 0 else ("el", (x, c[1]), idx, off)
        es = set()
        for d in ds:
            if d[0] == "?":
                return ("?", "changed at " + d[-1].repo_loc)
            if d[0] == "copy":
                c2 = self.cont(d[1])
                if c2 is None:
                    return ("?", "copy")
                es.add(self.read(c2, idx, off, depth + 1))
            elif d[0] == "res":
                i = d[1]
                n = self.prog.callee_dem(i) or ""
                if i.get("v"):
                    n = " ".join(self.prog.dem(x) for x in i.get("v")[2:])
                args = i.args[1:]
                if any(r.search(n) for r in self.rowwise):
                    for x in args:
                        c2 = self.cont(x)
                        if c2 in self.defs:
                            es.add(("call", "row", self.read(c2, idx, 0, depth + 1)))
                            break
                    else:
                        es.add(("el", self.result(i, depth + 1), idx))
                else:
                    es.add(("el", self.result(i, depth + 1), idx))
            elif d[0] == "idx":
                if d[2] != off:
                    if d[2] != 0:
                        continue
                    es.add(("?", "part"))
                    continue
                at = [x for x in d[1].atoms() if x[0] == "iter"]
                x = self.src(d[3], depth + 1)
                if len(at) == 1 and d[1].t[at[0]] == 1 and not [y for y in d[1].atoms() if y[0] != "iter"]:
                    es.add(subst(x, at[0], idx - (d[1] - Lin.a(at[0]))))
                elif not at and d[1] == idx:
                    es.add(x)
                elif not at:
                    continue
                else:
                    es.add(("?", "index"))
            elif d[0] == "push":
                i = d[2]
                l = self.fn.loop_of(i.bb)
                if l is None or l.parent is not None or d[1] is None:
                    es.add(("?", "push"))
                    continue
                x = self.content(d[1], depth + 1)
                if self.sym_is_value(d[1]):
                    x = self.value(d[1], depth + 1)
                es.add(subst(x, ("iter", l.header), Lin.a(("nth", self.site(i, l), idx))))
        if len(es) == 1:
            return es.pop()
        return ("?", "several")

    def sym_is_value(self, v):
        return False

    def site(self, i, l):
        """two insertions that happen in exactly the same iterations of a loop have the same site"""
        sites = self.__dict__.setdefault("_sites", [])
        for j, (h, b) in enumerate(sites):
            if h == l.header and (self.together(b, i.bb, l) or self.together(i.bb, b, l)):
                return j
        sites.append((l.header, i.bb))
        return len(sites) - 1

    def together(self, a, b, l):
        """every iteration that passes a passes b and the other way round (exceptions aside)"""
        if a == b:
            return True
        if a not in self.fn.dom()[b]:
            return False
        seen, st = set(), [a]
        while st:
            x = st.pop()
            if x == b or x in seen:
                continue
            seen.add(x)
            for y, lab in self.fn.succ[x]:
                if lab == "u" or y not in l.body and self.exceptional(y):
                    continue
                if y == l.header or y not in l.body:
                    return False
                st.append(y)
        return True

    def exceptional(self, y):
        return any(i.op in ("landingpad", "resume", "unreachable") for i in self.fn.blocks[y][:3])


def subst(e, atom, lin):
    """replace an iteration number by another index"""
    if isinstance(e, Lin):
        r = Lin()
        for k, v in e.t.items():
            if k == atom:
                r = r + lin.scale(v)
            elif isinstance(k, tuple) and k[0] == "nth":
                r = r + Lin.a(("nth", k[1], subst(k[2], atom, lin))).scale(v)
            else:
                r = r + Lin({k: v})
        return r
    if isinstance(e, tuple):
        return tuple(subst(x, atom, lin) if isinstance(x, (tuple, Lin)) else x for x in e)
    return e


def find(e, pred):
    """all sub-expressions for which pred holds"""
    r = []
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if pred(x):
                r.append(x)
            st.extend(y for y in x if isinstance(y, tuple))
    return r
