"""Abstract store for flattened functions: where the value of every tracked location and variable comes from.

A forward dataflow over explore(): the state maps memory locations (object, offset) to provenance terms and keeps the comparisons
the branches taken established.  Terms:
  ('c', text) constant      ('a', n) argument            ('o', id) object made here (alloca, new, call result owning)
  ('p', base, off)          pointer into an object       ('e', base, off, index terms)  pointer to an indexed element
  ('in', base, off)         content of a location on entry (base a term)
  ('r', id, name, args)     result of a call             ('obj', class, args) object built by an opaque constructor
  ('copy', t)               copy of a library object     ('op', name, pred, args) arithmetic
  ('phi', id)               loop-carried value           ('?', id) unknown"""
import re
from flow import explore
from checks.c13 import implied

LIMITS = {(t, k): "#%d" % v for t, lo, hi in (("int", -2 ** 31, 2 ** 31 - 1), ("unsigned int", 0, 2 ** 32 - 1), ("long", -2 ** 63, 2 ** 63 - 1), ("unsigned long", 0, 2 ** 64 - 1))
          for k, v in (("max", hi), ("min", lo), ("lowest", lo))}
NEGF = {"oeq": "une", "one": "ueq", "olt": "uge", "ole": "ugt", "ogt": "ule", "oge": "ult", "ueq": "one", "une": "oeq", "ult": "oge", "ule": "ogt", "ugt": "ole", "uge": "olt",
        "ord": "uno", "uno": "ord", "eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
NEGI = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
PURE = ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "ashr", "lshr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg",
        "icmp", "fcmp", "sitofp", "uitofp", "fptosi", "fptoui", "fptrunc", "fpext", "sext", "zext", "trunc", "ptrtoint", "inttoptr", "extractvalue")
MATH = re.compile(r"^(floor|ceil|fabs|sqrt|log|exp|pow|round|std::(floor|ceil|abs|fabs|sqrt|pow)|llvm\.(floor|ceil|fabs|sqrt|pow)\.f64|llvm\.[su](min|max)\.i\d+)\b")


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


def forget(t, ids, to):
    """t with the loop-carried values replaced by an unknown one"""
    if t in ids:
        return ("?", to)
    return tuple(forget(y, ids, to) for y in t) if isinstance(t, tuple) else t


def has(t, tag):
    if not isinstance(t, tuple):
        return False
    return (t and t[0] == tag) or any(has(y, tag) for y in t)


def size(t):
    return 1 + sum(size(y) for y in t if isinstance(y, tuple))


def capped(t):
    return t if not isinstance(t, tuple) or size(t) <= 80 else ("?", "big")


def leaves(t):
    if not isinstance(t, tuple) or not t:
        return set()
    if t[0] in ("a", "c", "in", "o", "phi", "?", "r"):
        return {t}
    r = set()
    for y in t:
        r |= leaves(y)
    return r


class Heap:
    def __init__(self, fn, throws=False, on_call=None, on_store=None, on_inst=None, max_nodes=40000, extra_init=()):
        self.f, self.prog = fn, fn.prog
        self.throws, self.on_call, self.on_store, self.max_nodes, self.on_inst = throws, on_call, on_store, max_nodes, on_inst
        self.body = {l.header: set(l.body) for l in fn.loops()}
        self.headers = set(self.body)
        self.entered = {}
        self.init = frozenset(extra_init)
        self._idx = {}
        self.sret = bool(fn.d["args"] and fn.d["args"][0].get("sret"))
        self.this = next((("a", k) for k, a in enumerate(fn.d["args"]) if a.get("n") == "this"), None)

    # --- state access
    def view(self, st):
        d = self._idx.get(st)
        if d is None:
            M, V = {}, {}
            for e in st:
                if e[0] == "M":
                    M[e[1]] = e[2]
                elif e[0] == "V":
                    V[e[1]] = e[2]
            if len(self._idx) > 5000:
                self._idx.clear()
            d = self._idx[st] = (M, V)
        return d

    def term(self, v, st, depth=0):
        if not isinstance(v, str):
            return ("?", None)
        d = self.f.defs.get(v)
        if d is None:
            if v[0] == "a" and v[1:].isdigit():
                return ("a", int(v[1:]))
            if v.startswith("@") and "+" in v:
                b, o = v.rsplit("+", 1)
                return ("p", ("c", b), int(o))
            return ("c", v)
        V = self.view(st)[1]
        if v in V:
            return V[v]
        if depth > 30:
            return ("?", v)
        if d.op == "alloca":
            return ("o", v)
        if d.op in ("bitcast", "freeze", "addrspacecast"):
            return self.term(d.args[0], st, depth + 1)
        if d.op == "getelementptr":
            b = self.term(d.d["p"], st, depth + 1)
            off = d.d.get("off")
            if off is None:
                return ("?", v)
            vo = d.d.get("vo") or []
            if vo:
                return ("e", b, off) + tuple((self.term(x, st, depth + 1), s) for x, s in vo)
            return self.ptr(b, off)
        if d.op in PURE:
            if d.op in ("sext", "zext", "trunc"):
                x = self.term(d.args[0], st, depth + 1)
                return x if x[0] != "?" else ("?", v)
            if d.op == "and" and d.args[1] == "#1" and d.get("t") in ("i8", "i1"):
                x = self.term(d.args[0], st, depth + 1)
                if x[0] in ("in", "c", "a", "r"):
                    return x
            return ("op", d.op, d.get("pred")) + tuple(self.term(x, st, depth + 1) for x in d.args)
        if d.op == "select":
            ts = {self.term(x, st, depth + 1) for x in d.args[1:]}
            return ts.pop() if len(ts) == 1 else ("op", "select", None) + tuple(self.term(x, st, depth + 1) for x in d.args)
        if d.op == "phi":
            return ("phi", v)
        if d.is_call():
            return ("r", v, self.name(d))
        return ("?", v)

    @staticmethod
    def ptr(b, off):
        if b[0] == "p":
            return Heap.ptr(b[1], b[2] + off)
        return b if off == 0 else ("p", b, off)

    @staticmethod
    def loc(p):
        """(base term, offset) of a pointer term"""
        if p[0] == "p":
            return (p[1], p[2])
        return (p, 0)

    def name(self, i):
        if i.get("v"):
            return "::".join(self.prog.vslot_name(i.get("v")))
        return self.prog.base(i.callee) if i.callee else "?"

    def read(self, st, loc):
        M = self.view(st)[0]
        if loc in M:
            return M[loc]
        b, o = loc
        if ("havoc", b) in M:
            return ("?", M[("havoc", b)][1])
        for k in M:
            if k[0] == "zero" and k[1] == b and isinstance(o, int) and k[2] <= o < k[2] + k[3]:
                return ("c", "#0")
        if b[0] == "o":
            return ("undef", b, o)
        return ("in", b, o)

    @staticmethod
    def write(st, loc, t):
        t = capped(t)
        return frozenset(e for e in st if not (e[0] == "M" and e[1] == loc)) | {("M", loc, t)}

    @staticmethod
    def havoc(st, base, iid):
        return frozenset(e for e in st if not (e[0] == "M" and isinstance(e[1], tuple) and e[1][0] == base)) | {("M", ("havoc", base), ("?", iid))}

    # --- transfer
    def run(self):
        f = self.f
        heap = self

        def step(i, st):
            if i.op == "load":
                p = heap.term(i.args[0], st)
                t = heap.read(st, heap.loc(p))
                return [("n", heap.setv(st, i.id, t))]
            if i.op == "store":
                p = heap.term(i.args[1], st)
                t = heap.term(i.args[0], st)
                if heap.on_store:
                    st = heap.on_store(i, st, p, t)
                return [("n", heap.write(st, heap.loc(p), t))]
            if i.is_call():
                return heap.call(i, st)
            if heap.on_inst:
                st = heap.on_inst(i, st)
            return [("n", st)]

        def branch(c, val, st):
            new = set()
            v, truth = c, val
            for _ in range(8):
                d = f.defs.get(v)
                if d is None:
                    break
                if d.op == "icmp" and d.get("pred") in ("eq", "ne") and d.args[1] == "#0":
                    x = f.defs.get(d.args[0])
                    if x is None or not (x.op == "zext" and narrow(f, x.args[0]) or x.op == "and" and x.args[1] == "#1" and narrow(f, x.id)):
                        break
                    truth = truth if d.get("pred") == "ne" else not truth
                elif (d.op == "and" and d.args[1] == "#1" or d.op in ("trunc", "zext", "freeze")) and narrow(f, d.args[0]):
                    pass
                elif d.op == "xor" and d.args[1] in ("#1", "#-1", "#true"):
                    truth = not truth
                else:
                    break
                v = d.args[0]
            if d is None or d.op == "load" or d.is_call():
                # a flag itself
                t = heap.term(v, st)
                if t[0] in ("a", "in", "r"):
                    p = "ine" if truth else "ieq"
                    if ("F", "ieq" if truth else "ine", t, ("c", "#0")) in st:
                        return None
                    new.add(("F", p, t, ("c", "#0")))
                elif t[0] == "c" and t[1] in ("#0", "#1", "#true", "#false"):
                    if (t[1] in ("#1", "#true")) != truth:
                        return None
            for d, truth in implied(f, c, val, ops=("icmp", "fcmp")):
                x, y = heap.term(d.args[0], st), heap.term(d.args[1], st)
                if has(x, "phi") or has(y, "phi") or has(x, "?") or has(y, "?"):
                    new.add(("U", x, y))
                    continue
                p = d.get("pred")
                if not truth:
                    p = (NEGF if d.op == "fcmp" else NEGI).get(p)
                if x[0] == "c" and y[0] == "c" or x == y:
                    continue
                new.add(("F", d.op[0] + p, x, y))
                # the negation already known: the path is infeasible
                n = (NEGF if d.op == "fcmp" else NEGI).get(p)
                if ("F", d.op[0] + n, x, y) in st:
                    return None
            return frozenset(e for e in st if e[0] != "L") | new | {("L", "U" if any(e[0] == "U" for e in new) or not new else "F")}

        def on_enter(frm, to, st):
            if to in heap.headers:
                ids = {("phi", i.id) for i in f.blocks[to] if i.op == "phi"}
                if to not in f.dom()[frm]:
                    heap.entered.setdefault(to, set()).update(e for e in st if e[0] != "V")
                    return st
                # a later iteration: keep what held when the loop was entered, forget what an earlier iteration computed
                body, known = heap.body[to], heap.entered.get(to, ())
                r = set()
                for e in st:
                    if e[0] == "V":
                        if heap.f.defs[e[1]].bb in body or any(mentions(e[2], x) for x in ids):
                            continue
                    elif e not in known or any(mentions(e, x) for x in ids):
                        if e[0] == "M" and isinstance(e[1], tuple) and e[1][0] != "havoc":
                            r.add(("M", forget(e[1], ids, to), ("?", to)))
                            continue
                        if e[0] in ("F", "U"):
                            continue
                    r.add(e)
                st = frozenset(r)
                return st
            phis = [i for i in f.blocks[to] if i.op == "phi"]
            if not phis:
                return st
            ts = []
            for i in phis:
                v = next((x for pb, x in i.args if pb == frm), None)
                ts.append((i.id, heap.term(v, st) if v is not None else ("?", i.id)))
            for k, t in ts:
                st = heap.setv(st, k, t)
            return st
        step.wants_path = False
        exits, self.nodes = explore(f, self.init, step, branch=branch, on_enter=on_enter, max_nodes=self.max_nodes)
        res = []
        for e in exits:
            st = e[2]
            t = self.term(e[1].args[0], st) if e[0] == "ret" and e[1].args else None
            res.append((e[0], e[1], st, e[3], t, e[4]))
        return res

    @staticmethod
    def setv(st, v, t):
        t = capped(t)
        return frozenset(e for e in st if not (e[0] == "V" and e[1] == v)) | {("V", v, t)}

    def call(self, i, st):
        n = self.prog.dem(i.callee) if i.callee else ""
        c = i.callee or ""
        if c == "__cxa_throw":
            return [("n", frozenset(e for e in st if e[0] != "X") | {("X", i.args[1].lstrip("@"))})]
        if self.on_call:
            r = self.on_call(i, st, n)
            if r is not None:
                if isinstance(r, list):
                    return r
                st = r
        st2 = self.effect(i, st, n, c)
        out = [("n", st2)]
        if self.throws and not i.get("nt") and not c.startswith("llvm."):
            out.append(("t", ("derived", "_ZTISt9exception"), st))
        return out

    def effect(self, i, st, n, c):
        a = i.args
        T = lambda k: self.term(a[k], st)
        if c.startswith("llvm.mem"):
            d = self.loc(T(0))
            size = int(a[2][1:]) if isinstance(a[2], str) and a[2].startswith("#") and a[2][1:].isdigit() else None
            if c.startswith("llvm.memset"):
                if size is not None and a[1] == "#0" and size <= 512:
                    st = frozenset(e for e in st if not (e[0] == "M" and isinstance(e[1], tuple) and e[1][0] == d[0] and isinstance(e[1][1], int) and d[1] <= e[1][1] < d[1] + size))
                    return st | {("M", ("zero", d[0], d[1], size), ("c", "#0"))}
                return self.havoc(st, d[0], i.id)
            s = self.loc(T(1))
            if size is None or size > 512:
                return self.havoc(st, d[0], i.id)
            M = self.view(st)[0]
            st = frozenset(e for e in st if not (e[0] == "M" and isinstance(e[1], tuple) and e[1][0] == d[0] and isinstance(e[1][1], int) and d[1] <= e[1][1] < d[1] + size))
            known = {k[1]: t for k, t in M.items() if k[0] == s[0] and isinstance(k[1], int) and s[1] <= k[1] < s[1] + size}
            for o in set(known) | {s[1] + x for x in range(0, size, 4)}:
                st = self.write(st, (d[0], d[1] + o - s[1]), known.get(o) or self.read(st, (s[0], o)))
            return st
        if n.startswith("operator new"):
            return self.setv(st, i.id, ("o", i.id))
        m = re.match(r"^std::numeric_limits<([\w ]+)>::(max|min|lowest)\(\)", n)
        if m and (m.group(1), m.group(2)) in LIMITS:
            return self.setv(st, i.id, ("c", LIMITS[(m.group(1), m.group(2))]))
        if MATH.match(n) or MATH.match(c):
            return self.setv(st, i.id, ("op", re.sub(r"^std::|^llvm\.|\.(f|i)\d+$", "", self.prog.base(c) if c else n), None) + tuple(self.term(x, st) for x in a))
        if c.startswith("llvm.") or c.startswith("__cxa_") or n.startswith("operator delete") or c.startswith("__clang"):
            return st
        if "::~" in n:
            return st
        m = re.match(r"^(.*?)::(\w+)(<.*>)?\((.*)\)( const)?( &+)?$", n)
        base = self.prog.base(c) if c else ""
        last = base.split("::")[-1]
        sp = base.startswith("boost::shared_ptr") or base.startswith("std::shared_ptr") or base.startswith("std::unique_ptr")
        if len(a) >= 1 and not i.get("v"):
            if last == "operator=" and len(a) == 2 or len(a) >= 2 and is_copy_ctor(n, base):
                src = self.loc(T(1))
                t = self.read(st, src)
                st = self.write(st, self.loc(T(0)), t if sp else t if t[0] == "copy" else ("copy", t))
                return self.setv(st, i.id, T(0)) if last == "operator=" else st
            if is_ctor(base):
                if sp:
                    return self.write(st, self.loc(T(0)), self.term(a[1], st) if len(a) >= 2 else ("c", "null"))
                return self.write(st, self.loc(T(0)), ("obj", base.rsplit("::", 1)[0]) + tuple(self.term(x, st) for x in a[1:]))
            if sp and last == "reset":
                return self.write(st, self.loc(T(0)), self.term(a[1], st) if len(a) >= 2 else ("c", "null"))
            if last == "swap" and len(a) == 2:
                x, y = self.loc(T(0)), self.loc(T(1))
                tx, ty = self.read(st, x), self.read(st, y)
                return self.write(self.write(st, x, ty), y, tx)
            if last in ("dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast") and len(a) == 2:
                return self.write(st, self.loc(T(0)), self.read(st, self.loc(T(1))))
        # results: by value, or into a local object
        def val(x):
            t = self.term(x, st)
            return self.view(st)[0].get((t, 0), t) if t[0] == "o" else t
        st = self.setv(st, i.id, ("r", i.id, self.name(i)) + tuple(val(x) for x in a[:2]))
        const = n.endswith(" const") or i.get("v") and all(self.prog.dem(x).endswith(" const") for x in i.get("v")[2:]) and len(i.get("v")) > 2
        for k, x in enumerate(a):
            t = self.term(x, st)
            b, o = self.loc(t)
            d = self.f.defs.get(x) if isinstance(x, str) else None
            if d is not None and d.op == "alloca" and k == 0 and not is_receiver(n):
                st = self.write(st, (b, o), ("r", i.id, self.name(i)) + tuple(self.term(y, st) for y in a[1:3]))
                continue
            if t[0] not in ("a", "o", "p", "in", "r") or not self.isptr(x):
                continue
            if k == 0 and const:
                continue
            if base.startswith("std::") or base.startswith("boost::") or base.startswith("__gnu"):
                if k == 0 and is_receiver(n):
                    st = self.write(st, (b, o), ("?", i.id))
                continue
            if i.get("v") or base.startswith("k52::"):
                if b[0] in ("o", "a"):
                    if constparam(n, k, is_receiver(n)) or i.get("v") and k > 0:
                        continue
                    st = self.havoc(st, b, i.id)
        return st

    def isptr(self, v):
        if not isinstance(v, str):
            return False
        d = self.f.defs.get(v)
        if d is None:
            if v[0] == "a" and v[1:].isdigit():
                return self.f.d["args"][int(v[1:])].get("t") == "ptr"
            return v.startswith("@")
        return d.op in ("alloca", "getelementptr", "bitcast") or d.get("t") == "ptr"


def narrow(f, v):
    """a value as wide as a bool"""
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None:
        if isinstance(v, str) and v[0] == "a" and v[1:].isdigit():
            return f.d["args"][int(v[1:])].get("t") in ("i1", "i8")
        return False
    return d.op in ("icmp", "fcmp") or d.get("t") in ("i1", "i8")


def is_ctor(base):
    p = base.split("::")
    return len(p) >= 2 and p[-1] == p[-2] or base.endswith("basic_string::basic_string")


def is_receiver(n):
    """a member function (the first argument is the object)"""
    b = n.split("(")[0]
    if re.search(r"(std|boost|__gnu_cxx)::operator", b):
        return False
    d, out = 0, ""
    for ch in b:
        d += ch == "<"
        if d == 0:
            out += ch
        d -= ch == ">"
    q = out.strip().split(" ")[-1]
    if re.match(r"^(std|boost)::", q):
        return len([x for x in q.split("::") if x not in ("std", "boost", "__cxx11", "__detail", "this_thread", "mpi", "algorithm")]) >= 2
    return "::" in b


def split_params(n):
    m = re.search(r"\((.*)\)", n)
    if not m:
        return []
    r, d, cur = [], 0, ""
    for ch in m.group(1):
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            r.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        r.append(cur.strip())
    return r


def constparam(n, k, recv):
    ps = split_params(n)
    j = k - 1 if recv else k
    return 0 <= j < len(ps) and ("const&" in ps[j] or "const*" in ps[j] or not ps[j].endswith(("&", "*")))


def is_copy_ctor(n, base):
    if not is_ctor(base):
        return False
    cls = n[:n.rindex("::" + base.split("::")[-1])] if "::" + base.split("::")[-1] in n else None
    m = re.match(r"^(.*?)\((.*)$", n)
    # text of the class is repeated as the first parameter
    b = base.split("::")[-1]
    i = n.find("::" + b + "(")
    if i < 0:
        i = n.find("::" + b + "<")
    if i < 0:
        return False
    cls = n[:i]
    j = n.find("(", i)
    # a template constructor's own arguments precede its parameters
    par = n[j + 1:]
    if n[i + 2 + len(b)] == "<":
        d, k = 0, i + 2 + len(b)
        while k < len(n):
            d += (n[k] == "<") - (n[k] == ">")
            k += 1
            if d == 0:
                break
        par = n[k + 1:]
    par = par.strip()
    short = cls.split("<")[0]
    return (par.startswith(cls) or par.startswith(short + "<")) and ("&" in par)
