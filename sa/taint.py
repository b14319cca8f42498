"""Dependence labels: which inputs of a function a value or an object is computed from (whole objects, flow-insensitive).

Labels: ('A', arg) the argument itself or what it points to; ('N', arg) the length of an argument container; ('D', arg) its elements;
('F', offset) a field of this; ('G', name) a global; ('U', callee) the answer of an unknown call that takes no labelled input."""
import re
from val import addr, is_const, cint

VEC = re.compile(r"(?:^|\b)(?:_ZTSS?t?6vector|_ZTSSt6vector|std::vector)")


def split_params(d):
    """parameter types of a demangled signature"""
    k = d.rfind(")")
    if k < 0:
        return None
    depth, j = 0, k
    while j >= 0:
        if d[j] == ")":
            depth += 1
        elif d[j] == "(":
            depth -= 1
            if depth == 0:
                break
        j -= 1
    s, out, depth, cur = d[j + 1:k], [], 0, ""
    for c in s:
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip() and cur.strip() != "void":
        out.append(cur.strip())
    return out


def mutable_ref(t):
    t = t.strip()
    if "__normal_iterator<" in t and not t.endswith(("&", "*")):
        return not re.search(r"__normal_iterator<[^,]*const ?\*", t)
    if not t.endswith(("&", "*")):
        return False
    core = t[:-1].rstrip()
    return not core.endswith("const") and not core.startswith("const ")


class Taint:
    def __init__(self, fn, this=None, frozen=()):
        self.fn, self.prog = fn, fn.prog
        args = fn.d["args"]
        self.sret = bool(args and args[0].get("sret"))
        k = 1 if self.sret else 0
        self.this = this if this is not None else ("a%d" % k if len(args) > k and args[k].get("n") == "this" else None)
        self.vecs = {"a%d" % j for j, a in enumerate(args) if VEC.search(a.get("dt", "") or "")}
        self.lab, self.mem = {}, {}
        self.fields_frozen = frozen == "fields"
        self.frozen = set() if self.fields_frozen else set(frozen)     # roots whose contents are treated as unknown earlier state
        self._root = {}
        self.solve()

    # the object a pointer leads to: an alloca, argument, global, call or a field of this
    def root(self, v, depth=0):
        if v in self._root:
            return self._root[v]
        b, o, vo = addr(self.fn, v)
        d = self.fn.defs.get(b)
        r = b
        if b == self.this:
            r = ("F", o if not vo else None)
        elif d is not None and d.op in ("load", "inttoptr", "ptrtoint", "extractvalue") and depth < 12:
            r = self.root(d.args[0], depth + 1)
        elif d is not None and d.op == "phi" and depth < 6:
            rs = {self.root(x, depth + 1) for _, x in d.args if x != b and not is_const(x)}
            rs.discard(b)
            r = rs.pop() if len(rs) == 1 else b
        self._root[v] = r
        return r

    def val(self, v):
        if not isinstance(v, str) or is_const(v):
            return frozenset()
        if v in self.lab:
            return self.lab[v]
        if v[0] == "a" and v[1:].isdigit():
            if v == self.this or self.sret and v == "a0" or v in self.vecs:
                return frozenset()
            return frozenset({("A", v)})
        if v.startswith("@"):
            return frozenset()
        return frozenset()

    def seed(self, r):
        """labels of the initial contents of an object"""
        if isinstance(r, tuple):
            return frozenset({r})
        if r == self.this or self.sret and r == "a0":
            return frozenset()
        if r in self.vecs:
            return frozenset({("N", r), ("D", r)})
        if isinstance(r, str) and r[0] == "a" and r[1:].isdigit():
            return frozenset({("A", r)})
        if isinstance(r, str) and r.startswith("@"):
            g = self.prog.globals.get(r[1:].split("+")[0]) if hasattr(self.prog, "globals") else None
            if g and (g.get("const") or g.get("k")) or re.match(r"@(_ZTV|_ZTI|_ZTS|\.str|_ZTT)", r):
                return frozenset()
            return frozenset({("G", r[1:])})
        return frozenset()

    def deep(self, v):
        """labels of everything reachable through a pointer value"""
        if not isinstance(v, str) or is_const(v):
            return frozenset()
        r = self.root(v)
        return self.mem.get(r, frozenset()) | self.seed(r)

    def solve(self):
        fn = self.fn
        ptr = set()
        for _ in range(40):
            ch = False

            def setv(x, s):
                nonlocal ch
                o = self.lab.get(x, frozenset())
                n = o | s
                if n != o or x not in self.lab:
                    ch = ch or n != o
                    self.lab[x] = n

            def setm(r, s):
                nonlocal ch
                if self.fields_frozen and isinstance(r, tuple):
                    return
                if r in self.frozen or isinstance(r, str) and r[0] == "@" and ("G", r[1:]) in self.frozen:
                    return
                o = self.mem.get(r, frozenset())
                n = o | s
                if n != o:
                    ch = True
                    self.mem[r] = n
            for i in fn.insts():
                if i.op == "alloca" or i.op in ("br", "ret", "switch", "unreachable"):
                    continue
                if i.op == "load":
                    setv(i.id, self.load(i.args[0]))
                elif i.op == "store":
                    r = self.root(i.args[1])
                    s = self.val(i.args[0])
                    if isinstance(i.args[0], str) and not is_const(i.args[0]) and self.points(i.args[0]):
                        s = s | self.deep(i.args[0])
                    setm(r, s)
                elif i.op == "phi":
                    s = frozenset()
                    for _, x in i.args:
                        s |= self.val(x)
                    setv(i.id, s)
                elif i.op == "getelementptr":
                    s = self.val(i.d["p"])
                    for x, _ in i.d.get("vo", []):
                        s |= self.val(x)
                    setv(i.id, s)
                elif i.is_call():
                    self.call(i, setv, setm)
                else:
                    s = frozenset()
                    for x in i.args:
                        s |= self.val(x)
                    setv(i.id, s)
            if not ch:
                break

    def points(self, v):
        d = self.fn.defs.get(v)
        return d is None or d.op in ("getelementptr", "alloca", "phi", "inttoptr") or d.op == "load"

    def load(self, p):
        b, o, vo = addr(self.fn, p)
        if b in self.vecs:
            return frozenset({("N", b)}) if not vo and o in (0, 8, 16) else frozenset({("D", b)})
        r = self.root(p)
        s = self.mem.get(r, frozenset()) | self.val(p)
        if r in self.vecs:
            return s | {("D", r)}
        return s | self.seed(r)

    def call(self, i, setv, setm):
        c = i.callee
        name = self.prog.dem(c) if c else ""
        base = self.prog.base(c) if c else ""
        last = base.split("::")[-1]
        a = [x for x in i.args]
        if c and (c.startswith("llvm.lifetime") or c.startswith("llvm.dbg")):
            return
        if a and last in ("size", "empty") and isinstance(a[0], str) and addr(self.fn, a[0])[0] in self.vecs:
            setv(i.id, frozenset({("N", addr(self.fn, a[0])[0])}))
            return
        s = frozenset()
        for x in a:
            if isinstance(x, str) and not is_const(x):
                s |= self.val(x)
                if self.points(x):
                    s |= self.deep(x)
        if c and not s and not a and not c.startswith("llvm."):
            s = frozenset({("U", base or c)})
        setv(i.id, s)
        if c and (c.startswith("llvm.mem") or c.startswith("mem")):
            setm(self.root(a[0]), s)
            return
        for k, x in enumerate(a):
            if isinstance(x, str) and not is_const(x) and self.written(i, k, name):
                setm(self.root(x), s)

    def written(self, i, k, name):
        """may the callee write through its k-th argument?"""
        d = self.fn.defs.get(i.args[k])
        if d is not None and d.op not in ("alloca", "getelementptr", "load", "phi", "call", "invoke"):
            return False
        c = i.callee
        if c is None:
            return k == 0
        f = self.prog.funcs.get(c, {})
        ps = split_params(name)
        n = len(i.args)
        if ps is None:
            return True
        first = n - len(ps)
        if first < 0:
            return True
        if k < first:
            if f.get("sret") and k == 0:
                return True
            return not re.search(r"\)\s*const$", name.strip())
        return mutable_ref(ps[k - first])

    # exact identity with an input -------------------------------------------------
    LOSSY = {"trunc", "fptrunc", "fptosi", "fptoui", "udiv", "sdiv", "lshr", "and", "urem", "srem", "shl"}
    ROUND = re.compile(r"(^|::)(llvm\.)?(floor|ceil|round|trunc|rint|nearbyint|lround|lrint|abs|fabs|fmod)\w*(\.f64|\.f32)?$")

    def exact(self, v, depth=0):
        """('A'|'N'|'F', x) when v is that input unchanged, 'lossy' when it is a many-to-one image of one, else None"""
        fn = self.fn
        if depth > 12 or not isinstance(v, str) or is_const(v):
            return None
        if v[0] == "a" and v[1:].isdigit():
            return None if v in self.vecs else ("A", v)
        d = fn.defs.get(v)
        if d is None:
            return None
        if d.op in ("zext", "sext", "freeze", "bitcast", "fpext", "uitofp", "sitofp"):
            return self.exact(d.args[0], depth + 1)
        if d.op in self.LOSSY | {"ashr", "sub"}:
            labs = self.val(v)
            if len(labs) == 1 and next(iter(labs))[0] == "N" and self.size_chain(v):
                return next(iter(labs))
            return "lossy" if d.op in self.LOSSY and labs else None
        if d.is_call() and d.callee and self.ROUND.search(self.prog.base(d.callee)):
            return "lossy" if self.val(v) else None
        if d.is_call() and d.callee and self.prog.base(d.callee).endswith("::size") and len(self.val(v)) == 1:
            return next(iter(self.val(v)))
        if d.op == "load":
            b, o, vo = addr(fn, d.args[0])
            if b == self.this and not vo:
                return ("F", o)
            dd = fn.defs.get(b)
            if isinstance(b, str) and b[0] == "a" and b[1:].isdigit():
                return ("A", b) if b not in self.vecs else None
            if dd is not None and dd.op == "alloca":
                return self.object_exact(b, depth + 1)
            if dd is not None and dd.op == "load":
                return None
        if d.op == "phi":
            xs = {self.exact(x, depth + 1) for _, x in d.args}
            return xs.pop() if len(xs) == 1 else ("lossy" if "lossy" in xs else None)
        for x in (d.args if d.op in ("fmul", "fadd", "fdiv", "fsub", "mul", "add") else []):
            if self.exact(x, depth + 1) == "lossy":
                return "lossy"
        return None

    def size_chain(self, v, depth=0):
        d = self.fn.defs.get(v)
        if d is None or depth > 6:
            return False
        if d.op in ("ashr", "sdiv", "lshr", "udiv"):
            n = cint(d.args[1])
            if n is None:
                return False
            return self.size_chain(d.args[0], depth + 1) if depth == 0 and self.unit(v) in (None, 1 << n if d.op in ("ashr", "lshr") else n) else False
        if d.op == "sub":
            return all(self.fn.defs.get(x) is not None and self.fn.defs[x].op in ("ptrtoint", "load") for x in d.args)
        return False

    def unit(self, v):
        """element size of the container whose length v is computed from"""
        for l in self.val(v):
            dt = self.fn.d["args"][int(l[1][1:])].get("dt", "") or ""
            m = re.search(r"vectorI(St7complexIdE|d|i|j|l|m|f)(Sa|,|E)", dt)
            if m:
                return {"St7complexIdE": 16, "d": 8, "l": 8, "m": 8}.get(m.group(1), 4)
        return None

    def object_exact(self, a, depth=0):
        """the single input a local object was set from"""
        fn, src = self.fn, set()
        for i in fn.insts():
            if i.op == "store" and addr(fn, i.args[1])[0] == a:
                src.add(self.exact(i.args[0], depth + 1))
            elif i.is_call() and i.args and isinstance(i.args[0], str) and addr(fn, i.args[0])[0] == a and i.callee:
                n = self.prog.base(i.callee)
                last = n.split("::")[-1]
                if last.startswith("~") or i.callee.startswith("llvm.lifetime"):
                    continue
                if (last == n.split("::")[-2] if "::" in n else False) or last == "operator=" or i.callee.startswith("llvm.memcpy"):
                    if len(i.args) > 1 and isinstance(i.args[1], str):
                        src.add(self.exact_obj(i.args[1], depth + 1))
        return src.pop() if len(src) == 1 else ("lossy" if "lossy" in src else None)

    def exact_obj(self, p, depth=0):
        """the input an object at address p (argument or local) is an unchanged copy of"""
        b, o, vo = addr(self.fn, p)
        d = self.fn.defs.get(b)
        if b == self.this and not vo:
            return ("F", o)
        if isinstance(b, str) and b[0] == "a" and b[1:].isdigit():
            return ("A", b)
        if d is not None and d.op == "alloca" and depth < 12:
            return self.object_exact(b, depth + 1)
        if d is not None and not d.op == "alloca":
            return self.exact(b, depth + 1)
        return None
