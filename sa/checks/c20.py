"""C20: a GA individual's fitness always belongs to its current genotype."""
import re
from val import flows
from align import Align, find
from heap import Heap, has
from ir import ACCESSORS

TECHNIQUE = ("typestate over the triple (genotype, phenotype, fitness) of every individual a function touches, as provenance tokens in a forward dataflow with an abstract store; "
             "symbolic container contents for the pairing of individuals with counted and cached values")
LEVEL_NOTE = "all public operations of Individual and the stream operator, all paths to a normal return; every individual of the population in the evaluation step"
EXPLANATION = """
Individuals carry a chromosome, parameters that decode it and a fitness with a flag; they are recognised by their types. A forward dataflow over each public operation (private helpers and the library's guards
inlined) gives every one of the three a token naming the genotype it stands for: a write to the chromosome (element references, iterators, algorithms and callees that take it for modification) makes a new
genotype; decoding from the own chromosome makes the parameters follow; encoding, cloning and copying carry the source's token over. At every normal return parameters and chromosome have the same token, and
a fitness that is still valid is either new or stands for the genotype the chromosome has now. The stored number is read only on paths where the flag is known to be set.
In the evaluation step each set_fitness and each cache record pairs an individual with a value computed from, or filed under, that same individual (index-symbolic container contents).
"""
ASSUMPTIONS = ["the decoding and encoding of parameters are deterministic and mutually inverse (C26)", "different chromosomes of one run have different 64-bit hashes",
               "a fitness handed to set_fitness or read from a file is the caller's responsibility; the algorithm re-evaluates every individual before using it (C17)"]
IND = "k52::optimization::Individual"
OPAQUE = [r"^std::", r"^boost::", "^k52::common::"]
READS = {"begin", "end", "rbegin", "rend", "operator[]", "at", "front", "back", "data", "size", "empty", "capacity", "reserve", "max_size", "get_allocator", "cbegin", "cend",
         "operator*", "operator++", "operator--", "operator+", "operator-", "operator+=", "operator-=", "operator!=", "operator==", "operator<", "operator bool"}
ALGOS = {"fill", "fill_n", "copy", "copy_n", "copy_backward", "swap_ranges", "reverse", "rotate", "transform", "generate", "generate_n", "iter_swap", "swap", "random_shuffle", "shuffle", "replace",
         "replace_if", "sort", "partition", "stable_partition", "for_each", "_S_swap", "move"}
SWAPS = {"swap_ranges", "iter_swap", "swap", "_S_swap"}


def private(j):
    return {e.get("ln") for c in j["classes"].values() for e in c["elems"] if e["k"] == "f" and e.get("acc") in ("private", "protected")}


def select(j):
    p = private(j)
    r = []
    for f, d in j["funcs"].items():
        n = j["dem"].get(f, f)
        if f not in p and d.get("repo") and "thunk" not in n and (n.startswith(IND + "::") or re.match(r"^k52::optimization::operator(<<|>>)\(std::\w+<?.*?Individual( const)?&\)$", n)):
            r.append(f)
    return r


PAIR = [r"^std::", r"^boost::", "IdentifyableObjectsManager", "InitializationChecker", "^k52::common::", "^k52::optimization::Individual::", "Task::", "TaskResult"]
ROW = [r"WorkerPool.*::DoTasks"]
JOBS = [{"id": "f", "select": select, "opaque": OPAQUE, "inline": ACCESSORS},
        {"id": "eval", "roots": [r"^k52::optimization::ObjectiveFunctionCounter::ObtainFitness\("], "opaque": PAIR, "inline": ACCESSORS}]
MINIMUM = {}


def layout(prog):
    """offsets of chromosome, parameters, flag and fitness in an individual"""
    r = {}
    for c in prog.classes.values():
        if c["name"] == IND:
            for e in c["elems"]:
                if e["k"] != "m":
                    continue
                t = e["t"]
                if "St6vectorIbSaIbE" in t:
                    r["g"] = e["off"]
                elif "shared_ptr" in t and "Parameters" in t:
                    r["p"] = e["off"]
                elif t in ("bool", "_Bool"):
                    r["h"] = e["off"]
                elif t == "double":
                    r["f"] = e["off"]
    return r


class Bound:
    """which vectors of bits the iterators and element references held in values and locals refer to (flow-insensitive)"""

    def __init__(self, f, inds, off):
        self.f, self.inds, self.off = f, inds, off
        self.locals = set()
        for i in f.insts():
            if i.is_call() and i.callee and re.match(r"^std::vector<bool", f.prog.dem(i.callee)) and i.args:
                b = self.base(i.args[0])
                if b and b[1] == 0 and b[0] in f.defs and f.defs[b[0]].op == "alloca":
                    self.locals.add(b[0])
        self.val, self.mem = {}, {}
        for _ in range(12):
            before = (sum(map(len, self.val.values())), sum(map(len, self.mem.values())))
            for i in f.insts():
                self.visit(i)
            if before == (sum(map(len, self.val.values())), sum(map(len, self.mem.values()))):
                break

    def base(self, v):
        o = 0
        for _ in range(30):
            d = self.f.defs.get(v) if isinstance(v, str) else None
            if d is None or d.op == "alloca":
                return (v, o) if isinstance(v, str) and (d is not None or v[0] == "a") else None
            if d.op == "getelementptr" and d.get("off") is not None and not d.get("vo"):
                o += d.d["off"]
                v = d.d["p"]
            elif d.op in ("bitcast", "freeze"):
                v = d.args[0]
            else:
                return v, o
        return None

    def vector(self, v):
        """the vectors a pointer points to"""
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is not None and d.op in ("phi", "select"):
            xs = [x for _, x in d.args] if d.op == "phi" else d.args[1:]
            r = [self.vector1(x) for x in xs]
            return set(r) - {None}
        x = self.vector1(v)
        return {x} if x else set()

    def vector1(self, v):
        b = self.base(v)
        if b is None:
            return None
        if b[0] in self.inds and b[1] == self.off["g"]:
            return ("m", self.inds[b[0]])
        if b[0] in self.locals and b[1] == 0:
            return ("v", b[0])
        return None

    def inside(self, v):
        b = self.base(v)
        if b is None:
            return None
        if b[0] in self.inds and self.off["g"] <= b[1] < self.off["g"] + 40:
            return ("m", self.inds[b[0]])
        if b[0] in self.locals and b[1] < 40:
            return ("v", b[0])
        return None

    def of(self, v):
        """vectors the value (an iterator's word, a reference, a local iterator's address) belongs to"""
        r = set(self.val.get(v, ()))
        b = self.base(v)
        if b and b[0] not in self.locals:
            r |= self.mem.get(b[0], set())
        return r

    def visit(self, i):
        a = i.args
        if i.op == "load":
            x = self.inside(a[0])
            if x:
                self.val.setdefault(i.id, set()).add(x)
                return
            b = self.base(a[0])
            if b and self.mem.get(b[0]):
                self.val.setdefault(i.id, set()).update(self.mem[b[0]])
        elif i.op == "store":
            s = self.of(a[0]) if isinstance(a[0], str) else set()
            b = self.base(a[1])
            if s and b and b[0] not in self.locals and b[0] not in self.inds and b[0] in self.f.defs and self.f.defs[b[0]].op == "alloca":
                self.mem.setdefault(b[0], set()).update(s)
        elif i.op in ("phi", "select", "extractvalue", "insertvalue", "freeze", "bitcast"):
            xs = [x for _, x in a] if i.op == "phi" else a
            s = set().union(*[self.of(x) for x in xs if isinstance(x, str)])
            if s:
                self.val.setdefault(i.id, set()).update(s)
        elif i.is_call():
            n = self.f.prog.dem(i.callee) if i.callee else ""
            s = set()
            for x in a:
                if isinstance(x, str):
                    s |= self.of(x)
                    if n.startswith("std::vector<bool") and x == a[0] or i.get("sr") and x == a[min(1, len(a) - 1)]:
                        s |= self.vector(x)
            if s and (n.startswith("std::") or i.callee and i.callee.startswith("llvm.memcpy")):
                self.val.setdefault(i.id, set()).update(s)
                b = self.base(a[0]) if a else None
                if b and b[0] not in self.locals and b[0] not in self.inds and b[0] in self.f.defs and self.f.defs[b[0]].op == "alloca":
                    self.mem.setdefault(b[0], set()).update(s)


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ("copy", "p"):
        t = t[1]
    return t


def fact(st, tag, k):
    return next((e[2] for e in st if e[0] == tag and e[1] == k), None)


def put(st, tag, k, t):
    return frozenset(e for e in st if not (e[0] == tag and e[1] == k)) | {(tag, k, t)}


class Follow:
    def __init__(self, ck, f, off):
        self.f, self.off, self.prog = f, off, f.prog
        n = f.dem
        ps = n[n.index("("):]
        self.args = {}
        fixed = 0
        names = re.findall(r"Individual( const)?[*&]", ps)
        for k, a in enumerate(f.d["args"]):
            if a.get("n") == "this" and n.startswith(IND + "::"):
                self.args["a%d" % k] = k
            elif a.get("t") == "ptr" and a.get("n") != "this":
                # parameters in order of the signature
                pass
        plist = params(n)
        shift = len(f.d["args"]) - len(plist)
        for q, t in enumerate(plist):
            if re.match(r"^k52::optimization::Individual( const)?[&*]$", t.strip()):
                self.args["a%d" % (q + shift)] = q + shift
        self.ctor = n.startswith(IND + "::Individual(")
        self.b = Bound(f, self.args, off)
        self.guards = []
        self.writes = 0

    def initial(self):
        r = set()
        for v, k in self.args.items():
            if self.ctor and k == 0:
                r |= {("G", 0, ("none",)), ("P", 0, ("none",)), ("H", 0, ("none",)), ("N", 0, ("none",))}
            else:
                r |= {(t, k, ("in", k)) for t in "GPHN"}
        return r

    # --- tokens
    def token(self, st, x):
        if x[0] == "m":
            return fact(st, "G", x[1])
        t = fact(st, "E", x[1])
        return t if t else ("v", x[1])

    def params_of(self, st, t):
        """the individual whose parameters t is"""
        t = strip(t)
        for k in self.args.values():
            c = strip(self.h.read(st, (("a", k), self.off["p"])))
            if c == t:
                return k
        return None

    def value(self, st, t):
        t = strip(t)
        k = self.params_of(st, t)
        if k is not None and t[0] != "undef":
            return fact(st, "P", k)
        if t[0] == "r" and t[2].split("::")[-1] == "Clone" and len(t) > 3:
            return self.value(st, t[3])
        for e in st:
            if e[0] == "D" and e[1] == t:
                return e[2]
        return ("pv", t)

    def write(self, st, x, tok):
        if x[0] == "m":
            if fact(st, "G", x[1]) == tok and tok[0] == "w" or fact(st, "P", x[1]) == tok and tok[0] == "w":
                st = put(st, "P", x[1], ("stale", x[1])) if fact(st, "P", x[1]) == tok else st
            return put(st, "G", x[1], tok)
        return put(st, "E", x[1], tok)

    def on_call(self, i, st, n):
        b, h, a = self.b, self.h, i.args
        T = lambda k: h.term(a[k], st)
        name = n.split("(")[0]
        last = self.prog.base(i.callee).split("::")[-1] if i.callee else ""
        if i.get("v"):
            slot = "::".join(self.prog.vslot_name(i.get("v"))).split("::")[-1]
            if slot in ("SetFromChromosome", "SetChromosome") and len(a) >= 3:
                return self.code(i, st, slot, a)
        elif last in ("SetFromChromosome", "SetChromosome") and "k52::optimization::" in n and len(a) >= 3:
            return self.code(i, st, last, a)
        if n.startswith("std::vector<bool"):
            xs = b.vector(a[0]) if a else set()
            if not xs:
                return None
            if last == "operator=" and len(a) > 1:
                src = b.vector(a[1])
                for x in xs:
                    st = self.write(st, x, self.token(st, min(src)) if len(src) == 1 else ("w", i.id))
            elif last == "vector":
                src = b.vector(a[1]) if len(a) > 1 else set()
                for x in xs:
                    st = self.write(st, x, self.token(st, min(src)) if len(src) == 1 else ("none",) if x[0] == "m" else ("w", i.id))
            elif last == "swap" and len(a) > 1 and b.vector(a[1]):
                y = b.vector(a[1])
                if len(xs) == len(y) == 1:
                    x, y = min(xs), min(y)
                    tx, ty = self.token(st, x), self.token(st, y)
                    st = self.write(self.write(st, x, ty), y, tx)
            elif last not in READS and not n.endswith(" const") and not last.startswith("~"):
                for x in xs:
                    st = self.write(st, x, ("w", i.id))
            else:
                return None
            self.writes += 1
            return st
        if "std::" in name and last in ("operator==", "operator!=") and len(a) == 2:
            x, y = b.vector(a[0]), b.vector(a[1])
            if len(x) == len(y) == 1:
                st = frozenset(e for e in st if not (e[0] == "Q" and e[1] == i.id)) | {("Q", i.id, last == "operator==", self.token(st, min(x)), self.token(st, min(y)))}
                return st
        if n.startswith("std::_Bit_reference::") and (last in ("operator=", "flip", "operator|=", "operator&=", "operator^=")):
            xs = b.of(a[0])
            for x in xs:
                st = self.write(st, x, ("w", i.id))
            self.writes += bool(xs)
            return st if xs else None
        if n.startswith("std::") or " std::" in name:
            if last in ALGOS:
                mine = [(k, b.of(x) | b.vector(x)) for k, x in enumerate(a) if isinstance(x, str) and (b.of(x) or b.vector(x))]
                if mine:
                    self.writes += 1
                    if last in SWAPS:
                        xs = set().union(*[s for k, s in mine])
                        vs = [b.vector(x) for x in a if isinstance(x, str)]
                        if len(a) == 2 and all(len(v) == 1 for v in vs):
                            x, y = min(vs[0]), min(vs[1])
                            tx, ty = self.token(st, x), self.token(st, y)
                            return self.write(self.write(st, x, ty), y, tx)
                    elif last in ("copy", "copy_n", "copy_backward", "transform", "move"):
                        xs, src = mine[-1][1], mine[0][1]
                        if last == "copy" and len(src) == 1 and len(xs) == 1 and src != xs:
                            return self.write(st, min(xs), self.token(st, min(src)))
                    else:
                        xs = mine[0][1]
                    for x in xs:
                        st = self.write(st, x, ("w", i.id))
                    return st
            base = self.prog.base(i.callee) if i.callee else ""
            return self.pointer(i, st, base, last, a)
        if i.callee and self.prog.base(i.callee).startswith("boost::shared_ptr"):
            return self.pointer(i, st, self.prog.base(i.callee), last, a)
        if i.get("v") or n.startswith("k52::"):
            for k, x in enumerate(a):
                if not isinstance(x, str):
                    continue
                vs = b.vector(x)
                if vs and not self.constant(i, n, k):
                    for v in vs:
                        st = self.write(st, v, ("w", i.id))
                    self.writes += 1
                    return st
        return None

    def constant(self, i, n, k):
        """the callee takes argument k as const"""
        if i.get("v"):
            ns = [self.prog.dem(x) for x in i.get("v")[2:] if self.prog.dem(x).startswith("k52::")] or [self.prog.dem(x) for x in i.get("v")[2:] if "(" in self.prog.dem(x)]
        else:
            ns = [n]
        for m in ns:
            ps = params(m)
            q = k - (len(i.args) - len(ps))
            if 0 <= q < len(ps) and re.search(r"const[&*]", ps[q].replace(" ", "")):
                return True
        return False

    def code(self, i, st, slot, a):
        b = self.b
        r = strip(self.h.term(a[0], st))
        sets = [b.of(x) for x in a[1:] if isinstance(x, str)]
        vs = set().union(*sets) if sets else set()
        if len(vs) != 1:
            return st
        v = min(vs)
        k = self.params_of(st, r)
        if slot == "SetFromChromosome":
            t = self.token(st, v)
            if k is not None:
                return put(st, "P", k, t)
            return put(st, "D", r, t)
        t = self.value(st, r)
        if t[0] == "stale":
            t = ("w", i.id)
        self.writes += 1
        st = self.write(st, v, t)
        return st

    def pointer(self, i, st, base, last, a):
        """assignments of the parameters' owner"""
        if not ("shared_ptr" in base or last == "swap"):
            return None
        for v, k in self.args.items():
            loc = (("a", k), self.off["p"])
            if a and isinstance(a[0], str) and self.h.loc(self.h.term(a[0], st)) == loc and (last in ("operator=", "reset", "swap") or base.split("::")[-1] == base.split("::")[-2]):
                if len(a) == 1 and last != "reset":
                    return put(st, "P", k, ("none",)) if self.ctor else None
                if len(a) < 2:
                    return put(st, "P", k, ("none",))
                t = self.h.term(a[1], st)
                c = self.h.read(st, self.h.loc(t)) if last in ("operator=", "swap") or "&" in (self.prog.dem(i.callee) or "") else t
                return put(st, "P", k, self.value(st, c))
            if last == "swap" and len(a) > 1 and isinstance(a[1], str) and self.h.loc(self.h.term(a[1], st)) == loc:
                return put(st, "P", k, self.value(st, self.h.read(st, self.h.loc(self.h.term(a[0], st)))))
        return None

    def on_store(self, i, st, p, t):
        b, o = self.h.loc(p)
        for v, k in self.args.items():
            if b != ("a", k):
                continue
            if o == self.off["h"]:
                x = ("false",) if t in (("c", "#0"), ("c", "#false")) else ("true",) if t[0] == "c" else t[1:] and t[0] == "in" and t[1][0] == "a" and t[2] == self.off["h"] and fact(st, "H", t[1][1]) or ("set", i.id)
                st = put(st, "H", k, x)
            elif o == self.off["f"]:
                x = fact(st, "N", t[1][1]) if t[0] == "in" and t[1][0] == "a" and t[2] == self.off["f"] else ("set", i.id)
                st = put(st, "N", k, x)
            elif o == self.off["p"]:
                # the owner's word stored directly (an inlined constructor)
                st = put(st, "P", k, ("none",) if t == ("c", "#0") or t == ("c", "null") else self.value(st, t))
        return st

    def run(self):
        self.h = Heap(self.f, on_call=self.on_call, on_store=self.on_store, on_inst=self.on_inst, extra_init=self.initial())
        step = self.h.run
        return step()

    def on_inst(self, i, st):
        return st

    def watched(self, k):
        """some reset of the flag depends on a look at the bits (whether they changed)"""
        f = self.f
        for i in f.insts():
            if i.op != "store" or i.args[0] not in ("#0", "#false") or (self.b.base(i.args[1]) or (0, 0)) != ("a%d" % k, self.off["h"]):
                continue
            for B in range(len(f.blocks)):
                ss = [t for t, lab in f.succ[B] if lab in ("t", "f")]
                if len(ss) == 2 and len({i.bb in self.reach(s, B) for s in ss}) == 2 and self.looks(f.blocks[B][-1].args[0] if f.blocks[B][-1].args else None, set()):
                    return True
        return False

    def partial(self, sid):
        """the flag stored by sid is computed, but from no look at the whole chromosome: neither a comparison of vectors nor a loop over bits that does not write them"""
        f = self.f
        st = next((i for i in f.insts() if i.id == sid), None)
        if st is None:
            return False
        calls = [f.defs[x] for x in flows(f, st.args[0]) if x in f.defs and f.defs[x].is_call()]
        if any(i.get("v") or not (self.prog.dem(i.callee or "").split("(")[0].startswith("std::") or (i.callee or "").startswith("llvm.")) for i in calls):
            return False
        if any(len(self.b.vector(i.args[0])) and len(self.b.vector(i.args[1])) for i in f.calls() if len(i.args) >= 2 and self.prog.base(i.callee or "").split("::")[-1] in ("operator==", "operator!=", "equal")
               and isinstance(i.args[0], str) and isinstance(i.args[1], str)):
            return False
        if any(self.prog.base(i.callee or "").split("::")[-1] in ("equal", "mismatch", "count", "find", "lexicographical_compare", "__equal_aux", "inner_product", "accumulate") for i in f.calls() if i.callee):
            return False
        for l in f.loops():
            ins = [i for i in f.insts() if i.bb in l.body and i.is_call()]
            reads = any(re.search(r"_Bit_(const_)?iterator::operator\*|_Bit_reference::operator bool|::operator\[\]", self.prog.dem(i.callee)) for i in ins if i.callee)
            writes = any(i.get("v") or i.callee and self.b.vector(i.args[0] if i.args and isinstance(i.args[0], str) else "") and not self.prog.dem(i.callee).endswith("const")
                         and self.prog.base(i.callee).split("::")[-1] not in READS for i in ins)
            if reads and not writes:
                return False
        return True

    def reach(self, s, avoid):
        seen, todo = set(), [s]
        while todo:
            x = todo.pop()
            if x in seen or x == avoid:
                continue
            seen.add(x)
            todo += [t for t, lab in self.f.succ[x]]
        return seen

    def looks(self, v, seen):
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or v in seen:
            return False
        seen.add(v)
        if d.is_call():
            return any(self.b.of(x) or self.b.vector(x) for x in d.args if isinstance(x, str))
        if d.op == "load":
            b = self.b.base(d.args[0])
            return b is not None and any(s.op == "store" and self.b.base(s.args[1]) == b and self.looks(s.args[0], seen) for s in self.f.insts())
        if d.op == "phi" and any(self.looks_block(p, seen) for p, x in d.args):
            return True
        return any(self.looks(x, seen) for x in ([y for p, y in d.args] if d.op == "phi" else d.args))

    def looks_block(self, p, seen):
        """a value chosen by which way a branch on the bits went"""
        for q in range(len(self.f.blocks)):
            if any(t == p and lab in ("t", "f") for t, lab in self.f.succ[q]):
                l = self.f.blocks[q][-1]
                if l.args and self.looks(l.args[0], seen):
                    return True
        return False


def params(n):
    """parameter types of a demangled name"""
    m = re.search(r"\((.*)\)( const)?$", n.replace("operator()", "operatorCALL"))
    s = m.group(1) if m else ""
    r, d, cur = [], 0, ""
    for ch in s:
        d += ch in "<(" 
        d -= ch in ">)"
        if ch == "," and d == 0:
            r.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return r + [cur.strip()] if cur.strip() else r


def null_params(st, off):
    """the path found an individual without parameters (never initialised: it has no genotype)"""
    return any(e[0] == "F" and e[1] == "ieq" and any(x[0] == "in" and isinstance(x[1], tuple) and x[1][0] == "a" and x[2] == off["p"] for x in e[2:4])
               and any(x in (("c", "#0"), ("c", "null")) for x in e[2:4]) for e in st)


def unguarded(f, st, off, k):
    """a read of the stored number on a path that has not found the flag set"""
    if ("F", "ine", ("in", ("a", k), off["h"]), ("c", "#0")) in st or fact(st, "H", k) in (("true",),):
        return None
    for e in st:
        if e[0] == "V" and e[2] == ("in", ("a", k), off["f"]):
            i = f.defs[e[1]]
            if i.op == "load" and any(not (u.op == "store" and u.args[0] == i.id and keeps(f, u.args[1], off)) for u in f.uses(i.id)):
                return i
    return None


def keeps(f, p, off):
    """the address of an individual's own number (a copy of the whole individual)"""
    d = f.defs.get(p)
    return d is not None and d.op == "getelementptr" and d.d.get("off") == off["f"]


def expand(A, e, depth=0):
    """locals passed by address replaced by what they hold"""
    if not isinstance(e, tuple):
        return e
    if e[0] == "o" and depth < 4:
        x = A.content(e[1])
        return expand(A, x, depth + 1) if x[0] not in ("?", "cell") else e
    return tuple(expand(A, x, depth) if isinstance(x, tuple) else x for x in e)


def owners(e):
    return {x[2] for x in find(e, lambda x: x[0] == "call" and len(x) > 2 and x[1] in ("GetParametersAccordingToChromosome", "GetChromosome", "get_fitness"))}


def whole(x):
    return x[0] == "el" and not find(x, lambda y: y[0] in ("?", "cell"))


def pairing(ck, prog):
    for f in prog.jobs["eval"]:
        A = Align(f, ROW)
        name = prog.base(f.name).replace("k52::optimization::", "")
        for i in f.calls():
            n = prog.base(i.callee) if i.callee else ""
            if n == IND + "::set_fitness":
                who, v = {A.value(i.args[0])}, expand(A, A.value(i.args[1]))
                what = "the value comes from the individual it is stored in"
            elif n.split("::")[-1] == "CacheRecord" and len(i.args) >= 3:
                who, v = owners(expand(A, A.value(i.args[1]))), expand(A, A.value(i.args[2]))
                what = "the cached value belongs to the individual whose chromosome is the key"
            else:
                continue
            ck.count("pairs")
            of = owners(v)
            if len(who) != 1 or len(of) != 1 or not whole(min(who, key=str)) or not whole(min(of, key=str)):
                ck.count("undecided")
                continue
            a, b = who.pop(), of.pop()
            if a != b and (a[1] != b[1] or any(x[0] not in ("iter", "nth", "size", 1) for y in (a, b) for x in y[2].atoms())):
                ck.count("undecided")
                continue
            ck.ob("pair", "%s: %s at %s" % (name, what, i.repo_loc), a == b, "element %s against element %s of %s" % (a[2], b[2], a[1]), "pair:%s:%s" % (name, n.split("::")[-1]))


def check(ck, prog):
    pairing(ck, prog)
    off = layout(prog)
    if set(off) != {"g", "p", "h", "f"}:
        ck.count("undecided")
        return
    for f in prog.jobs["f"]:
        name = prog.base(f.name).replace("k52::optimization::", "")
        w = Follow(ck, f, off)
        if not w.args:
            continue
        try:
            exits = w.run()
        except OverflowError:
            ck.count("undecided")
            continue
        ck.count("operations")
        for v, k in sorted(w.args.items()):
            who = "this" if k == 0 and f.d["args"][0].get("n") == "this" else f.d["args"][k].get("n") or v
            bad = {}
            n = 0
            for kind, inst, st, path, rt, _ in exits:
                if kind != "ret" or null_params(st, off):
                    continue
                n += 1
                u = unguarded(f, st, off, k)
                if u is not None:
                    bad.setdefault("guard", (u, "the stored number is used without the flag having been found set"))
                G, P, H, N = (fact(st, t, k) for t in "GPHN")
                if G != P:
                    bad.setdefault("agree", (inst, "the parameters stand for another genotype than the chromosome (%s / %s)" % (show(P), show(G))))
                valid = H[0] in ("in", "true", "set")
                if H[0] == "in" and N[0] == "in" and H != N:
                    bad.setdefault("fitness", (inst, "flag and number of the fitness come from different individuals"))
                elif valid and H[0] == "set" and N[0] == "in" and N != G and w.partial(H[1]):
                    bad.setdefault("fitness", (inst, "a fitness stored before may still be reported although only some of the chromosome was looked at (%s)" % show(G)))
                elif valid and H[0] == "set" or valid and N != G and self_same(st, N, G):
                    continue
                elif valid and N[0] == "in" and N != G and w.watched(k):
                    ck.count("undecided")
                elif valid and N[0] == "in" and N != G:
                    bad.setdefault("fitness", (inst, "a fitness stored before is still reported after the chromosome changed (%s)" % show(G)))
            for rule in ("agree", "fitness", "guard"):
                b = bad.get(rule)
                ck.ob(rule, "%s: %s (%d paths)" % (name, who, n), b is None, b and "%s at %s" % (b[1], b[0].repo_loc), "%s:%s:%s" % (rule, name, who))


def self_same(st, x, y):
    """the path compared two chromosomes and found them equal"""
    for e in st:
        if e[0] == "Q" and {e[3], e[4]} == {x, y}:
            want = "ine" if e[2] else "ieq"
            if any(c[0] == "F" and c[1] == want and c[2][:2] == ("r", e[1]) and c[3] == ("c", "#0") for c in st):
                return True
    return False


def show(t):
    return {"in": "as on entry", "w": "written here", "none": "none", "stale": "an earlier one", "pv": "from parameters", "v": "a local one"}.get(t[0], t[0])
