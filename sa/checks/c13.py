"""Sequence operations reject wrong-sized input before touching any data."""
import re
from ir import ACCESSORS
from flow import explore, trace, on_path
from val import addr, is_const, cint
from parq import STD
from taint import Taint

EXPLANATION = """
Each operation with a fixed or paired size is flattened (private helpers inlined, size and element accessors expanded) and walked path by path;
along each path the relations established by the branches between the length of an input sequence and another length are collected.
Rules: guard (every normal return has established that the length of the input equals the required length: the other
operand's length, or a length the object keeps, compared exactly as it is; for a comparison of sequences, every answer other than false), guard-first (no element of the input is
read, written, copied or handed on before that was established), delegate (an operation that hands the whole
sequence to the same operation of a part need not compare itself), same-length (the length a fixed-size transform compares with is the one its constructor was given).
"""
TECHNIQUE = "path-sensitive guard analysis on flattened code"
LEVEL_NOTE = """Exhaustive over the paths of the listed operations (fixed-size transforms, circular convolutions, chromosome reads and writes, parameter-array
values, spline nodes, crossover, initial populations, comparison of real vectors). Equality is recognised between lengths as they are; a comparison of computed images of lengths does not count."""
ASSUMPTIONS = ["std::vector and iterator difference report true lengths"]
PAIR, FIXED, ITER = "pair", "fixed", "iter"
SPEC = [(r"^k52::dsp::FastFourierTransform(::\w+)?::Transform$", FIXED), (r"^k52::dsp::\w+::EvaluateConvolution$", PAIR),
        (r"^k52::optimization::\w+::Set(From)?Chromosome$", ITER), (r"^k52::optimization::\w+::SetValues$", FIXED),
        (r"^k52::dsp::\w+Spline::Initialize$", PAIR), (r"^k52::common::FloatingPoint::AreEqual$", "compare"),
        (r"^k52::optimization::GeneticAlgorithm::SetInitialParameters$", FIXED), (r"^k52::optimization::Individual::Crossover$", "cross")]
ROOTS = [r"^k52::dsp::FastFourierTransform::.*Transform\(", r"::EvaluateConvolution\(", r"^k52::optimization::[A-Za-z]*::Set(From)?Chromosome\(",
         r"^k52::optimization::[A-Za-z]*::SetValues\(", r"^k52::dsp::[A-Za-z]*Spline::Initialize\(", r"^k52::common::FloatingPoint::AreEqual\(std::vector",
         r"^k52::optimization::GeneticAlgorithm::SetInitialParameters\(", r"^k52::optimization::Individual::Crossover\("]
UNITS = r"^src/(dsp|optimization|common)/"
JOBS = [{"id": "f", "roots": ROOTS, "opaque": [r"^std::", r"std::vector<.*>::operator="], "inline": ACCESSORS},
        {"id": "c", "roots": [r"FastFourierTransformImpl::FastFourierTransformImpl\(", r"FastFourierTransform::FastFourierTransform\("], "inline": ACCESSORS}]
MINIMUM = {"guard": 14, "guard-first": 14}
LE, GE = 1, 2
HARMLESS = re.compile(r"operator(-|\+|==|!=|\+\+|--|\+=|-=)|::(size|empty|begin|end|cbegin|cend|max_size|capacity)\(|_Bit_(const_)?iterator::_Bit|_Bit_iterator_base::_M|_Bit_iterator_base::_Bit|_M_const_cast|std::distance|lifetime|llvm\.dbg")


def size_like(f, v, depth=0):
    """is v a length as it is: an iterator difference or size(), through value-preserving casts"""
    d = f.defs.get(v)
    if d is None or depth > 8:
        return False
    if d.op in ("zext", "sext", "freeze"):
        return size_like(f, d.args[0], depth + 1)
    if d.op == "sub":
        return all(f.defs.get(x) is not None and f.defs[x].op in ("ptrtoint", "load", "call", "invoke", "add", "mul", "shl", "zext", "sext") for x in d.args)
    if d.op == "add":
        # bit iterators: 8 * word difference + offset difference
        return all(size_like(f, x, depth + 1) or f.defs.get(x) is not None and f.defs[x].op in ("shl", "mul", "load", "zext") for x in d.args)
    if d.op in ("shl", "mul"):
        return cint(d.args[1]) in (3, 8) and size_like(f, d.args[0], depth + 1)
    if d.op in ("ashr", "sdiv", "lshr"):
        e = f.defs.get(d.args[0])
        return cint(d.args[1]) is not None and e is not None and e.op == "sub" and size_like(f, e.id, depth + 1)
    if d.is_call():
        n = f.prog.dem(d.callee) if d.callee else ""
        return bool(re.search(r"operator-\(|::size\(|std::distance|GetChromosomeSize|std::size", n)) or bool(d.get("v"))
    if d.op == "load":
        b = addr(f, d.args[0])[0]
        e = f.defs.get(b)
        if e is not None and e.op == "alloca":
            st = [i for i in f.insts() if i.op == "store" and addr(f, i.args[1])[0] == b]
            return len(st) == 1 and size_like(f, st[0].args[0], depth + 1)
    return False


def plain(f, T, v):
    """a length kept or handed out by the object: loaded, returned by a call, or a length itself"""
    d = f.defs.get(v)
    while d is not None and d.op in ("zext", "sext", "freeze"):
        d = f.defs.get(d.args[0])
    if d is None:
        return isinstance(v, str) and v[0] == "a"
    return d.op in ("load", "call", "invoke", "extractvalue") or size_like(f, d.id)


def implied(f, c, val, depth=0, path=None, ops=("icmp",)):
    """comparisons that hold when condition c has the given value: [(icmp, truth)]"""
    d = f.defs.get(c)
    if d is None or depth > 8:
        return []
    if d.op == "phi" and path is not None:
        r = on_path(f, c, path)
        return implied(f, r, val, depth + 1, path, ops) if r != c else []
    if d.op == "icmp":
        a = f.defs.get(d.args[0])
        if a is not None and cint(d.args[1]) == 0 and d.get("pred") in ("eq", "ne") and a.get("t") != "ptr" and a.op in ("zext", "and", "icmp", "xor", "or") \
                and (a.op in ("zext", "icmp") or a.get("t") in ("i1", "i8")):
            return implied(f, d.args[0], val == (d.get("pred") == "ne"), depth + 1, path, ops)
        return [(d, val)]
    if d.op in ops:
        return [(d, val)]
    if d.op in ("zext", "trunc", "freeze"):
        return implied(f, d.args[0], val, depth + 1, path, ops)
    if d.op == "xor" and d.args[1] in ("#1", "#-1"):
        return implied(f, d.args[0], not val, depth + 1, path, ops)
    if d.op == "and" and val or d.op == "or" and not val:
        return implied(f, d.args[0], val, depth + 1, path, ops) + implied(f, d.args[1], val, depth + 1, path, ops)
    if d.op == "select":
        # x && y = select x, y, false; x || y = select x, true, y
        x, y, z = d.args
        if val and cint(z) == 0:
            return implied(f, x, True, depth + 1, path, ops) + implied(f, y, True, depth + 1, path, ops)
        if not val and cint(y) in (1, -1):
            return implied(f, x, False, depth + 1, path, ops) + implied(f, z, False, depth + 1, path, ops)
    return []


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
REL = {"eq": LE | GE, "ult": LE, "ule": LE, "slt": LE, "sle": LE, "ugt": GE, "uge": GE, "sgt": GE, "sge": GE, "ne": 0}


def check(ck, prog):
    n = 0
    for f in prog.jobs["f"]:
        base = prog.base(f.name)
        kind = next((k for r, k in SPEC if re.match(r, base)), None)
        if kind is None:
            continue
        T = Taint(f, frozen="fields")
        w = "::".join(base.split("::")[2:])
        args = f.d["args"]
        first = next((k for k, a in enumerate(args) if a.get("n") == "this"), -1) + 1
        rest = ["a%d" % k for k in range(first, len(args)) if not args[k].get("sret")]
        if kind in (PAIR, "compare"):
            v = [a for a in rest if a in T.vecs]
            if len(v) != 2:
                continue
            subj, other = lab(v[0]), lab(v[1])
        elif kind == FIXED:
            v = [a for a in rest if a in T.vecs]
            if len(v) != 1:
                continue
            subj, other = lab(v[0]), None
        elif kind == ITER:
            if len(rest) < 2:
                continue
            v = rest
            subj, other = {("A", a) for a in rest}, None
        else:
            v = rest[:1]
            subj, other = {("A", v[0])}, "field"
        n += 1
        walk(ck, prog, f, T, w, kind, v, subj, other, base.split("::")[-1])
    ck.fact("operations", n)
    fft(ck, prog)


def lab(a):
    return {("N", a), ("D", a)}


def relations(f, T, c, val, subj, other, path=None):
    bits, hit = 0, []
    for d, truth in implied(f, c, val, 0, path):
        p = d.get("pred")
        if p not in NEG:
            continue
        if not truth:
            p = NEG[p]
        x, y = d.args
        s = f.defs.get(x)
        if cint(y) == 0 and s is not None and s.op == "sub" and p in ("eq",):
            x, y = s.args
        lx, ly = T.val(x), T.val(y)

        def is_s(v, l):
            return l and l <= subj and size_like(f, v)

        def is_o(v, l):
            if other is None:
                return l and not l & subj and not is_const(v) and plain(f, T, v)
            if other == "field":
                return l and all(z[0] == "F" for z in l) and size_like(f, v)
            return l and l <= other and size_like(f, v)
        if is_s(x, lx) and is_o(y, ly):
            bits |= REL[p]
        elif is_s(y, ly) and is_o(x, lx):
            bits |= {LE: GE, GE: LE, 0: 0, 3: 3}[REL[p]]
    return bits


def walk(ck, prog, f, T, w, kind, v, subj, other, method):
    first = []

    def touches(i):
        """does i touch the sequence's elements; 'same' when it hands it to the same operation of a part"""
        if i.op in ("load", "store"):
            p = i.args[0] if i.op == "load" else i.args[1]
            b, o, vo = addr(f, p)
            d = f.defs.get(b)
            if kind in (PAIR, FIXED, "compare"):
                return b not in v and T.root(p) in v and d is not None and d.op == "load"
            if kind == ITER:
                return d is not None and d.op in ("load", "phi") and T.val(b) and T.val(b) <= subj and (i.op == "store" or T.val(i.id) is not None) and i.get("t") in ("i64", None)
            if d is not None and d.op == "load" and i.op == "store":
                return bool(T.val(b) & subj) or T.root(p) not in ("a0",) and isinstance(T.root(p), tuple) and i.get("t") is None and bitstore(f, i)
            return False
        if i.is_call():
            n = prog.dem(i.callee) if i.callee else ""
            if i.get("v"):
                m = prog.vslot_name(i.d["v"])[1]
            else:
                m = prog.base(i.callee).split("::")[-1] if i.callee else ""
            hit = False
            for x in i.args:
                if not isinstance(x, str) or is_const(x):
                    continue
                b, o, vo = addr(f, x)
                if kind in (PAIR, FIXED, "compare"):
                    d = f.defs.get(b)
                    hit |= b in v or T.root(x) in v and d is not None and d.op == "load" and not vo
                elif kind == ITER:
                    l = T.val(x) if f.defs.get(b) is None or f.defs[b].op != "alloca" else T.deep(x)
                    hit |= bool(l) and l <= subj
                else:
                    hit |= b in v and o > 0 or T.root(x) in v and b not in v
            if not hit:
                return False
            if m == method and (kind != FIXED or i.get("v")):
                return "same"
            if m.startswith("~") or re.match(r"llvm\.(lifetime|dbg|memcpy)", i.callee or "") and kind == ITER:
                return False
            if HARMLESS.search(n):
                return False
            if kind == "cross" and not re.search(r"_Bit_reference|swap|copy|operator=", n):
                return False
            return True
        return False

    def step(i, s):
        t = touches(i)
        if t == "same":
            return [("n", LE | GE)]
        if t and s != LE | GE:
            first.append(i)
        if i.is_call() and i.callee == "__cxa_throw":
            return [("t", STD, s)]
        return [("n", s)]

    def branch(c, val, s, path):
        return s | relations(f, T, c, val, subj, other, path)
    branch.wants_path = True
    exits, nn = explore(f, 0, step, branch=branch)
    ck.count("states", nn)
    bad = None
    for e in exits:
        if e[0] == "ret" and e[2] != LE | GE:
            if kind == "compare":
                rv = on_path(f, e[1].args[0], e[3])
                if e[4] is not None and not e[4] & 1 or cint(rv) is not None and not cint(rv) & 1 or relations(f, T, rv, True, subj, other, e[3]) == LE | GE:
                    continue
            bad = bad or trace(e[3])
    what = {PAIR: "that the two lengths agree", FIXED: "that the length is the required one", ITER: "that the chromosome has the required length",
            "compare": "that the two lengths agree", "cross": "that the two chromosomes have the same length"}[kind]
    ck.ob("guard", w, bad is None, "returns normally on a path that has not established %s: %s" % (what, bad) if bad else "", "guard:" + w)
    ck.ob("guard-first", w, not first or bad is not None, "elements are touched at %s before it is established %s" % (first[0].repo_loc, what) if first and bad is None else "", "guard-first:" + w)


def bitstore(f, i):
    return True


def fft(ck, prog):
    """the compared length is the constructor's"""
    for f in prog.jobs["f"]:
        if not prog.base(f.name).endswith("Transform::Transform") and not prog.base(f.name).endswith("Impl::Transform"):
            continue
        if "Impl" not in f.name and any("Impl::Transform" in g.dem for g in prog.jobs["f"]):
            continue
        T = Taint(f, frozen="fields")
        offs = set()
        for b in f.blocks:
            t = b[-1]
            if t.op == "br" and "cond" in t.d:
                for val in (True, False):
                    for d, _ in implied(f, t.d["cond"], val):
                        if any(size_like(f, x) and T.val(x) for x in d.args):
                            for x in d.args:
                                e = f.defs.get(x)
                                if e is not None and e.op == "load" and addr(f, e.args[0])[0] == T.this:
                                    offs.add(addr(f, e.args[0])[1])
        if not offs:
            ck.count("undecided")
            continue
        cls = prog.base(f.name).rpartition("::")[0]
        cs = [c for c in prog.jobs["c"] if prog.base(c.name).rpartition("::")[0] == cls]
        for c in cs:
            vals = {i.args[0] for i in c.insts() if i.op == "store" and addr(c, i.args[1])[0] == "a0" and addr(c, i.args[1])[1] in offs}
            ok = vals == {"a1"}
            if not vals:
                ck.count("undecided")
                continue
            ck.ob("same-length", prog.base(c.name), ok, "the length compared on every transform is not the one the constructor was given", "same-length:" + cls)
