"""The binary coding of discrete parameters is lossless: decoding undoes encoding."""
import re
from ir import ACCESSORS
from flow import const
from bits import BitLoop, add, ZERO

EXPLANATION = """
Encoding and decoding of each kind of discrete parameter are flattened (private helpers inlined) and their loops over chromosome elements are
brought into closed form: position of the element handled in iteration k, number of the bit it stands for, and under which condition it is
written or counted. Rules: bits (element p stands for the same bit in both directions, every element from the first to the last is handled, and
distinct elements stand for distinct bits beginning with the lowest), polarity (an element is set exactly for the bits that decoding counts), linear (what is encoded is the value minus the offset that decoding adds; a real
value is divided by the step decoding multiplies with and rounded to the nearest code), size (the number of elements of an integer parameter is
large enough for its largest code, counted without overflow), step (a real parameter's step is the range divided by its largest code, which is not
smaller than the wanted number of steps), slices (arrays and composites hand element i the same consecutive range of exactly its own size in both directions, beginning at the start of the range, and set or read
the value of the same element next to it), total (the length of an array or composite is the sum over its elements).
"""
TECHNIQUE = "closed forms of the loops over chromosome elements (position, bit number, condition), compared between the encoding and the decoding function; symbolic iterator ranges for slices"
LEVEL_NOTE = """Integer and real parameters, parameter arrays and composites, for all ranges, sizes and values inside the limits; loops without a recognisable closed form are listed as undecided. Floating-point rounding of the final value is taken to stay below half a step."""
ASSUMPTIONS = ["codes lie between 0 and the largest code, as the constraints of the parameters demand"]
P = r"^k52::optimization::"
ELEM = [P + r"[A-Za-z]*::(SetChromosome|SetFromChromosome|GetChromosomeSize)\("]
STD = [r"^std::", r"^boost::shared_ptr<.*>::(~?shared_ptr|operator=|reset|swap)", r"^boost::[a-np-z]"]
UNITS = r"^src/(optimization|common)/"
JOBS = [{"id": "int", "roots": [P + r"IntParameter::(SetChromosome|SetFromChromosome|IntParameter)\("], "opaque": STD, "inline": ACCESSORS},
        {"id": "double", "roots": [P + r"DoubleParameter::(GetValue|SetValue|DoubleParameter|SetChromosome|SetFromChromosome)\("],
         "opaque": STD + [P + r"IntParameter::(SetChromosome|SetFromChromosome|IntParameter|get_value|set_value)\(", P + r"DoubleParameter::SetValue\("], "inline": ACCESSORS},
        {"id": "total", "roots": [P + r"(DoubleParametersArray::DoubleParametersArray\(double|CompositeDiscreteParameters::Initialize\()"],
         "opaque": STD + ELEM + [P + r"DoubleParameter::(DoubleParameter|GetValue|SetValue)\("], "inline": ACCESSORS},
        {"id": "size", "roots": [P + r"ConstChromosomeSizeParemeters::GetChromosomeSize\("], "opaque": STD, "inline": ACCESSORS},
        {"id": "slices", "roots": [P + r"(DoubleParametersArray|CompositeDiscreteParameters)::(SetChromosome|SetFromChromosome)\("],
         "opaque": STD + ELEM + [P + r"DoubleParameter::(GetValue|SetValue)\("], "inline": ACCESSORS}]
MINIMUM = {}


class Loop(BitLoop):
    size_off = None
    self_off = ()

    def size_of(self, d):
        """the length of the range: the stored chromosome size, which the guard has compared with it"""
        p = self.f.defs.get(d.args[0]) if d.op == "load" else None
        if p is not None and p.op == "getelementptr" and p.d["p"] == "a0" and p.d.get("off") == self.size_off and not p.d.get("vo"):
            return ("size", 0, 0)
        n = length(self.f, d.id)
        return ("len%s" % str(n), 0, 0) if n else None


def linear(f, v, phis=(), depth=0):
    """{leaf: coefficient} over own fields, given phis and unknowns"""
    c = const(v)
    if c is not None:
        return {1: c} if c else {}
    d = f.defs.get(v) if isinstance(v, str) else None
    if v in phis:
        return {("cut", d.repo_loc): 1} if d is not None and d.d.get("t") in ("i8", "i16", "i1") else {("R",): 1}
    if d is None or depth > 12:
        return {("?", v): 1}
    if d.op in ("zext", "sext", "freeze"):
        return linear(f, d.args[0], phis, depth + 1)
    if d.op == "trunc":
        if d.d.get("t") in ("i8", "i16", "i1"):
            return {("cut", d.repo_loc): 1}
        return linear(f, d.args[0], phis, depth + 1)
    if d.op in ("add", "sub"):
        r = dict(linear(f, d.args[0], phis, depth + 1))
        for k, x in linear(f, d.args[1], phis, depth + 1).items():
            r[k] = r.get(k, 0) + (x if d.op == "add" else -x)
        return {k: x for k, x in r.items() if x}
    if d.op == "ashr":
        e = f.defs.get(d.args[0])
        if e is not None and e.op == "shl" and e.args[1] == d.args[1] and const(d.args[1]) is not None:
            return {("cut", d.repo_loc): 1}
    if d.op == "and" and const(d.args[1]) in (255, 65535, 127, 32767):
        return {("cut", d.repo_loc): 1}
    if d.op == "load":
        p = f.defs.get(d.args[0])
        if p is not None and p.op == "getelementptr" and p.d["p"] == "a0" and not p.d.get("vo"):
            return {("f", p.d.get("off", 0)): 1}
    return {("?", v): 1}


def mixes(f, v, phis, depth=0):
    """{s: bit j of v depends on bit j + s of the value or code}; None when unknown"""
    l = linear(f, v, phis)
    if not any(isinstance(k, tuple) and k[0] in ("?", "cut") for k in l):
        return {0} if any(k != 1 for k in l) else set()
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 10:
        return None
    if d.op in ("zext", "sext", "freeze", "trunc"):
        return mixes(f, d.args[0], phis, depth + 1)
    if d.op in ("shl", "lshr", "ashr"):
        k = const(d.args[1])
        a = mixes(f, d.args[0], phis, depth + 1)
        return None if k is None or a is None else {x + (-k if d.op == "shl" else k) for x in a}
    if d.op in ("xor", "or", "and"):
        a, b = mixes(f, d.args[0], phis, depth + 1), mixes(f, d.args[1], phis, depth + 1)
        return None if a is None or b is None else a | b
    if d.op in ("add", "sub"):
        # an offset outside the mixed code
        a, b = mixes(f, d.args[0], phis, depth + 1), linear(f, d.args[1], ())
        if a is None and d.op == "add":
            a, b = mixes(f, d.args[1], phis, depth + 1), linear(f, d.args[0], ())
        return a if a is not None and all(k == 1 or k[0] == "f" for k in b) else None
    return None


# ---- integers ---------------------------------------------------------------------------------------------
def bit_of(L, v, sel, depth=0):
    """v as a truth value: (coded value, bit number, polarity)"""
    d = L.f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 10:
        return None
    if d.op == "phi" and d.id in sel:
        return bit_of(L, sel[d.id], sel, depth + 1)
    if d.op == "icmp" and d.d["pred"] in ("eq", "ne", "ugt", "sgt"):
        c = const(d.args[1])
        o = d.args[0]
        if c is None:
            c, o = const(d.args[0]), d.args[1]
        if c is None:
            # (value & mask) == mask
            for x, y in ((0, 1), (1, 0)):
                m = masked(L, d.args[x], sel)
                if m and L.weight(d.args[y], sel) == m[1] and d.d["pred"] in ("eq", "ne"):
                    return m[0], m[1], d.d["pred"] == "eq"
            return None
        m = masked(L, o, sel)
        if m is None:
            b = bit_of(L, o, sel, depth + 1)
            if b is None or c not in (0, 1):
                return None
            return b[0], b[1], b[2] == ((c == 1) == (d.d["pred"] == "eq"))
        if c == 0:
            return m[0], m[1], d.d["pred"] != "eq"
        if c == 1 and m[1] == ZERO or m[2] and c == 1:
            return m[0], m[1], d.d["pred"] == "eq"
        return None
    if d.op == "trunc" and d.d.get("t") == "i1":
        m = low(L, d.args[0], sel)
        return (m[0], m[1], True) if m else None
    if d.op == "xor" and any(x in ("#-1", "#1") for x in d.args):
        b = bit_of(L, d.args[0] if d.args[1] in ("#-1", "#1") else d.args[1], sel, depth + 1)
        return (b[0], b[1], not b[2]) if b else None
    if d.op in ("zext", "freeze"):
        return bit_of(L, d.args[0], sel, depth + 1)
    if d.op == "select" and len(d.args) == 3:
        b = bit_of(L, d.args[0], sel, depth + 1)
        x, y = const(d.args[1]), const(d.args[2])
        if b and x is not None and y is not None and (x == 0) != (y == 0):
            return b[0], b[1], b[2] == (x != 0)
    m = low(L, v, sel)
    if m and m[2]:
        return m[0], m[1], True
    return None


def low(L, v, sel, depth=0):
    """the lowest bit of v is bit n of a value: (value, n, v has no other bits)"""
    d = L.f.defs.get(v) if isinstance(v, str) else None
    if d is None:
        return (v, ZERO, False) if isinstance(v, str) and v.startswith("a") else None
    if depth > 10:
        return None
    if d.op == "ashr" and const(d.args[1]) is not None:
        e = L.f.defs.get(d.args[0])
        if e is not None and e.op == "shl" and e.args[1] == d.args[1]:
            return v, ZERO, False           # a value cut to fewer bits
    if d.op == "shl" and const(d.args[1]) is not None:
        x = low(L, d.args[0], sel, depth + 1)
        return (x[0], add(x[1], (None, const(d.args[1]), 0), -1), False) if x else None
    if d.op in ("lshr", "ashr"):
        x = low(L, d.args[0], sel, depth + 1)
        return (x[0], add(x[1], L.lin(d.args[1], sel)), False) if x and add(x[1], L.lin(d.args[1], sel)) else None
    if d.op in ("sdiv", "udiv"):
        w = L.weight(d.args[1], sel)
        x = low(L, d.args[0], sel, depth + 1)
        return (x[0], add(x[1], w), False) if x and w and add(x[1], w) else None
    if d.op == "and" and const(d.args[1]) == 1 or d.op in ("srem", "urem") and const(d.args[1]) == 2:
        x = low(L, d.args[0], sel, depth + 1)
        return (x[0], x[1], True) if x else None
    if d.op in ("trunc", "zext", "sext", "freeze") and d.d.get("t") != "i1":
        return low(L, d.args[0], sel, depth + 1)
    p = L.header_phi(v)
    if p:
        n = L.f.defs.get(p[1])
        if n is not None and n.args and n.args[0] == v and (n.op in ("lshr", "ashr") and const(n.args[1]) is not None or n.op in ("sdiv", "udiv") and const(n.args[1]) == 2):
            return p[0], (None, 0, const(n.args[1]) if n.op in ("lshr", "ashr") else 1), False
        return None
    if d.op == "phi" and d.id in sel:
        return low(L, sel[d.id], sel, depth + 1)
    return v, ZERO, False


def masked(L, v, sel):
    """v is zero exactly if bit n of a value is: (value, n, v is 0 or 1)"""
    d = L.f.defs.get(v) if isinstance(v, str) else None
    if d is None:
        return None
    if d.op in ("zext", "freeze"):
        return masked(L, d.args[0], sel)
    if d.op == "phi" and d.id in sel:
        return masked(L, sel[d.id], sel)
    if d.op == "and" or d.op in ("srem", "urem"):
        m = low(L, v, sel)
        if m and m[2]:
            return m
    if d.op == "and":
        for x, y in ((0, 1), (1, 0)):
            w = L.weight(d.args[x], sel)
            m = low(L, d.args[y], sel)
            if w and m and not m[2]:
                n = add(w, m[1])
                return (m[0], n, False) if n else None
    return None


def element(L, v, env, sel, depth=0):
    """v as a truth value of a chromosome element: (position, polarity)"""
    e = L.value(v, env) if isinstance(v, str) else None
    if e and e[0] == "BIT":
        return e[1], True
    d = L.f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 8:
        return None
    if d.op in ("zext", "trunc", "freeze"):
        return element(L, d.args[0], env, sel, depth + 1)
    if d.op == "phi" and d.id in sel:
        return element(L, sel[d.id], env, sel, depth + 1)
    if d.op == "xor" and any(x in ("#-1", "#1") for x in d.args):
        x = element(L, d.args[0], env, sel, depth + 1)
        return (x[0], not x[1]) if x else None
    if d.op == "icmp" and d.d["pred"] in ("eq", "ne") and const(d.args[1]) in (0, 1):
        x = element(L, d.args[0], env, sel, depth + 1)
        return (x[0], x[1] == ((const(d.args[1]) == 1) == (d.d["pred"] == "eq"))) if x else None
    return None


def canonical(pos, bit):
    """the bit number as a function of the position: (direction, offset form)"""
    if pos is None or bit is None or pos[2] not in (1, -1) or bit[2] not in (1, -1):
        return None
    if pos[2] == bit[2]:
        o = add((bit[0], bit[1], 0), (pos[0], pos[1], 0), -1)
        return ("+", o) if o else None
    o = add((bit[0], bit[1], 0), (pos[0], pos[1], 0))
    return ("-", o) if o else None


GOOD = (("+", ZERO), ("-", ("size", -1, 0)))


def sane(c):
    """False if the mapping certainly drops a bit, None if unknown"""
    if c is None:
        return None
    if c in GOOD:
        return True
    if c[1][0] is None and c[0] == "+" or c[1][0] == "size" and c[0] == "-":
        return False
    return None


def covers(L, res):
    """(True|False|None, why): the loop handles every element exactly once and ends only after the last"""
    pos = res["pos"]
    if pos is None:
        return None, ""
    first_up = pos[2] == 1 and pos[:2] == (None, 0)
    first_down = pos[2] == -1 and pos[:2] == ("size", -1)
    if pos[2] == 1 and pos[0] is None and not first_up:
        return False, "the loop begins at element %d" % pos[1]
    if pos[2] == -1 and pos[0] == "size" and not first_down:
        return False, "the loop begins at element size%+d" % pos[1]
    if abs(pos[2]) > 1 and pos[0] is None:
        return False, "the loop handles only every element number %d" % abs(pos[2])
    if not (first_up or first_down):
        return None, ""
    ends = []
    for bs, cs, end, mem, env, events, sel in L.results:
        if end == "latch":
            continue
        while cs:
            cond, lab = cs[-1]
            d = L.f.defs.get(cond)
            if d is not None and d.op == "phi" and d.id in sel and const(sel[d.id]) is not None:
                cs = cs[:-1]                # decided by an earlier condition of the path
                continue
            break
        else:
            cond = lab = None
        ends.append((last_element(L, cond, lab, env, sel, pos), L.f.blocks[end[0]][-1].repo_loc))
    if not ends:
        return None, ""
    for e, w in ends:
        if e is False:
            return False, "the loop may end before the last element (%s)" % w
    return (True, "") if all(e for e, w in ends) else (None, "")


def last_element(L, cond, lab, env, sel, pos, depth=0):
    """leaving under this condition means that iteration k = size has been reached: True, False or None"""
    d = L.f.defs.get(cond) if isinstance(cond, str) else None
    if d is None or depth > 6:
        return None
    if d.op == "xor" and any(x in ("#-1", "#1") for x in d.args):
        return last_element(L, d.args[0], "f" if lab == "t" else "t", env, sel, pos, depth + 1)
    if d.op == "phi" and d.id in sel:
        return last_element(L, sel[d.id], lab, env, sel, pos, depth + 1)
    if d.op == "select" and (const(d.args[1]) in (1, -1) and lab == "t" or const(d.args[2]) == 0 and lab == "f"):
        o = d.args[2] if lab == "t" else d.args[1]
        rs = [last_element(L, y, lab, env, sel, pos, depth + 1) for y in (d.args[0], o)]
        return False if False in rs else True if all(rs) else None
    x = L.value(d.id, env)
    rel = a = b = None
    if x and x[0] == "CMP":
        rel = {"operator!=": "ne", "operator==": "eq", "operatorLT": "lt", "operatorGT": "gt", "operatorLE": "le", "operatorGE": "ge"}[x[1]]
        a, b = (L.position(x[2]) if x[2] else None), (L.position(x[3]) if x[3] else None)
    elif d.op == "icmp":
        rel = d.d["pred"].lstrip("us") if d.d["pred"] not in ("eq", "ne") else d.d["pred"]
        a, b = L.lin(d.args[0], sel), L.lin(d.args[1], sel)
        if a is None or b is None:
            if bit_of(L, cond, sel) or element(L, cond, env, sel) or depends(L, cond):
                return False
            return None
    if a is None or b is None:
        return False if element(L, cond, env, sel) or bit_of(L, cond, sel) else None
    if lab == "f":
        rel = {"ne": "eq", "eq": "ne", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}.get(rel)
    # the bound reached: the smallest k with a rel b
    diff = add(a, b, -1)          # sym + c + s*k
    if diff is None or not diff[2] or abs(diff[2]) != 1:
        return None
    sym, c, s = diff
    if s == -1:                   # turn into k - bound
        sym = {None: None, "size": "-size", "-size": "size"}[sym]
        c = -c
        rel = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(rel, rel)
    # now  k + c (+ sym)  rel  0
    if rel == "gt":
        c -= 1
        rel = "ge"
    if rel not in ("ge", "eq"):
        return None
    if sym == "-size":
        return c == 0            # leaves when k == size - c
    if sym is None:
        return None if c >= 0 else False
    return None


def depends(L, v, depth=0):
    """the condition depends on the coded value that is shifted away or collected in the loop"""
    d = L.f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 6:
        return False
    p = L.header_phi(v)
    if p:
        n = L.f.defs.get(p[1])
        return n is not None and n.op in ("lshr", "ashr", "sdiv", "udiv")
    if d.op in ("lshr", "ashr"):
        n = L.lin(d.args[1], {})
        return n is not None and n[2] != 0
    return any(depends(L, x, depth + 1) for x in d.args if isinstance(x, str)) if d.op in ("icmp", "and", "or", "xor", "zext", "trunc", "sext", "select") else False


def encoding(ck, L):
    """what the loop writes: {"pos", "bit", "pol", "value"} or None"""
    res, ok = None, True
    for bs, cs, end, mem, env, events, sel in L.results:
        if end != "latch":
            continue
        ws = [e for e in events if e[0] == "write"]
        if len(ws) != 1:
            return None if ws or L.pre_opaque else {"bad": "an element is left as it was", "loc": L.f.loc}
        e = ws[0]
        pos = L.position(e[2]) if e[2] else None
        c = const(e[3])
        got = None
        if c is not None:
            tests = [(bit_of(L, x, sel), l) for x, l in cs]
            tests = [(b, l) for b, l in tests if b]
            if not tests:
                return None
            if len(tests) > 1:
                return None
            b, l = tests[0]
            bit_set = (b[2] == (l == "t"))
            got = {"pos": pos, "bit": b[1], "pol": bit_set == (c != 0), "value": b[0]}
        else:
            b = bit_of(L, e[3], sel)
            if b is None:
                return None
            got = {"pos": pos, "bit": b[1], "pol": b[2], "value": b[0]}
        got["loc"] = e[1].repo_loc
        if res is None:
            res = got
        elif (res["pos"], res["bit"], res["value"]) != (got["pos"], got["bit"], got["value"]):
            return {"bad": "the element written depends on more than one bit", "loc": got["loc"]} if None not in (res["pos"], got["pos"], res["bit"], got["bit"]) else None
        elif res["pol"] != got["pol"]:
            return {"bad": "the element does not depend on the bit", "loc": got["loc"]}
    return res


def update(L, v, phi, env, sel, depth=0):
    """how an iteration changes the result: ("keep"), ("set", n), ("clear", n), ("horner", element), ("elem", n, element), or None"""
    if v == phi:
        return ("keep",)
    d = L.f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 10:
        return None
    if d.op in ("zext", "trunc", "sext", "freeze"):
        return update(L, d.args[0], phi, env, sel, depth + 1)
    if d.op == "phi" and d.id in sel:
        return update(L, sel[d.id], phi, env, sel, depth + 1)
    if d.op in ("or", "add"):
        for x, y in ((0, 1), (1, 0)):
            base, o = d.args[x], d.args[y]
            if strip(L, base) == phi:
                if const(o) == 0:
                    return ("keep",)
                w = L.weight(o, sel)
                if w:
                    return ("set", w)
                s = scaled(L, o, env, sel)
                return ("elem",) + s if s else None
            b = L.f.defs.get(base) if isinstance(base, str) else None
            if doubled(L, base, phi):
                if const(o) == 1:
                    return ("horner", 1)
                if const(o) == 0:
                    return ("horner", 0)
                e = element(L, o, env, sel)
                return ("horner", e) if e else None
            if b is not None and b.op in ("and", "or", "add"):
                u = update(L, base, phi, env, sel, depth + 1)
                if u and u[0] == "clear":
                    s = scaled(L, o, env, sel)
                    if s and s[0] == u[1]:
                        return ("elem",) + s
    if doubled(L, v, phi):
        return ("horner", 0)
    if d.op == "and":
        for x, y in ((0, 1), (1, 0)):
            if strip(L, d.args[x]) == phi:
                m = L.f.defs.get(d.args[y])
                if m is not None and m.op == "xor" and "#-1" in m.args:
                    w = L.weight(next(z for z in m.args if z != "#-1"), sel)
                    return ("clear", w) if w else None
    if d.op == "select":
        a, b = update(L, d.args[1], phi, env, sel, depth + 1), update(L, d.args[2], phi, env, sel, depth + 1)
        e = element(L, d.args[0], env, sel)
        if a and b and e:
            return ("choice", e, a, b)
    return None


def strip(L, v):
    for _ in range(4):
        d = L.f.defs.get(v) if isinstance(v, str) else None
        if d is None or d.op not in ("zext", "trunc", "sext", "freeze"):
            return v
        v = d.args[0]
    return v


def doubled(L, v, phi):
    d = L.f.defs.get(strip(L, v)) if isinstance(v, str) else None
    return d is not None and (d.op == "shl" and const(d.args[1]) == 1 and strip(L, d.args[0]) == phi or
                              d.op == "mul" and const(d.args[1]) == 2 and strip(L, d.args[0]) == phi or d.op == "add" and d.args[0] == d.args[1] == phi)


def scaled(L, v, env, sel, depth=0):
    """element * 2**n: (n, element)"""
    e = element(L, v, env, sel)
    if e:
        return ZERO, e
    d = L.f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 6:
        return None
    if d.op in ("zext", "sext", "trunc"):
        return scaled(L, d.args[0], env, sel, depth + 1)
    if d.op == "shl":
        s, n = scaled(L, d.args[0], env, sel, depth + 1), L.lin(d.args[1], sel)
        return (add(s[0], n), s[1]) if s and n and add(s[0], n) else None
    if d.op == "mul":
        for x, y in ((0, 1), (1, 0)):
            s, w = scaled(L, d.args[x], env, sel, depth + 1), L.weight(d.args[y], sel)
            if s and w and add(s[0], w):
                return add(s[0], w), s[1]
    if d.op == "select":
        e, w = element(L, d.args[0], env, sel), None
        if e:
            x, y = d.args[1], d.args[2]
            if const(y) == 0 and L.weight(x, sel):
                return L.weight(x, sel), e
            if const(x) == 0 and L.weight(y, sel):
                return L.weight(y, sel), (e[0], not e[1])
    if d.op == "phi" and d.id in sel:
        return scaled(L, sel[d.id], env, sel, depth + 1)
    return None


def decoding(ck, L):
    """what the loop reads: {"pos", "bit", "pol", "value": phi of the result}"""
    f = L.f
    best = None
    for i in f.blocks[L.loop.header]:
        if i.op != "phi" or L.lin(i.id, {}) or L.weight(i.id, {}):
            continue
        r = decode_phi(L, i)
        if r:
            if best is None or "bad" in best:
                best = r
    return best


def decode_phi(L, phi):
    pos = bit = None
    pols = set()
    loc = phi.repo_loc
    ini = next((v for q, v in phi.args if q not in L.loop.body), None)
    seen = {}
    for bs, cs, end, mem, env, events, sel in L.results:
        if end != "latch":
            continue
        nv = next((v for q, v in phi.args if q == bs[-1]), None)
        u = update(L, nv, phi.id, env, sel)
        if u is None:
            return None
        reads = [e for e in events if e[0] == "read"]
        if not reads:
            return None
        outs = []
        if u[0] in ("elem", "horner", "choice") and not (u[0] == "horner" and u[1] in (0, 1)):
            e = u[2] if u[0] == "elem" else u[1]
            if u[0] == "choice":
                outs = [(e[0], e[1], u[2]), (e[0], not e[1], u[3])]
            elif u[0] == "elem":
                outs = [(e[0], e[1], ("set", u[1])), (e[0], not e[1], ("keep",))]
            else:
                outs = [(e[0], e[1], ("horner", 1)), (e[0], not e[1], ("horner", 0))]
        else:
            conds = [(element(L, c, env, sel), l) for c, l in cs]
            conds = [(e, l) for e, l in conds if e]
            if len(conds) != 1:
                return None
            e, l = conds[0]
            outs = [(e[0], e[1] == (l == "t"), u)]
        for it, val, x in outs:
            p = L.position(it) if it else None
            if pos is None:
                pos = p
            elif pos != p:
                return None
            seen.setdefault(val, []).append(x)
    if pos is None:
        return None
    counted = {}
    for val, xs in seen.items():
        for x in xs:
            if x[0] == "set":
                b, c = x[1], True
            elif x[0] == "clear":
                b, c = x[1], False
            elif x[0] == "horner":
                # the element read last is bit 0
                b, c = add(("size", -1, 0), (None, 0, 1), -1), x[1] == 1
            else:
                b, c = None, False
            if b is not None:
                if bit is None:
                    bit = b
                elif bit != b:
                    return {"bad": "different bits are set and cleared for one element", "loc": loc}
            if counted.setdefault(val, c) != c:
                return None
    if bit is None:
        return None
    if counted.get(True) == counted.get(False):
        return {"bad": "the bit does not depend on the element", "loc": loc}
    if const(ini) != 0 and not all(any(x[0] in ("set", "clear") for x in xs) for xs in seen.values()):
        return None
    return {"pos": pos, "bit": bit, "pol": bool(counted.get(True)), "value": phi.id, "loc": loc}


def bit_loops(f, args, prog, size_off):
    r = []
    for l in f.loops():
        Loop.size_off = size_off
        L = Loop(f, l, args, lambda i: prog.base(i.callee) if i.callee else "::".join(prog.vslot_name(i.d["v"])) if i.d.get("v") else "")
        if any(e[0] in ("read", "write", "pass") for x in L.results for e in x[5]):
            r.append(L)
    return r


def integers(ck, prog, size_off):
    fs = {prog.base(f.name).split("::")[-1]: f for f in prog.jobs["int"] if not prog.base(f.name).endswith("IntParameter::IntParameter")}
    enc, dec = fs.get("SetChromosome"), fs.get("SetFromChromosome")
    if not enc or not dec:
        ck.count("undecided")
        return None
    E, D = bit_loops(enc, (1, 2, 3, 4), prog, size_off), bit_loops(dec, (1, 2, 3, 4), prog, size_off)
    if len(E) != 1 or len(D) != 1:
        ck.count("undecided")
        return None
    e, d = encoding(ck, E[0]), decoding(ck, D[0])
    for x, f, w in ((e, enc, "encoding"), (d, dec, "decoding")):
        if x and "bad" in x:
            ck.ob("bits", x["loc"], False, "%s: %s" % (w, x["bad"]), "bits@" + w)
    for x, L, w in ((e, E[0], "encoding"), (d, D[0], "decoding")):
        if not x or "bad" in x:
            continue
        c, why = covers(L, x)
        if c is None:
            ck.count("undecided")
        else:
            ck.ob("bits", x["loc"], c, "%s: %s" % (w, why), "cover@" + w)
    if e and d and "bad" not in e and "bad" not in d:
        ce, cd = canonical(e["pos"], e["bit"]), canonical(d["pos"], d["bit"])
        if ce is None or cd is None:
            # a constant bit number or one that does not step with the elements
            for x, c, w in ((e, ce, "encoding"), (d, cd, "decoding")):
                if x["pos"] and x["bit"] and x["pos"][2] in (1, -1) and x["bit"][2] not in (1, -1) and x["bit"][0] is None:
                    ck.ob("bits", x["loc"], False, "%s: neighbouring elements do not stand for neighbouring bits" % w, "bits@" + w)
            ck.count("undecided")
        else:
            ck.ob("bits", d["loc"], ce == cd, "the bit an element stands for differs between encoding (%s) and decoding (%s)" % (form(ce), form(cd)), "bits@order")
            s = sane(ce)
            if ce == cd and s is not None:
                ck.ob("bits", e["loc"], s, "element p stands for bit %s: the lowest bits are lost" % form(ce), "bits@offset")
        ck.ob("polarity", d["loc"], e["pol"] == d["pol"], "an element that is set for a bit of one is decoded as a bit of zero", "polarity")
    # the coded value
    if e and "bad" not in e and d and "bad" not in d:
        ev = linear(enc, e["value"])
        n = 0
        for i in dec.insts():
            if i.op != "store":
                continue
            p = dec.defs.get(i.args[1])
            if p is None or p.op != "getelementptr" or p.d["p"] != "a0" or p.d.get("vo"):
                continue
            dv = linear(dec, i.args[0], (d["value"],))
            if ("R",) not in dv and not any(isinstance(k, tuple) and k[0] == "cut" for k in dv):
                continue
            n += 1
            fld = ("f", p.d.get("off", 0))
            cut = [k for k in list(ev) + list(dv) if isinstance(k, tuple) and k[0] == "cut"]
            if cut:
                ck.ob("linear", i.repo_loc if cut[0][1].endswith(":0") else cut[0][1], False, "the code is cut to fewer bits than its range needs", "linear@cut")
                continue
            if any(isinstance(k, tuple) and k[0] == "?" for k in list(ev) + list(dv)):
                eb, db = mixes(enc, e["value"], ()), mixes(dec, i.args[0], (d["value"],))
                if eb is not None and db is not None and (eb == {0}) != (db == {0}):
                    ck.ob("linear", i.repo_loc, False, "%s combines several bits of the code into one element, %s takes elements for bits as they are"
                          % (("decoding", "encoding") if eb == {0} else ("encoding", "decoding")), "linear@mixed")
                    continue
                ck.count("undecided")
                continue
            c = ev.get(fld, 0)
            tot = {k: x for k, x in ev.items() if k != fld}
            for k, x in dv.items():
                tot[k] = tot.get(k, 0) + c * x
            tot = {k: x for k, x in tot.items() if x}
            ck.ob("linear", i.repo_loc, tot == {("R",): 1}, "encoding what decoding stores does not give the code back: offsets differ", "linear@int")
        if not n:
            ck.count("undecided")
    return True


def form(c):
    o = c[1]
    t = " ".join(x for x in (o[0] or "", "%+d" % o[1] if o[1] else "") if x)
    return ("p " if c[0] == "+" else "-p ") + t


# ---- number of elements ---------------------------------------------------------------------------------------
def fields(f, off):
    """stores to the own field at the offset"""
    for i in f.insts():
        if i.op == "store":
            p = f.defs.get(i.args[1])
            if p is not None and p.op == "getelementptr" and p.d["p"] == "a0" and not p.d.get("vo") and p.d.get("off") == off:
                yield i


def power(f, v, loop, phis, n, depth=0):
    """v in the loop as A*2**n + B, where n is the counter: (A numerator exponent, B)"""
    c = const(v)
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 8:
        return None
    if d.op in ("zext", "sext"):
        return power(f, d.args[0], loop, phis, n, depth + 1)
    if d.op == "shl" and const(d.args[0]) is not None and const(d.args[0]) > 0:
        a = const(d.args[0])
        x, k = d.args[1], 0
        while f.defs.get(x) is not None and f.defs[x].op in ("zext", "trunc", "sext"):
            x = f.defs[x].args[0]
        y = f.defs.get(x)
        if y is not None and y.op == "add" and const(y.args[1]) is not None:
            k, x = const(y.args[1]), y.args[0]
        if x == n and a & (a - 1) == 0:
            return (a.bit_length() - 1 + k, 0, d.d.get("t"))
        return None
    if d.op in ("add", "sub") and const(d.args[1]) is not None:
        p = power(f, d.args[0], loop, phis, n, depth + 1)
        k = const(d.args[1])
        return (p[0], p[1] + (k if d.op == "add" else -k), p[2]) if p else None
    if d.op == "phi" and d.bb == loop.header:
        ini = [x for q, x in d.args if q not in loop.body]
        nxt = [x for q, x in d.args if q in loop.body]
        if len(ini) != 1 or len(set(nxt)) != 1 or const(ini[0]) is None:
            return None
        x0, m = const(ini[0]), step_of(f, nxt[0], v)
        n0 = phis[n]
        if m is None or n0 is None:
            return None
        # x -> 2x + m : x + m doubles
        a = x0 + m
        if a <= 0 or a & (a - 1):
            return None
        return (a.bit_length() - 1 - n0, -m, d.d.get("t"))
    return None


def step_of(f, v, phi):
    """x -> 2x + m"""
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None:
        return None
    if d.op == "shl" and d.args[0] == phi and const(d.args[1]) == 1 or d.op == "mul" and d.args[0] == phi and const(d.args[1]) == 2 or d.op == "add" and d.args[0] == phi and d.args[1] == phi:
        return 0
    if d.op in ("add", "or", "sub") and const(d.args[1]) is not None:
        m = step_of(f, d.args[0], phi)
        return None if m is None or d.op == "or" and (m or const(d.args[1]) != 1) else m + (const(d.args[1]) if d.op != "sub" else -const(d.args[1]))
    return None


def spans(f, v, lo, hi, depth=0):
    """v = (hi - lo) + c: (c, overflow)"""
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 6:
        return None
    if d.op in ("add", "sub") and const(d.args[1]) is not None:
        s = spans(f, d.args[0], lo, hi, depth + 1)
        return (s[0] + (const(d.args[1]) if d.op == "add" else -const(d.args[1])), s[1]) if s else None
    if d.op == "zext":
        return spans(f, d.args[0], lo, hi, depth + 1)
    if d.op == "sext":
        s = spans(f, d.args[0], lo, hi, depth + 1)
        return (s[0], True) if s else None
    if d.op == "sub":
        def root(x):
            e = f.defs.get(x) if isinstance(x, str) else None
            return root(e.args[0]) if e is not None and e.op in ("sext",) else x
        if root(d.args[0]) == hi and root(d.args[1]) == lo:
            return (0, False)
    return None


def sizes(ck, prog, size_off):
    if size_off is None:
        ck.count("undecided")
        return
    for f in prog.jobs["int"]:
        b = prog.base(f.name)
        if not b.endswith("IntParameter::IntParameter"):
            continue
        n = len(f.d["args"])
        lo, hi = "a%d" % (n - 2), "a%d" % (n - 1)
        done = False
        for s in fields(f, size_off):
            nv = strip_casts(f, s.args[0])
            if const(nv) is not None and const(nv) == 0:
                continue
            d = f.defs.get(nv)
            if d is None or d.op != "phi":
                continue
            loop = next((l for l in f.loops() if l.header == d.bb), None)
            r = enough(f, loop, d, lo, hi) if loop else None
            if r is None:
                continue
            done = True
            ck.ob("size", r[1], r[0], r[2], "size@%s/%d" % (b.split("::")[-1], n))
        if not done:
            ck.count("undecided")


def strip_casts(f, v):
    d = f.defs.get(v) if isinstance(v, str) else None
    return strip_casts(f, d.args[0]) if d is not None and d.op in ("zext", "trunc", "sext") else v


def counter(f, loop, d):
    ini = [x for q, x in d.args if q not in loop.body]
    nxt = [x for q, x in d.args if q in loop.body]
    if len(ini) != 1 or len(set(nxt)) != 1 or const(ini[0]) is None:
        return None
    e = f.defs.get(nxt[0])
    if e is None or e.op != "add" or e.args[0] != d.id or const(e.args[1]) != 1:
        return None
    return const(ini[0])


def enough(f, loop, d, lo, hi):
    """(verdict, location, message): the counter at the exit has hi - lo < 2**counter"""
    n0 = counter(f, loop, d)
    if n0 is None:
        return None
    ex = [(b, l) for b, s, l in loop.exits() if l != "u"]
    if len(ex) != 1:
        return None
    b, lab = ex[0]
    br = f.blocks[b][-1]
    c = f.defs.get(br.d.get("cond"))
    if c is None or c.op != "icmp":
        return None
    loc = c.repo_loc
    phis = {d.id: n0}
    # a value shifted away
    pred, x, y = c.d["pred"], c.args[0], c.args[1]
    if lab == "f":
        pred = NEG[pred]
    sh = shifted(f, loop, x, d.id, n0, lo, hi)
    if sh and const(y) is not None:
        k = const(y)
        bound = {"eq": k, "slt": k - 1, "ult": k - 1, "sle": k, "ule": k}.get(pred)
        if bound is None:
            return None
        # (span >> (n - e)) <= bound   must imply span < 2**n
        e, ovf = sh
        if ovf:
            return False, loc, "the number of steps overflows int for wide ranges, and too few elements are counted"
        return (bound + 1) <= 2 ** e if e >= 0 else False, loc, "the elements counted are too few for the largest code"
    for t, p, q in ((x, y, pred), (y, x, SWAP[pred])):
        s = spans(f, t, lo, hi)
        w = power(f, p, loop, phis, d.id)
        if not s or not w:
            continue
        if s[1]:
            return False, loc, "the number of steps overflows int for wide ranges, and too few elements are counted"
        if w[2] == "i32" and q[0] == "s":
            return False, loc, "the power of two overflows int before it reaches the number of steps of a wide range"
        strict = q in ("slt", "ult")
        if q not in ("slt", "ult", "sle", "ule"):
            return None
        # span + c < 2**(n+A) + B
        A, B = w[0], w[1] - s[0]
        need = 0 if strict else -1
        good = A < 0 and B <= need or A == 0 and B <= need
        if A < 0 and B > need:
            return None
        return good, loc, "the largest code does not fit into the elements counted: it is decoded as another one"
    return None


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}


def shifted(f, loop, v, n, n0, lo, hi):
    """v = span >> (counter - e): (e, overflow)"""
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None:
        return None
    if d.op in ("lshr", "ashr") and strip_casts(f, d.args[1]) == n:
        s = spans(f, d.args[0], lo, hi)
        return (0, s[1]) if s and s[0] == 0 else None
    if d.op == "phi" and d.bb == loop.header:
        ini = [x for q, x in d.args if q not in loop.body]
        nxt = [x for q, x in d.args if q in loop.body]
        e = f.defs.get(nxt[0]) if len(set(nxt)) == 1 else None
        if e is not None and len(ini) == 1 and e.args and e.args[0] == v and (e.op in ("lshr", "ashr") and const(e.args[1]) == 1 or e.op in ("sdiv", "udiv") and const(e.args[1]) == 2):
            s = spans(f, ini[0], lo, hi)
            return (n0, s[1]) if s and s[0] == 0 else None
    return None


# ---- real values -----------------------------------------------------------------------------------------------
def own(f, v):
    """offset of the own field a value was loaded from"""
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is not None and d.op == "load":
        p = f.defs.get(d.args[0])
        if p is not None and p.op == "getelementptr" and p.d["p"] == "a0" and not p.d.get("vo"):
            return p.d.get("off", 0)
    return None


def code_read(f, prog, v):
    d = f.defs.get(v) if isinstance(v, str) else None
    return d is not None and d.is_call() and d.callee and prog.base(d.callee).endswith("IntParameter::get_value")


def decode_real(f, prog):
    """(step field, offset field, location) of GetValue = code * step + offset"""
    for i in f.insts():
        if i.op != "ret" or not i.args:
            continue
        d = f.defs.get(i.args[0])
        if d is None:
            return None
        m = o = None
        if d.is_call() and d.callee and prog.base(d.callee).startswith("llvm.fma") or d.is_call() and d.callee and prog.base(d.callee).startswith("llvm.fmuladd"):
            m, o = d.args[:2], d.args[2]
        elif d.op in ("fadd", "fsub"):
            for x, y in ((0, 1), (1, 0)) if d.op == "fadd" else ((0, 1),):
                e = f.defs.get(d.args[x])
                if e is not None and e.op == "fmul":
                    m, o = e.args, d.args[y]
        if not m:
            return None
        for x, y in ((0, 1), (1, 0)):
            e = f.defs.get(m[x]) if isinstance(m[x], str) else None
            if e is not None and e.op == "sitofp" and code_read(f, prog, e.args[0]):
                return own(f, m[y]), own(f, o), d.repo_loc, d.op == "fsub"
    return None


def encode_real(f, prog):
    """(step field, offset field, how it is rounded, location) of the code SetValue stores"""
    for i in f.calls():
        if not i.callee or not prog.base(i.callee).endswith("IntParameter::set_value"):
            continue
        v = strip_casts(f, i.args[1])
        d = f.defs.get(v)
        how = None
        if d is not None and d.is_call() and d.callee:
            b = prog.base(d.callee)
            if b in ("lround", "llround", "std::lround", "std::llround", "lrint", "std::lrint", "llvm.lround.i64.f64", "llvm.lrint.i64.f64"):
                how, x = "nearest", d.args[0]
        elif d is not None and d.op == "fptosi":
            x = d.args[0]
            e = f.defs.get(x)
            how = "cut"
            if e is not None and e.is_call() and e.callee:
                b = prog.base(e.callee).replace("std::", "").replace("llvm.", "").replace(".f64", "")
                if b == "floor":
                    how, x = "cut", e.args[0]
                elif b in ("round", "rint", "nearbyint", "roundeven"):
                    how, x = "nearest", e.args[0]
                elif b == "ceil":
                    how, x = "up", e.args[0]
                elif b == "trunc":
                    how, x = "cut", e.args[0]
                else:
                    return None
        if how is None:
            return None
        e = f.defs.get(x)
        if e is not None and e.op == "fadd" and "#f0.5" in e.args and how == "cut":
            how, x = "nearest", next(z for z in e.args if z != "#f0.5")
        elif e is not None and e.op == "fsub" and e.args[1] == "#f0.5" and how == "up":
            how, x = "nearest", e.args[0]
        e = f.defs.get(x)
        if e is None or e.op != "fdiv":
            return None
        s = f.defs.get(e.args[0])
        if s is None or s.op != "fsub" or s.args[0] != "a1":
            return None
        return own(f, e.args[1]), own(f, s.args[1]), how, i.repo_loc
    return None


def reals(ck, prog):
    fs = {}
    for f in prog.jobs["double"]:
        fs.setdefault(prog.base(f.name).split("::")[-1], []).append(f)
    g, s = fs.get("GetValue"), fs.get("SetValue")
    step = None
    if g and s:
        d, e = decode_real(g[0], prog), encode_real(s[0], prog)
        if d and None not in d[:2]:
            step = d[0]
        if not d or not e or None in d[:2] or None in e[:2]:
            ck.count("undecided")
        else:
            ck.ob("linear", e[3], e[0] == d[0] and e[1] == d[1] and not d[3], "the value is encoded with another offset or step than it is decoded with", "linear@real")
            ck.ob("linear", e[3], e[2] == "nearest", "the code is rounded %s instead of to the nearest: decoding and encoding again changes it" % {"cut": "towards a smaller one", "up": "up"}.get(e[2], ""), "linear@rounding")
    else:
        ck.count("undecided")
    for n, sl in (("SetChromosome", 1), ("SetFromChromosome", 1)):
        for f in fs.get(n, []):
            cs = [i for i in f.calls() if vname(prog, i) == n]
            r = range_args(f, cs[0]) if len(cs) == 1 else None
            if r is None:
                ck.count("undecided")
                continue
            ck.ob("slices", cs[0].repo_loc, r, "the code is transferred through another range than the parameter's own", "slices@double." + n)
    for f in fs.get("DoubleParameter", []):
        if len(f.d["args"]) < 4:
            continue
        names = [a.get("n") for a in f.d["args"]]
        n = len(names)
        real_step(ck, prog, f, step, "a2", "a3", "a4") if n == 5 else ck.count("undecided")


def range_args(f, c):
    """the call receives the function's own range, in order: True, False, None if unknown"""
    mem = {}
    def val(v):
        if v in ("a1", "a2", "a3", "a4"):
            return v
        d = f.defs.get(v)
        if d is not None and d.op == "load":
            return mem.get(place(d.args[0]))
        return None
    def place(v):
        off = 0
        while True:
            d = f.defs.get(v)
            if d is not None and d.op == "getelementptr" and not d.d.get("vo"):
                off += d.d.get("off", 0)
                v = d.d["p"]
            else:
                return (v, off)
    for b in sorted(f.dom()[c.bb], key=lambda b: len(f.dom()[b])):
        for i in f.blocks[b]:
            if i is c:
                r = [val(x) for x in c.args[1:5]]
                return None if None in r else r == ["a1", "a2", "a3", "a4"]
            if i.op == "store":
                mem[place(i.args[1])] = val(i.args[0])
            elif i.is_call() and not i.d.get("nt"):
                pass
    return None


def real_step(ck, prog, f, step, lo, hi, want):
    """the step field holds (hi - lo) / B, the code runs from 0 to B, and B is at least the number of steps wanted"""
    calls = [i for i in f.calls() if i.callee and prog.base(i.callee).endswith("IntParameter::IntParameter")]
    if len(calls) != 1 or step is None or len(calls[0].args) not in (3, 4):
        ck.count("undecided")
        return
    c = calls[0]
    B = strip_casts(f, c.args[-1])
    zero = c.args[-2]
    st = [i for i in fields(f, step) if not isinstance(const(i.args[0]), int)]
    if len(st) != 1:
        ck.count("undecided")
        return
    d = f.defs.get(st[0].args[0])
    if d is not None and d.op == "fdiv":
        num, den = f.defs.get(d.args[0]), f.defs.get(d.args[1])
        nm = num is not None and num.op == "fsub" and is_arg(f, num.args[0], hi) and is_arg(f, num.args[1], lo)
        if nm and den is not None and den.op == "sitofp":
            ck.ob("step", d.repo_loc, strip_casts(f, den.args[0]) == B or same(f, den.args[0], B), "the step is the range divided by another number than the largest code", "step@divisor")
        else:
            ck.count("undecided")
    else:
        ck.count("undecided")
    if const(zero) is not None:
        ck.ob("step", c.repo_loc, const(zero) == 0, "the smallest code is not 0, so the lower bound is not representable", "step@zero")
    else:
        ck.count("undecided")
    # B >= wanted
    b = f.defs.get(B)
    loop = next((l for l in f.loops() if b is not None and b.op == "phi" and l.header == b.bb), None)
    if loop is None:
        ck.count("undecided")
        return
    nxt = [x for q, x in b.args if q in loop.body]
    ini = [x for q, x in b.args if q not in loop.body]
    m = step_of(f, nxt[0], b.id) if len(set(nxt)) == 1 else None
    ex = [(x, l) for x, s, l in loop.exits() if l != "u"]
    if m is None or len(ini) != 1 or const(ini[0]) is None or len(ex) != 1:
        ck.count("undecided")
        return
    br = f.blocks[ex[0][0]][-1]
    cnd = f.defs.get(br.d.get("cond"))
    if cnd is None or cnd.op != "icmp":
        ck.count("undecided")
        return
    pred = cnd.d["pred"] if ex[0][1] == "t" else NEG[cnd.d["pred"]]
    for x, y, q in ((cnd.args[0], cnd.args[1], pred), (cnd.args[1], cnd.args[0], SWAP[pred])):
        # x q B + k at the exit
        k0, yy = 0, f.defs.get(strip_casts(f, y))
        if yy is not None and yy.op in ("add", "sub") and yy.args[0] == b.id and const(yy.args[1]) is not None:
            k0, y = (-const(yy.args[1]) if yy.op == "add" else const(yy.args[1])), b.id
        if strip_casts(f, y) != b.id:
            continue
        w, k = strip_casts(f, x), k0
        e = f.defs.get(w)
        if e is not None and e.op in ("add", "sub") and const(e.args[1]) is not None:
            k += const(e.args[1]) if e.op == "add" else -const(e.args[1])
            w = e.args[0]
            e = f.defs.get(w)
        if e is None or e.op not in ("fptosi", "fptoui"):
            break
        g = f.defs.get(e.args[0])
        up = g is not None and g.is_call() and g.callee and "ceil" in prog.base(g.callee)
        quo = f.defs.get(g.args[0]) if up else g
        if quo is None or quo.op != "fdiv" or not is_arg(f, quo.args[1], want):
            break
        if q in ("sle", "slt", "ule", "ult"):
            slack = k + (1 if q in ("slt", "ult") else 0) - (0 if up else 1)
            ck.ob("step", cnd.repo_loc, slack >= 0, "the largest code may be smaller than the number of steps the wanted precision needs", "step@count")
            return
        break
    ck.count("undecided")


def same(f, x, y):
    return strip_casts(f, x) == strip_casts(f, y)


def is_arg(f, v, a):
    """the argument, or an own field it was stored in"""
    if v == a:
        return True
    o = own(f, v)
    if o is None:
        return False
    ss = list(fields(f, o))
    return len(ss) == 1 and ss[0].args[0] == a


# ---- total -----------------------------------------------------------------------------------------------------
def totals(ck, prog, size_off):
    for f in prog.jobs["total"]:
        where = "::".join(prog.base(f.name).split("::")[-2:])
        if size_off is None:
            ck.count("undecided")
            continue
        st = [i for i in fields(f, size_off) if const(i.args[0]) is None]
        if len(st) != 1:
            ck.count("undecided")
            continue
        r = total(f, prog, st[0].args[0])
        if r is None:
            ck.count("undecided")
            continue
        ck.ob("total", st[0].repo_loc, r[0], "the chromosome of the whole is not as long as its elements' together: %s" % r[1], "total@" + where)


def is_size(f, prog, v):
    d = f.defs.get(strip_casts(f, v)) if isinstance(v, str) else None
    return d if d is not None and d.is_call() and vname(prog, d) == "GetChromosomeSize" else None


def length(f, v):
    """the object a vector length is taken of"""
    d = f.defs.get(strip_casts(f, v)) if isinstance(v, str) else None
    if d is not None and d.op in ("ashr", "sdiv", "lshr") and const(d.args[1]) is not None:
        e = f.defs.get(d.args[0])
        if e is not None and e.op == "sub":
            a, b = f.defs.get(e.args[0]), f.defs.get(e.args[1])
            if a is not None and b is not None and a.op == b.op == "ptrtoint":
                x, y = obj_path(f, a.args[0]), obj_path(f, b.args[0])
                if x and y and x[-1] == y[-1] == "*":
                    return y[:-1]
    return None


def total(f, prog, v):
    v = strip_casts(f, v)
    d = f.defs.get(v)
    if d is None:
        return None
    if d.op == "mul":
        for x, y in ((0, 1), (1, 0)):
            if is_size(f, prog, d.args[x]):
                if length(f, d.args[y]) or re.fullmatch(r"a[4-9]", str(strip_casts(f, d.args[y]))):
                    return True, ""
                e = f.defs.get(strip_casts(f, d.args[y]))
                if e is not None and e.op in ("add", "sub") and const(e.args[1]) is not None and length(f, e.args[0]):
                    return False, "an element is not counted" if (e.op == "sub") == (const(e.args[1]) > 0) else "an element too many is counted"
        return None
    if d.op in ("add", "sub") and const(d.args[1]) not in (None, 0):
        t = total(f, prog, d.args[0])
        return (False, "a constant is added") if t and t[0] else t
    if d.op == "phi":
        loop = next((l for l in f.loops() if l.header == d.bb), None)
        if loop is None:
            return None
        ini = [x for q, x in d.args if q not in loop.body]
        nxt = [x for q, x in d.args if q in loop.body]
        if len(ini) != 1 or len(set(nxt)) != 1:
            return None
        n = f.defs.get(nxt[0])
        if n is None or n.op != "add" or d.id not in n.args:
            return None
        sz = is_size(f, prog, next((x for x in n.args if x != d.id), None))
        if sz is None:
            return None
        if const(ini[0]) is None:
            return None
        if const(ini[0]) != 0:
            return False, "counting starts at %d" % const(ini[0])
        L = Loop(f, loop, (), lambda i: "")
        idx = index_of(L, obj_path(f, sz.args[0]), {})
        if idx == "?" or idx is None:
            return None
        idx = idx[1]
        if idx[2] != 1 or idx[0] is not None:
            return None
        if idx[1] != 0:
            return False, "the first element is not counted"
        ex = [(b, l) for b, s, l in loop.exits() if l != "u"]
        if len(ex) != 1:
            return None
        c = f.defs.get(f.blocks[ex[0][0]][-1].d.get("cond"))
        if c is None or c.op != "icmp":
            return None
        pred = c.d["pred"] if ex[0][1] == "f" else NEG[c.d["pred"]]
        k = L.lin(c.args[0], {})
        if k != (None, 0, 1) or pred not in ("ult", "ne", "slt"):
            return None
        b = length(f, c.args[1])
        if b is None:
            e = f.defs.get(strip_casts(f, c.args[1]))
            if e is not None and e.op in ("add", "sub") and const(e.args[1]) not in (None, 0) and length(f, e.args[0]) and const(e.args[1]) is not None:
                off = const(e.args[1]) if e.op == "add" else -const(e.args[1])
                return (False, "the last elements are not counted") if off < 0 else None
            return None
        return True, ""
    return None


# ---- slices -----------------------------------------------------------------------------------------------------
def obj_path(f, v, depth=0):
    """access path of an object: ("a0", off, ...) with ("idx", phi or None) steps"""
    if isinstance(v, str) and re.fullmatch(r"a\d+", v):
        return (v,)
    d = f.defs.get(v) if isinstance(v, str) else None
    if d is None or depth > 12:
        return None
    if d.op == "load":
        p = obj_path(f, d.args[0], depth + 1)
        return p + ("*",) if p else None
    if d.op == "getelementptr":
        p = obj_path(f, d.d["p"], depth + 1)
        if p is None:
            return None
        r = p + ((d.d.get("off", 0),) if d.d.get("off", 0) else ())
        for x, s in d.d.get("vo", []):
            r += (("idx", x, s),)
        return r
    if d.op == "phi":
        return (("phi", d.id),)
    if d.op == "alloca":
        return (d.id,)
    return None


def index_of(L, path, sel):
    """linear form of the index of the element, None without one, "?" if unknown"""
    r = None
    for k, s in enumerate(path or ()):
        if isinstance(s, tuple) and s[0] == "idx":
            l = L.lin(s[1], sel)
            r = (path[:k], l) if l else "?"
        if isinstance(s, tuple) and s[0] == "phi":
            # a pointer that walks the elements
            p = L.header_phi(s[1])
            n = L.f.defs.get(p[1]) if p else None
            if n is not None and n.op == "getelementptr" and n.d.get("p") == s[1] and not n.d.get("vo") and n.d.get("off", 0) > 0:
                b = obj_path(L.f, p[0])
                r = (b, (None, 0, 1)) if b and b[-1] == "*" else "?"
            else:
                r = "?"
    return r


def general(path):
    """the path with indices left out"""
    return tuple("[]" if isinstance(s, tuple) else s for s in path) if path else None


class Slice(Loop):
    """positions are kept symbolic: root + number of element sizes added"""

    def lin(self, v, sel, depth=0):
        d = self.f.defs.get(v) if isinstance(v, str) else None
        return BitLoop.lin(self, v, sel, depth)


def vname(prog, i):
    if i.d.get("v"):
        return prog.vslot_name(i.d["v"])[-1]
    return prog.base(i.callee).split("::")[-1] if i.callee else ""


def slices(ck, prog, size_off):
    got = {}
    for f in prog.jobs["slices"]:
        b = prog.base(f.name)
        cls, m = b.split("::")[-2:]
        loops = [l for l in f.loops() if any(i.is_call() and vname(prog, i) == m for x in l.body for i in f.blocks[x])]
        calls = [i for i in f.calls() if vname(prog, i) == m]
        if len(loops) != 1 or len(calls) != 1:
            ck.count("undecided")
            continue
        r = one_slice(ck, prog, f, loops[0], calls[0], cls, m)
        if r is not None:
            got.setdefault(cls, {})[m] = r
    for cls, d in got.items():
        if len(d) == 2:
            a, b = d["SetChromosome"], d["SetFromChromosome"]
            o = order(a[0], b[0])
            if o is not None:
                ck.ob("slices", cls, o, "the element of %s encoded in a range is not the one decoded from it" % cls, "slices@order." + cls)
            o = order(a[1], b[1])
            if o is not None:
                ck.ob("slices", cls, o, "the value written for a range is not the one set from it", "slices@values." + cls)


def order(a, b):
    """two element positions (container, linear form) are the same: True, False, None"""
    if a is None or b is None or "?" in (a, b):
        return True if a is None and b is None else None
    if a[1][2] != b[1][2]:
        return False
    if a[0] == b[0]:
        return a[1] == b[1]
    return None


def one_slice(ck, prog, f, loop, call, cls, m):
    """walks one iteration: the call gets [cur, cur + size of the element], cur advances by the same size; returns (element index, value index)"""
    key = "%s.%s" % (cls, m)
    paths = [p for p in Loop(f, loop, (1, 2, 3, 4), lambda i: prog.base(i.callee) if i.callee else "").paths if p[2] == "latch"]
    ws = [Walk(prog, f, loop, call, p) for p in paths]
    skip = next((w for w in ws if not w.ok and skips(prog, f, loop, call, w.blocks)), None)
    if skip and any(w.ok for w in ws):
        ck.ob("slices", call.repo_loc, False, "elements are left out on a condition that says nothing about the range", "slices@skip." + key)
        return None
    if not ws or len(ws) > 16 or not all(w.ok for w in ws):
        ck.count("undecided")
        return None
    js = [w.judge() for w in ws]
    bad = next((x for x in js if x[0] is False), None)
    if bad or all(x[0] for x in js):
        ck.ob("slices", call.repo_loc, not bad, bad[1] if bad else "", "slices@" + key)
    else:
        ck.count("undecided")
    vs = []
    for w in ws:
        v = w.values(m)
        if v is False and len(ws) > 1:
            v = w.stale()
        vs.append(v)
    if False in vs:
        ck.ob("slices", call.repo_loc, False, "the element is %s" % ("encoded without having been given its value" if m == "SetChromosome" else "decoded, but its value is not taken over"), "slices@sync." + key)
    vs = [v for v in vs if v is not False]
    v = vs[0] if vs and all(x == vs[0] for x in vs) else "?" if vs else False
    ids = [w.index() for w in ws]
    idx = ids[0] if all(x == ids[0] for x in ids) else "?"
    if idx == "?" or v == "?":
        ck.count("undecided")
    return (idx, v if v not in (False, "?") else None)


def skips(prog, f, loop, call, blocks):
    """the iteration passes the call by, and no condition that decides this looks at the range, a size or a missing element"""
    def reach(b, seen):
        if b == call.bb:
            return True
        seen.add(b)
        return any(x in loop.body and x != loop.header and x not in seen and reach(x, seen) for x, e in f.succ[b] if e != "u")

    def judges(v, seen):
        """depends on an iterator, a size or a null test"""
        if not isinstance(v, str) or v in seen:
            return False
        seen.add(v)
        if v in ("a1", "a2", "a3", "a4"):
            return True
        d = f.defs.get(v)
        if d is None:
            return False
        if d.op == "icmp" and any(x in ("null", "cnull") for x in d.args):
            return True
        if d.op == "alloca" and d.d.get("t") != "i1":
            return True
        if d.is_call():
            n = vname(prog, d)
            if "ize" in n or "empty" in n or "_Bit_" in prog.dem(d.callee or ""):
                return True
            return False
        xs = [x for _, x in d.args] if d.op == "phi" else [d.d["p"]] if d.op == "getelementptr" else d.args
        if d.op == "phi" and d.bb == loop.header:
            return False
        return any(judges(x, seen) for x in xs)

    found = False
    for b in blocks:
        t = f.blocks[b][-1]
        if t.op not in ("br", "switch") or len(f.succ[b]) < 2 or b == loop.header and any(x not in loop.body for x, _ in f.succ[b]):
            continue
        if reach(b, set()):
            if judges(t.d.get("cond", t.args[0] if t.args else None), set()):
                return False
            found = True
    return found


class Walk:
    """one iteration of a slicing loop; an iterator value is (root, ((size value path, count), ...))"""

    def __init__(self, prog, f, loop, call, path):
        self.prog, self.f, self.loop, self.call = prog, f, loop, call
        L = self.L = Loop(f, loop, (1, 2, 3, 4), lambda i: prog.base(i.callee) if i.callee else "")
        self.blocks, self.conds = path[0], path[1]
        self.ok = call.bb in self.blocks
        if not self.ok:
            return
        self.sel = L.sel(self.blocks)
        # symbolic memory of iterators
        self.mem, self.env = {}, {}
        for k, (r, h) in zip((1, 2, 3, 4), (("from", 0), ("from", 1), ("to", 0), ("to", 1))):
            self.env["a%d" % k] = ((r, ()), h)
        dom = f.dom()
        for b in sorted((b for b in dom[loop.header] if b != loop.header), key=lambda b: len(dom[b])):
            for i in f.blocks[b]:
                self.step(i)
        self.before = dict(self.mem)
        self.touched = set()
        save = (dict(self.mem), dict(self.env))
        self.run()
        ch = set(self.touched)
        self.mem, self.env = dict(save[0]), dict(save[1])
        for k in list(self.mem):
            if k[0] in ch:
                self.mem[k] = ((("L", k[0]), ()), k[1] // 8)
        # iterators kept in registers are phis of the header
        for i in f.blocks[loop.header]:
            if i.op == "phi":
                ini = next((v for q, v in i.args if q not in loop.body), None)
                x = self.env.get(ini)
                if x and isinstance(x, tuple) and len(x) == 2 and x[1] in (0, 1):
                    self.env[i.id] = ((("L", i.id), ()), x[1])
        self.args = None
        self.run()

    def run(self):
        for b in self.blocks:
            for i in self.f.blocks[b]:
                if i is self.call:
                    self.args = [self.val(x) for x in i.args[1:5]]
                self.step(i)

    def val(self, v):
        return self.env.get(v) if isinstance(v, str) else None

    def place(self, v):
        return self.L.place(v) if isinstance(v, str) else None

    def it_at(self, v):
        p = self.place(v)
        if p is None:
            return None
        lo, hi = self.mem.get(p), self.mem.get((p[0], p[1] + 8))
        return lo[0] if lo and hi and lo[0] == hi[0] and (lo[1], hi[1]) == (0, 1) else None

    def step(self, i):
        t = getattr(self, "touched", set())
        if i.op == "store":
            p = self.place(i.args[1])
            if p:
                x = self.val(i.args[0])
                if x and x[1] in (0, 1):
                    self.mem[p] = x
                else:
                    self.mem.pop(p, None)
                t.add(p[0])
        elif i.op == "load":
            p = self.place(i.args[0])
            if p and p in self.mem:
                self.env[i.id] = self.mem[p]
            else:
                self.env.pop(i.id, None)
        elif i.op == "extractvalue":
            x = self.env.get(i.args[0])
            if x and x[1] == "IT":
                self.env[i.id] = (x[0], i.d.get("idx", 0))
        elif i.op == "phi" and i.id in self.sel:
            x = self.val(self.sel[i.id])
            if x:
                self.env[i.id] = x
        elif i.is_call():
            b = self.prog.base(i.callee) if i.callee else ""
            m = b.split("::")[-1]
            if b.startswith("llvm.memcpy"):
                x = self.it_at(i.args[1])
                p = self.place(i.args[0])
                if p:
                    for h in (0, 1):
                        if x:
                            self.mem[(p[0], p[1] + 8 * h)] = (x, h)
                        else:
                            self.mem.pop((p[0], p[1] + 8 * h), None)
                    t.add(p[0])
            elif "_Bit_" in self.prog.dem(i.callee or "") and m in ("operator+", "operator+="):
                x = self.it_at(i.args[0])
                n = self.amount(i.args[1])
                r = (x[0], x[1] + (n,)) if x and n else None
                if m == "operator+":
                    self.env[i.id] = (r, "IT") if r else None
                else:
                    self.env[i.id] = None
                    p = self.place(i.args[0])
                    for h in (0, 1):
                        if r:
                            self.mem[(p[0], p[1] + 8 * h)] = (r, h)
                        else:
                            self.mem.pop((p[0], p[1] + 8 * h), None)
                    t.add(p[0])
            elif "_Bit_" in self.prog.dem(i.callee or "") and m in ("_Bit_const_iterator", "_Bit_iterator") and len(i.args) > 1:
                x = self.it_at(i.args[1])
                p = self.place(i.args[0])
                if p:
                    for h in (0, 1):
                        if x:
                            self.mem[(p[0], p[1] + 8 * h)] = (x, h)
                        else:
                            self.mem.pop((p[0], p[1] + 8 * h), None)
                    t.add(p[0])
            elif "_Bit_" in self.prog.dem(i.callee or "") and m in ("operator++", "operator--", "operator-="):
                p = self.place(i.args[0])
                if p:
                    x = self.it_at(i.args[0])
                    for h in (0, 1):
                        if x:
                            self.mem[(p[0], p[1] + 8 * h)] = ((x[0], x[1] + (m,)), h)
                    t.add(p[0])

    def amount(self, v):
        """what a size value is: ("size", object path) or ("mul", index, object path) or ("c", n)"""
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if const(v) is not None:
            return ("c", const(v))
        if d is None:
            return ("?", v)
        if d.op in ("zext", "sext", "trunc"):
            return self.amount(d.args[0])
        if d.is_call() and vname(self.prog, d) == "GetChromosomeSize":
            return ("size", obj_path(self.f, d.args[0]) or ("?", v))
        if d.op == "mul":
            for x, y in ((0, 1), (1, 0)):
                k, s = self.L.lin(d.args[x], self.sel), self.amount(d.args[y])
                if k is not None and s[0] == "size":
                    return ("mul", k, s[1])
        if d.op in ("add", "sub") and const(d.args[1]) is not None:
            a = self.amount(d.args[0])
            return ("off", a, const(d.args[1]) if d.op == "add" else -const(d.args[1]))
        return ("?", v)

    def element(self):
        """access path of the object the range is given to, normalised to the complete object"""
        return obj_path(self.f, self.call.args[0])

    def index(self):
        r = index_of(self.L, self.element(), self.sel)
        return r

    def same_object(self, a, b):
        """do two paths name the same element: True, False, None"""
        def norm(p):
            out = []
            for s in p:
                if isinstance(s, tuple) and s[0] == "idx":
                    l = self.L.lin(s[1], self.sel)
                    out.append(("idx", l, s[2]) if l is not None else s)
                else:
                    out.append(s)
            # a base object inside the element (vtable offsets) is the element
            while out and isinstance(out[-1], int):
                out.pop()
            return out
        if not a or not b or "?" in (a[0], b[0]):
            return None
        x, y = norm(a), norm(b)
        if x == y:
            return True
        if len(x) == len(y) and all(p == q or isinstance(p, tuple) and isinstance(q, tuple) and p[0] == q[0] == "idx" and isinstance(p[1], tuple) and isinstance(q[1], tuple) for p, q in zip(x, y)):
            return False
        gx, gy = [[s for s in p if not isinstance(s, (tuple, int))] for p in (x, y)]
        ix, iy = [[s for s in p if isinstance(s, tuple)] for p in (x, y)]
        if gx == gy and len(ix) + len(iy) == 1 and isinstance((ix + iy)[0][1], tuple) and (ix + iy)[0][1][2]:
            return False                      # one of many elements, and a fixed one
        return None

    def judge(self):
        a = self.args
        if not a or None in a:
            return None, ""
        lo, hi = a[0], a[2]
        if a[0][0] != a[1][0] or a[2][0] != a[3][0]:
            return None, ""
        lo, hi = lo[0], hi[0]
        el = self.element()
        bad = lambda x: any(isinstance(t, tuple) and t[0] == "?" or isinstance(t, tuple) and t[0] == "off" and t[1][0] == "?" for t in x)
        if bad(lo[1]) or bad(hi[1]):
            return None, ""
        # closed form: from + i*size
        if lo[0] == "from":
            return self.closed(lo, hi, el)
        if lo[0] == "to":
            return False, "the range of an element begins at the end of the chromosome"
        if not (isinstance(lo[0], tuple) and lo[0][0] == "L"):
            return None, ""
        var = lo[0][1]
        if lo[1]:
            return (False, "the range of an element does not begin where the last one ended") if lo[1] and all(isinstance(t, tuple) for t in lo[1]) and lo[0] == hi[0] else (None, "")
        if hi[0] != lo[0]:
            if hi[0] == "to":
                return False, "the range of an element reaches to the end of the whole range"
            return None, ""
        if len(hi[1]) != 1:
            return None, ""
        n = hi[1][0]
        if n[0] == "off":
            return False, "the range of an element is not as long as the element's own chromosome"
        if n[0] == "c":
            return False, "the range of an element has a constant length"
        if n[0] != "size":
            return None, ""
        same = self.same_object(n[1], el)
        if same is None:
            return None, ""
        if not same:
            return False, "the range of an element is as long as another element's chromosome"
        # where the next one begins, and where the first one does
        nx, first = self.after(var), self.first(var)
        if nx is None or first is None:
            return None, ""
        if first != ("from", ()):
            return (False, "the first element's range does not begin at the start") if first[0] in ("from", "to") and not bad(first[1]) else (None, "")
        if nx == (("L", var), ()):
            return False, "all elements use the same range"
        if nx[0] == ("L", var) and len(nx[1]) == 1:
            if nx[1][0][0] == "size":
                s = self.same_object(nx[1][0][1], el)
                if s is None:
                    return None, ""
                return s, "the next range does not begin where this one ends"
            if nx[1][0][0] in ("off", "c"):
                return False, "the next range does not begin where this one ends"
        if nx[0] == "from" and len(nx[1]) in (1, 2):
            k = self.multiple(nx, el)
            if k is not None and k[2]:
                if any(isinstance(s, tuple) for s in el or ()):
                    return False, "the next range begins where it would if all elements had the size of the current one"
                return k == (None, 1, 1), "the next range does not begin where this one ends"
        if nx[0] == ("L", var) and len(nx[1]) > 1 and not bad(nx[1]):
            return False, "the next range does not begin where this one ends"
        return None, ""

    def closed(self, lo, hi, el):
        a, b = self.multiple(lo, el), self.multiple(hi, el)
        if a is None or b is None:
            return None, ""
        i = self.L
        good = a == (None, 0, 1) and b == (None, 1, 1)
        return good, "element k does not use the range from k to k + 1 times the element size"

    def multiple(self, x, el):
        """how many times the element's size the position lies after the start (linear form)"""
        if x[0] != "from" or len(x[1]) > 2:
            return None
        tot = (None, 0, 0)
        for t in x[1]:
            if not isinstance(t, tuple):
                return None
            if t[0] == "mul" and self.same_object(t[2], el):
                tot = add(tot, t[1])
            elif t[0] == "size" and self.same_object(t[1], el):
                tot = add(tot, (None, 1, 0))
            else:
                return None
            if tot is None:
                return None
        return tot

    def stale(self):
        """the value is not exchanged on this path: False if that is certainly wrong for some values, else unknown"""
        for c, l in self.conds:
            d = self.f.defs.get(c) if isinstance(c, str) else None
            if d is None or d.op != "fcmp":
                continue
            if (d.d.get("pred"), l) not in (("oeq", "t"), ("ueq", "t"), ("une", "f"), ("one", "f")):
                continue
            ix = [self.value_index(x, True) for x in d.args[:2]]
            if "?" in ix:
                continue
            if ix[0][0] == ix[1][0] and sorted(bool(x[1][2]) for x in ix) == [False, True]:
                return False                  # equal to one fixed element's value, which need not be the value set last
        return "?"

    def after(self, var):
        lo, hi = self.mem.get((var, 0)), self.mem.get((var, 8))
        if lo and hi and lo[0] == hi[0]:
            return lo[0]
        d = self.f.defs.get(var)
        if d is not None and d.op == "phi":
            nx = next((v for q, v in d.args if q == self.blocks[-1]), None)
            x = self.val(nx)
            return x[0] if x else None
        return None

    def first(self, var):
        lo, hi = self.before.get((var, 0)), self.before.get((var, 8))
        if lo and hi and lo[0] == hi[0]:
            return lo[0]
        d = self.f.defs.get(var)
        if d is not None and d.op == "phi":
            ini = next((v for q, v in d.args if q not in self.loop.body), None)
            x = self.val(ini)
            return x[0] if x else None
        return None

    def values(self, m):
        """index of the value an element is given before encoding, or that is taken from it after decoding; None if elements keep
        their own values, False if the exchange is missing, "?" if unknown"""
        el = self.element()
        if any(isinstance(s, tuple) for s in el or ()):
            return None                       # every element is its own object
        before = True
        got = None
        early = False
        for b in self.blocks:
            for i in self.f.blocks[b]:
                if i is self.call:
                    before = False
                    continue
                n = vname(self.prog, i) if i.is_call() else ""
                if m == "SetChromosome" and n == "SetValue" and before:
                    got = self.value_index(i.args[1])
                if m == "SetFromChromosome" and n == "GetValue" and before:
                    early = any(x.op == "store" and index_of(self.L, obj_path(self.f, x.args[1]), self.sel) for x in self.f.uses(i.id))
                if m == "SetFromChromosome" and n == "GetValue" and not before:
                    u = [x for x in self.f.uses(i.id) if x.op == "store"]
                    got = index_of(self.L, obj_path(self.f, u[0].args[1]), self.sel) if len(u) == 1 else "?"
                    got = "?" if got is None else got
        if got is None:
            if early:
                return False
            others = [i for b in self.blocks for i in self.f.blocks[b] if i.is_call() and i is not self.call and vname(self.prog, i) not in ("GetChromosomeSize",) and i.args and obj_path(self.f, i.args[0]) == el]
            return "?" if others else False
        return got

    def value_index(self, v, fixed=False):
        d = self.f.defs.get(v) if isinstance(v, str) else None
        if d is None or d.op != "load":
            return "?"
        p = obj_path(self.f, d.args[0])
        r = index_of(self.L, p, self.sel)
        if r is None and fixed and p and (p[-1] == "*" or isinstance(p[-1], int) and p[-2:-1] == ("*",)):
            return (p, (None, 0, 0)) if p[-1] == "*" else (p[:-1], (None, p[-1] // 8, 0))
        return "?" if r is None else r


def check(ck, prog):
    size_off = None
    for f in prog.jobs["size"]:
        for i in f.insts():
            if i.op == "ret" and i.args:
                size_off = own(f, i.args[0])
    integers(ck, prog, size_off)
    sizes(ck, prog, size_off)
    reals(ck, prog)
    slices(ck, prog, size_off)
    totals(ck, prog, size_off)
    if not ck.obs:
        ck.ob("analysed", "k52::optimization", True)
