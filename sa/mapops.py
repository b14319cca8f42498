"""Operations on associative containers (boost and std maps), recognised by the container's public interface."""
import re
from val import addr, flows

OPAQUE = [r"boost::unordered_map<", r"boost::unordered::", r"std::(__cxx1998::)?(map|unordered_map|multimap|unordered_multimap|_Rb_tree\w*)<",
          r"std::__detail::_Node_", r"operator(==|!=)\(std::_Rb_tree", r"std::pair<"]
_MAP = re.compile(r"(?:boost::unordered_map|boost::unordered::unordered_map|std::map|std::unordered_map)$")
_IT = re.compile(r"(iterator_detail::\w*iterator|std::_Rb_tree_(?:const_)?iterator|_Node_(?:const_)?iterator\w*)$")
INDEX, LOOK = {"operator[]"}, {"find", "count", "contains", "at", "lower_bound", "equal_range"}
INSERT = {"insert", "emplace", "try_emplace", "emplace_hint", "insert_or_assign", "merge"}
REMOVE = {"erase", "quick_erase", "erase_return_void", "clear", "swap", "operator=", "extract"}
ENDS, BEGINS = {"end", "cend"}, {"begin", "cbegin"}


def head(d):
    """demangled name without template arguments and parameters, with the operator kept"""
    m = re.search(r"operator(\[\]|\(\)|->\*?|<<=?|>>=?|<=>|<=|>=|==|!=|<|>|\+\+|--|\*|=|\+=|-=|!)(?=[<(])", d)
    op = None
    # find an operator name at template depth zero
    depth, k, out = 0, 0, []
    while k < len(d):
        if depth == 0 and d.startswith("operator", k):
            m = re.match(r"operator(\(\)|\[\]|->\*?|<<=?|>>=?|<=>|<=|>=|==|!=|<|>|\+\+|--|\*|\+=|-=|=|!|\+|-| [a-z_:]+)", d[k:])
            if m:
                op = m.group(0)
                out.append(op)
                k += len(op)
                break
        c = d[k]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            if c == "(" and not d.startswith("(anonymous", k):
                break
            out.append(c)
        k += 1
    s = "".join(out).strip()
    if op is None and " " in s:
        s = s.split(" ")[-1]
    elif op is not None and " " in s[:-len(op)]:
        s = s[:-len(op)].split(" ")[-1] + op
    return s


def op(prog, i):
    """(kind, method) of a container or iterator operation: kind 'map' | 'iter' | None"""
    if not i.is_call() or not i.callee:
        return None, None
    memo = prog.__dict__.setdefault("_mapop", {})
    if i.callee in memo:
        return memo[i.callee]
    d = prog.dem(i.callee)
    h = head(d)
    cls, _, last = h.rpartition("::")
    r = (None, None)
    if last.startswith("operator") and not cls and ("_Rb_tree" in d or "_Node_iterator" in d or "iterator_detail" in d):
        r = ("iter", last)
    elif _MAP.search(cls):
        r = ("map", last)
    elif _IT.search(cls) or last in ("operator==", "operator!=") and re.search(r"_Rb_tree|_Node_iterator|iterator_detail|_Node_iterator_base", d):
        r = ("iter", last)
    memo[i.callee] = r
    return r


def the_map(fn, i):
    """address (base, offset) of the container an operation is applied to"""
    a = i.args
    k = 0
    # a class returned by value comes through a hidden first argument
    f = fn.prog.funcs.get(i.callee, {})
    if f.get("sret"):
        k = 1
    elif len(a) > 1:
        d = fn.defs.get(addr(fn, a[0])[0])
        o = op(fn.prog, i)[1]
        if d is not None and d.op == "alloca" and d.get("size", 0) <= 32 and i.get("t") is None and o not in REMOVE | INDEX:
            k = 1
        elif d is not None and d.op == "alloca" and o in ("erase", "insert", "emplace") and i.get("t") is None and len(a) > 2:
            k = 1
    b, off, vo = addr(fn, a[k])
    return (b, off), k


class Lookup:
    """correlates lookups with the comparison of their result against the end of the container"""

    def __init__(self, fn):
        self.fn, self.prog = fn, fn.prog
        self.ops = {}
        for i in fn.calls():
            k, m = op(self.prog, i)
            if k:
                self.ops[i.id] = (k, m)

    def sources(self, v, depth=0):
        """map operations an iterator value or object may come from"""
        fn = self.fn
        if depth > 10 or not isinstance(v, str):
            return set()
        d = fn.defs.get(v)
        if d is None:
            return set()
        if d.op == "phi":
            r = set()
            for _, x in d.args:
                r |= self.sources(x, depth + 1)
            return r
        if d.op in ("load", "extractvalue", "inttoptr", "ptrtoint", "freeze"):
            return self.sources(d.args[0], depth + 1)
        if d.op == "getelementptr":
            return self.sources(addr(fn, v)[0], depth + 1)
        if d.is_call():
            if d.id in self.ops and self.ops[d.id][0] == "map":
                return {d.id}
            if d.id in self.ops and d.args:
                return self.sources(d.args[0], depth + 1)
            return set()
        if d.op == "alloca":
            r = set()
            for i in fn.insts():
                if i.op == "store" and addr(fn, i.args[1])[0] == v:
                    r |= self.sources(i.args[0], depth + 1)
                elif i.is_call() and i.args and isinstance(i.args[0], str) and addr(fn, i.args[0])[0] == v and len(i.args) > 1:
                    k, m = self.ops.get(i.id, (None, None))
                    c = i.callee or ""
                    if k == "map" and i.get("t") is None:
                        r.add(i.id)
                    elif (k == "iter" and m not in ("operator==", "operator!=") or c.startswith("llvm.memcpy")) and isinstance(i.args[1], str):
                        r |= self.sources(addr(fn, i.args[1])[0], depth + 1)
            return r
        return set()

    def has(self, v, methods, kind="map"):
        return [x for x in self.sources(v) if self.ops[x][1] in methods]

    def test(self, c):
        """what a branch condition says about a lookup: (lookup call id, value of the condition meaning 'present')"""
        fn = self.fn
        neg, v = 0, c
        for _ in range(12):
            d = fn.defs.get(v)
            if d is None:
                return None
            if d.op in ("zext", "trunc", "freeze"):
                v = d.args[0]
            elif d.op == "xor" and d.args[1] in ("#1", "#-1"):
                neg ^= 1
                v = d.args[0]
            elif d.op == "icmp":
                k = d.args[1]
                l = fn.defs.get(d.args[0])
                while l is not None and l.op in ("zext", "sext", "trunc", "freeze"):
                    l = fn.defs.get(l.args[0])
                if l is not None and l.id in self.ops and self.ops[l.id][1] in ("count", "contains") and k in ("#0", "#1"):
                    p = d.get("pred")
                    pres = {("eq", "#0"): 0, ("ne", "#0"): 1, ("ugt", "#0"): 1, ("eq", "#1"): 1, ("ne", "#1"): 0, ("uge", "#1"): 1,
                            ("ult", "#1"): 0, ("sgt", "#0"): 1}.get((p, k))
                    return None if pres is None else (l.id, pres ^ neg)
                if k == "#0" and d.get("pred") in ("eq", "ne"):
                    neg ^= d.get("pred") == "eq"
                    v = d.args[0]
                    continue
                # iterators that are plain pointers
                a, b = d.args
                fa, fb = self.has(a, {"find", "lower_bound"}), self.has(b, {"find", "lower_bound"})
                ea, eb = self.has(a, ENDS), self.has(b, ENDS)
                if d.get("pred") in ("eq", "ne") and (fa and eb or fb and ea):
                    return ((fa or fb)[0], int(d.get("pred") == "ne") ^ neg)
                return None
            elif d.is_call() and d.id in self.ops:
                k, m = self.ops[d.id]
                if m == "contains":
                    return (d.id, 1 ^ neg)
                if m in ("operator==", "operator!=") and len(d.args) == 2:
                    a, b = d.args
                    fa, fb = self.has(a, {"find"}), self.has(b, {"find"})
                    ea, eb = self.has(a, ENDS), self.has(b, ENDS)
                    if fa and eb and not ea or fb and ea and not eb:
                        return ((fa or fb)[0], int(m == "operator!=") ^ neg)
                return None
            else:
                return None
        return None

    def element(self, p):
        """the lookup calls an address inside the container comes from: list of call ids, or None when it is not an element"""
        b, o, vo = addr(self.fn, p)
        d = self.fn.defs.get(b)
        for _ in range(4):
            if d is not None and d.op == "phi":
                return None
            if d is None or d.id not in self.ops:
                return None
            k, m = self.ops[d.id]
            if k == "map" and m in INDEX | {"at"}:
                return [d.id]
            if k == "iter" and m in ("operator*", "operator->"):
                return sorted(self.sources(d.args[0])) or None
            return None
        return None

    def key_of(self, cid):
        """the key argument of a lookup"""
        i = self.fn.defs[cid]
        return i.args[-1]
