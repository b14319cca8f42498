"""Interval and order facts implied by the comparisons on a path (terms of heap.py)."""
INF = float("inf")


def num(t):
    if isinstance(t, tuple) and t[0] == "op" and t[1] in ("sitofp", "uitofp"):
        return num(t[3])
    if isinstance(t, tuple) and t[0] == "c" and isinstance(t[1], str) and t[1].startswith("#") and t[1] != "#big":
        v = t[1][1:]
        try:
            return float(v[1:]) if v.startswith("f") else int(v)
        except ValueError:
            return None
    return None


def bytes_of(t):
    """t is a vector's size: end - begin, possibly shifted"""
    if t[0] == "op" and t[1] == "ashr" and num(t[4]) is not None:
        t = t[3]
    return t if t[0] == "op" and t[1] == "sub" and all(x[0] == "op" and x[1] == "ptrtoint" for x in t[3:]) else None


class Bounds:
    """lo/hi: term -> (bound, strict); lt: set of (x, y, strict) for x < y or x <= y; ne: term -> excluded values"""

    def __init__(self, facts, unsigned=()):
        self.lo, self.hi, self.rel, self.ne, self.ints, self.nn, self.null, self.diff = {}, {}, set(), {}, set(unsigned), set(), set(), set()
        self.parity = {}
        for u in unsigned:
            self.lo[u] = (0, False)
        for f in facts:
            if f[0] == "F":
                self.fact(f[1], f[2], f[3])
        self.close()

    def fact(self, p, x, y):
        kind, rel = p[0], p[1:]
        if kind == "f":
            rel = {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne"}.get(rel) or rel[1:]
        elif rel[0] in "su" and rel not in ("eq", "ne"):
            rel = rel[1:]
        if rel not in ("lt", "le", "gt", "ge", "eq", "ne"):
            return
        if x == ("c", "null") or y == ("c", "null"):
            t = y if x == ("c", "null") else x
            (self.null if rel == "eq" else self.nn).add(t)
            return
        self.order(x, rel, y, kind == "i")

    def order(self, x, rel, y, integer):
        if rel in ("eq", "ne"):
            # element counts: byte distances compare like the counts do
            sx, sy = bytes_of(x), bytes_of(y)
            if sx and sy and not getattr(self, "in_sizes", False):
                self.in_sizes = True
                for k in ("#1", "#2", "#3", "#4", "#5"):
                    self.order(("op", "ashr", None, sx, ("c", k)), rel, ("op", "ashr", None, sy, ("c", k)), integer)
                self.in_sizes = False
        a, b = num(x), num(y)
        if a is not None and b is None:
            return self.order(y, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(rel, rel), x, integer)
        if b is not None:
            if integer:
                self.ints.add(x)
            return self.bound(x, rel, b, integer)
        if rel == "gt":
            x, y, rel = y, x, "lt"
        elif rel == "ge":
            x, y, rel = y, x, "le"
        if rel == "lt":
            self.rel.add((x, y, True))
        elif rel == "le":
            self.rel.add((x, y, False))
        elif rel == "ne":
            self.diff |= {(x, y), (y, x)}
        elif rel == "eq":
            self.rel |= {(x, y, False), (y, x, False)}

    def bound(self, x, rel, c, integer, depth=0):
        """x rel constant"""
        if depth > 12:
            return
        if rel == "eq":
            self.bound(x, "le", c, integer, depth + 1)
            self.bound(x, "ge", c, integer, depth + 1)
            if x[0] == "op" and x[1] in ("srem", "urem", "and") and num(x[4]) in (2, 1) and (x[1] != "and" or num(x[4]) == 1):
                self.parity[x[3]] = c & 1 if isinstance(c, int) else None
            return
        if rel == "ne":
            self.ne.setdefault(x, set()).add(c)
            if x[0] == "op" and x[1] in ("srem", "urem", "and") and (num(x[4]) == 2 and x[1] != "and" or x[1] == "and" and num(x[4]) == 1):
                self.parity[x[3]] = 1 if c == 0 else 0 if c == 1 and x[1] != "srem" else None
            return
        low = rel in ("gt", "ge")
        strict = rel in ("gt", "lt")
        if integer and strict:
            c, strict = (c + 1, False) if low else (c - 1, False)
        d = self.lo if low else self.hi
        o = d.get(x)
        better = o is None or (c > o[0] or c == o[0] and strict) if low else o is None or (c < o[0] or c == o[0] and strict)
        if better:
            d[x] = (c, strict)
        if bytes_of(x) is x and c == int(c):
            for k in range(1, 6):
                self.bound(("op", "ashr", None, x, ("c", "#%d" % k)), "ge" if low else "le", int(c) >> k, True, depth + 5)
        # invert monotone operations
        if x[0] != "op":
            return
        op, a = x[1], x[3:]
        flip = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}
        k = num(a[1]) if len(a) > 1 else None
        r = ("g" if low else "l") + ("t" if strict else "e")
        if op in ("add", "fadd") and k is not None:
            self.bound(a[0], r, c - k, op == "add", depth + 1)
        elif op in ("sub", "fsub") and k is not None:
            self.bound(a[0], r, c + k, op == "sub", depth + 1)
        elif op in ("fmul", "mul") and k:
            self.bound(a[0], r if k > 0 else flip[r], c / k, False, depth + 1)
        elif op == "fdiv" and k:
            self.bound(a[0], r if k > 0 else flip[r], c * k, False, depth + 1)
        elif op in ("sub", "fsub") and k is None and c == 0:
            self.rel.add((a[1], a[0], strict) if low else (a[0], a[1], strict))
        elif op in ("sub", "fsub") and low and c > 0:
            self.rel.add((a[1], a[0], True))
        elif op in ("sub", "fsub") and not low and c < 0:
            self.rel.add((a[0], a[1], True))
        elif op == "sub" and low and c >= 0:
            self.rel.add((a[1], a[0], c > 0))
        elif op == "fdiv" and num(a[0]) is not None and num(a[0]) > 0:
            n = num(a[0])
            if low and (c > 0 or c == 0 and strict):
                # n/u > c > 0 means 0 <= u <= n/c (u = 0 gives infinity)
                self.bound(a[1], "ge", 0, False, depth + 1)
                if c > 0:
                    self.bound(a[1], "lt" if strict else "le", n / c, False, depth + 1)
            elif not low and c > 0 and a[1] in self.lo and self.lo[a[1]][0] >= 0:
                self.bound(a[1], "gt" if strict else "ge", n / c, False, depth + 1)
            if not low and c != INF:
                self.finite(a[1])
        elif op == "floor":
            if low:
                import math
                self.bound(a[0], "ge", math.floor(c) + 1 if strict else math.ceil(c), False, depth + 1)
            else:
                import math
                self.bound(a[0], "lt", math.ceil(c) if strict else math.floor(c) + 1, False, depth + 1)
        elif op == "ceil":
            import math
            if low:
                self.bound(a[0], "gt", math.floor(c) if strict else math.ceil(c) - 1, False, depth + 1)
            else:
                self.bound(a[0], "le", math.ceil(c) - 1 if strict else math.floor(c), False, depth + 1)
        elif op == "fptosi":
            # truncation: at least n >= 1 means the operand is at least n
            if low and c >= 1:
                self.bound(a[0], "ge", c, False, depth + 1)
            elif not low and c < 0:
                self.bound(a[0], "le", c, False, depth + 1)
            elif not low:
                self.bound(a[0], "lt", c + 1, False, depth + 1)
        elif op == "sitofp" or op == "uitofp":
            self.bound(a[0], r, c, False, depth + 1)

    def finite(self, x):
        """1/x is bounded above: x is not zero (with a positive quotient x is positive)"""
        self.ne.setdefault(x, set()).add(0)

    def close(self):
        for _ in range(8):
            ch = False
            for x, y, s in list(self.rel):
                if x in self.lo:
                    c, st = self.lo[x]
                    n = (c, st or s)
                    o = self.lo.get(y)
                    if o is None or n[0] > o[0] or n[0] == o[0] and n[1] and not o[1]:
                        self.lo[y] = n
                        ch = True
                if y in self.hi:
                    c, st = self.hi[y]
                    n = (c, st or s)
                    o = self.hi.get(x)
                    if o is None or n[0] < o[0] or n[0] == o[0] and n[1] and not o[1]:
                        self.hi[x] = n
                        ch = True
                for y2, z, s2 in list(self.rel):
                    if y2 == y and x != z and (x, z, s or s2) not in self.rel and len(self.rel) < 200:
                        self.rel.add((x, z, s or s2))
                        ch = True
            for x, cs in self.ne.items():
                if x in self.lo:
                    c, s = self.lo[x]
                    while c in cs and not s:
                        if x in self.ints:
                            c += 1
                        else:
                            s = True
                        ch = True
                    self.lo[x] = (c, s)
                if x in self.hi:
                    c, s = self.hi[x]
                    while c in cs and not s:
                        if x in self.ints:
                            c -= 1
                        else:
                            s = True
                        ch = True
                    self.hi[x] = (c, s)
            if not ch:
                break

    # --- requirements: ("gt"|"ge"|"lt"|"le", x, y-or-number), ("even", x), ("odd", x), ("nonnull", t), ("null", t), ("any", ...), ("all", ...)
    def implies(self, r):
        k = r[0]
        if k in ("any", "equiv"):
            return any(self.implies(x) for x in r[1:])
        if k == "all":
            return all(self.implies(x) for x in r[1:])
        if k == "even" or k == "odd":
            return self.parity.get(r[1]) == (0 if k == "even" else 1)
        if k == "nonnull":
            return r[1] in self.nn
        if k == "null":
            return r[1] in self.null
        if k == "true":
            return self.implies(("ge", r[1], 1)) or 0 in self.ne.get(r[1], ())
        if k == "false":
            return self.hi.get(r[1]) == (0, False)
        x, y = r[1], r[2]
        if k in ("matched", "unmatched"):
            # x equals (differs from) something held in y
            from heap import mentions
            return any(a == x and mentions(b, y) and ((b, a, False) in self.rel and not s if k == "matched" else True)
                       for a, b, s in (self.rel if k == "matched" else {(p, q, 0) for p, q in self.diff}))
        if k == "eq":
            return (x, y, False) in self.rel and (y, x, False) in self.rel
        if k == "ne":
            return (x, y) in self.diff or (x, y, True) in self.rel or (y, x, True) in self.rel or self.gap(x, y, "lt") or self.gap(y, x, "lt")
        if not isinstance(y, tuple):
            integer = x in self.ints
            d = self.lo if k in ("gt", "ge") else self.hi
            if x not in d:
                return False
            c, s = d[x]
            if integer and k == "gt":
                return c >= y + 1
            if integer and k == "lt":
                return c <= y - 1
            if k == "gt":
                return c > y or c == y and s
            if k == "ge":
                return c >= y
            if k == "lt":
                return c < y or c == y and s
            return c <= y
        if k in ("gt", "ge"):
            x, y, k = y, x, {"gt": "lt", "ge": "le"}[k]
        return (x, y, True) in self.rel or k == "le" and (x, y, False) in self.rel or self.gap(x, y, k)

    def gap(self, x, y, k):
        if x in self.hi and y in self.lo:
            a, s = self.hi[x]
            b, t = self.lo[y]
            return a < b or a == b and (k == "le" or s or t)
        return False

    def empty(self):
        """the facts contradict each other"""
        for x in self.lo:
            if x in self.hi:
                a, s = self.lo[x]
                b, t = self.hi[x]
                if a > b or a == b and (s or t):
                    return True
        return any((y, x, True) in self.rel or s and (y, x, False) in self.rel for x, y, s in self.rel)


NEG = {"gt": "le", "ge": "lt", "lt": "ge", "le": "gt", "even": "odd", "odd": "even", "nonnull": "null", "null": "nonnull", "eq": "ne", "ne": "eq", "true": "false", "matched": "unmatched"}


def negate(r):
    if r[0] == "equiv":  # equivalent, given the other requirements
        return ("any",) + tuple(negate(x) for x in r[1:])
    if r[0] == "any":
        return ("all",) + tuple(negate(x) for x in r[1:])
    if r[0] == "all":
        return ("any",) + tuple(negate(x) for x in r[1:])
    return (NEG[r[0]],) + tuple(r[1:])


NOT = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}


def plain(p):
    rel = p[1:]
    if p[0] == "f":
        return {"oeq": "eq", "ueq": "eq", "one": "ne", "une": "ne"}.get(rel) or rel[1:]
    return rel[1:] if rel not in ("eq", "ne") else rel


def find_select(t):
    if isinstance(t, tuple) and t:
        if t[0] == "op" and t[1] == "select" and isinstance(t[3], tuple) and t[3][0] == "op" and t[3][1] in ("icmp", "fcmp"):
            return t
        for y in t:
            r = find_select(y)
            if r:
                return r
    return None


def subst(t, x, y):
    if t == x:
        return y
    return tuple(subst(z, x, y) for z in t) if isinstance(t, tuple) else t


class Cases:
    """the facts of a path, split over the choices (x < y ? x : y) their terms contain"""

    def __init__(self, facts, unsigned=()):
        todo, self.cs = [list(facts)], []
        while todo:
            fs = todo.pop()
            s = next((x for x in map(find_select, fs) if x), None)
            if s is None or len(todo) + len(self.cs) > 32:
                if consistent(fs):
                    b = Bounds(fs, unsigned)
                    if not b.empty():
                        self.cs.append(b)
                continue
            c = s[3]
            k = "f" if c[1] == "fcmp" else "i"
            rel = plain(k + c[2])
            sgn = "u" if k == "i" and c[2].startswith("u") else "s" if k == "i" else "o"
            for r, v in ((rel, s[4]), (NOT[rel], s[5])):
                p = k + (r if k == "i" and r in ("eq", "ne") else sgn + r)
                todo.append([subst(f, s, v) for f in fs] + [("F", p, c[3], c[4])])

    def empty(self):
        return not self.cs

    def implies(self, r):
        return all(b.implies(r) for b in self.cs)


def consistent(fs):
    for f in fs:
        if f[0] != "F":
            continue
        rel = plain(f[1])
        a, b = num(f[2]), num(f[3])
        if f[2] == f[3]:
            if rel in ("ne", "lt", "gt"):
                return False
        elif a is not None and b is not None:
            if not {"eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}.get(rel, True):
                return False
    return True
