"""C19: a clone carries its original's type and whole configuration."""
import re
from heap import Heap, has, leaves, mentions, split_params
from ir import ACCESSORS

TECHNIQUE = ("abstract store over every Clone function and hand-written copy operation: where the content of each member of the result comes from, compared with where the "
             "constructors and setters of the class take it from; plus a query over the virtual tables")
LEVEL_NOTE = "all Clone functions and hand-written copies of library classes, thread and MPI configuration; all paths; members filled element by element in a loop are not judged"
EXPLANATION = """
For every Clone function (and hand-written copy assignment or copy construction) the abstract store gives, at each normal exit, the origin of every member of the result. Rules: dynamic-type (the object returned
has the class's own virtual table, and no concrete class inherits the Clone of a base class), carries (a member that constructors or setters of the class set from what they are given
holds the original's value of the same member: another member's value or a constant is reported), owns (an owned object is a clone of the original's, or absent when the original's is absent; the same pointer is reported).
A member every constructor sets to the same constant and no setter changes is the state of a run, not configuration. A Clone that always throws refuses to clone and is left alone.
"""
ASSUMPTIONS = ["user-defined Clone functions honour the same contract"]
CONFIGS = ["thread", "mpi"]
SET = re.compile(r"::(set_\w+|Set[A-Z]\w*|Initialize|Init|Add\w*)\(")


def clones(j):
    r = []
    for f, d in j["funcs"].items():
        n = j["dem"].get(f, f)
        if not d.get("repo") or not n.startswith("k52::"):
            continue
        if n.endswith("::Clone() const"):
            r.append(f)
        m = re.match(r"^(k52::[\w:]+)::operator=\((k52::[\w:]+) const&\)$", n)
        if m and m.group(1) == m.group(2) and declared(j, m.group(1), f):
            r.append(f)
            last = m.group(1).split("::")[-1]
            r += [g for g, e in j["funcs"].items() if j["dem"].get(g, g) == "%s::%s(%s const&)" % (m.group(1), last, m.group(1)) and re.search(r"C1E|C2E", g)][:1]
    return r


def declared(j, cls, f):
    return any(e["k"] == "f" and e.get("ln") == f for c in j["classes"].values() if c["name"] == cls for e in c["elems"])


def makers(j):
    cls = {re.sub(r"::(Clone|operator=).*", "", j["dem"].get(f, f)) for f in clones(j)}
    r = []
    for f, d in j["funcs"].items():
        n = j["dem"].get(f, f)
        if not d.get("repo") or n.endswith(" const"):
            continue
        m = re.match(r"^(k52::[\w:]+)::(\w+)\(", n)
        if m and m.group(1) in cls and (m.group(2) == m.group(1).split("::")[-1] or SET.search(n)):
            r.append(f)
    return r


OPAQUE = [r"^std::", r"^boost::shared_ptr<.*>::(~?shared_ptr|operator=|reset|swap)", r"^boost::[a-np-z]", r"IdentifyableObjectsManager", r"::CountTotalChromosomeSize"]


def jobs(config):
    return [{"id": "clone", "select": clones, "opaque": OPAQUE, "inline": ACCESSORS}, {"id": "make", "select": makers, "opaque": OPAQUE, "inline": ACCESSORS}]


def fields(prog, tid, off=0, pre=""):
    c = prog.classes.get(tid)
    if not c:
        return
    for e in c["elems"]:
        t = prog.classes.get(e.get("t"), {})
        name = str(t.get("name", e.get("t")))
        if e["k"] == "b" and name.startswith("k52::"):
            yield from fields(prog, e["t"], off + e["off"], pre)
        elif e["k"] == "m":
            if name.startswith("k52::") and not t.get("enum"):
                yield from fields(prog, e["t"], off + e["off"], pre + e["n"] + ".")
            else:
                yield pre + e["n"], off + e["off"], name


def strip(v):
    while isinstance(v, tuple) and v and v[0] == "copy":
        v = v[1]
    return v


def plain(v):
    """a constant or an empty object"""
    v = strip(v)
    return v[0] == "c" or v[0] == "obj" and len(v) <= 3 and all(x[0] in ("c", "o") for x in v[2:])


def direct(terms):
    """constructors store an argument as it is"""
    return any(strip(t)[0] == "a" for t in terms) and all(strip(t)[0] in ("a", "c") for t in terms)


CONTAINER = re.compile(r"^std::(__cxx11::)?(vector|list|map|set|deque)<")


def settings(prog):
    """per class: offset -> set of terms the constructors and setters store there"""
    res, seen = {}, set()
    by = {c["name"]: k for k, c in prog.classes.items()}
    private = {(c["name"], tuple(e.get("ptypes", [])[2:])) for c in prog.classes.values() for e in c["elems"]
               if e["k"] == "f" and e.get("acc") == "private" and e["n"] == c["name"].split("::")[-1]}
    for f in prog.jobs["make"]:
        if f.dem in seen or not f.d["args"] or f.d["args"][0].get("n") != "this":
            continue
        seen.add(f.dem)
        cls, m = re.match(r"^(k52::[\w:]+)::(\w+)\(", f.dem).groups()
        ctor = m == cls.split("::")[-1]
        ps = split_params(f.dem)
        if ctor and any(c == cls and len(p) == len(ps) for c, p in private) and not any(
                e["k"] == "f" and e["n"] == m and e.get("acc") != "private" and len(e.get("ptypes", [])) - 2 == len(ps) for e in prog.classes[by[cls]]["elems"]):
            continue
        h = Heap(f)
        try:
            exits = h.run()
        except OverflowError:
            continue
        for e in exits:
            if e[0] != "ret":
                continue
            for n, o, t in fields(prog, by[cls]):
                v = strip(h.read(e[2], (("a", 0), o)))
                if v != ("in", ("a", 0), o):
                    res.setdefault(cls, {}).setdefault(o, set()).add(v)
    return res


def configured(terms):
    """the member is set from what the caller gives: True; left as the run's own state: False; flags only ever constant: None"""
    if not terms:
        return False
    if any(not plain(t) for t in terms):
        return True
    return None if len({str(t) for t in terms if t[0] == "c"}) > 1 else False


FLOAT = ("fadd", "fsub", "fmul", "fdiv", "fneg")


def recomputed(t, v):
    """the constructor's own formula t, with its arguments read from members"""
    t, v = strip(t), strip(v)
    if t[0] == "a":
        return v[0] == "in"
    if t[0] in ("phi", "r", "?"):
        return False
    if t[0] == "c" or v[0] == "c":
        return t == v
    return t[:3] == v[:3] and len(t) == len(v) and all(recomputed(x, y) for x, y in zip(t[3:], v[3:])) if t[0] == "op" else t[0] == v[0]


def rebuilt(f, h, prog, by, conf, st, v, same, n):
    """an owned object made anew instead of being cloned: what of the original's it never looks at ('' when it looks at everything, None when unknown)"""
    vp = h.read(st, (v, 0))
    if not (vp[0] == "p" and vp[1][0] == "c" and str(vp[1][1]).startswith("@_ZTV")):
        return None
    cls = next((x for x, k in by.items() if k[4:] == str(vp[1][1])[5:]), None)
    if cls is None or cls not in conf:
        return None
    if pinned(st, same, ("c", "null")):
        return None
    read, whole = set(), False
    for i in f.insts():
        if i.op == "load":
            l = h.loc(h.term(i.args[0], st))
            if l[0] == same:
                read.add(l[1])
        elif i.is_call():
            m = prog.dem(i.callee) if i.callee else ""
            if i.callee and i.callee.startswith("llvm.mem") or not i.callee or m.startswith("k52::"):
                whole = whole or any(isinstance(a, str) and h.loc(h.term(a, st)) == (same, 0) for a in i.args)
    if whole:
        return None
    for m, o, t in fields(prog, by[cls]):
        ts = conf[cls].get(o, ())
        if m.startswith("_vptr") or not any(x[0] == "a" for t2 in ts for x in leaves(strip(t2))):
            continue
        if not any(o <= r < o + 8 for r in read):
            return "%s of the copy is built anew, without looking at %s of the original's" % (n, m)
    return ""


def element(h, orig, out):
    """one element of a container of the copy is stored: does it come from the same position of the original's?"""
    def call(i, st, name):
        b = h.prog.base(i.callee) if i.callee else ""
        last = b.split("::")[-1]
        sp = b.startswith(("boost::shared_ptr", "std::shared_ptr"))
        if not (sp and last in ("operator=", "reset") and len(i.args) == 2 or last == "push_back"):
            return None
        d = h.term(i.args[0], st)
        v = h.read(st, h.loc(h.term(i.args[1], st))) if last != "reset" else h.term(i.args[1], st)
        v = strip(v)
        if v[0] != "r" or not v[2].endswith("::Clone") or len(v) < 4 or not any(i.bb in l.body for l in h.f.loops()):
            return None
        if last != "push_back" and not (d[0] == "e" and has(d[3:], "phi")):
            return None
        s = v[3]
        if not mentions(s, orig):
            return None
        if not has(s, "phi") and not has(s, "?"):
            out.setdefault(i.loc, "every element of the copy is a clone of the same element of the original")
        elif last != "push_back" and s[0] == "in" and s[1][0] == "e" and s[1][3:] != d[3:] and len(s[1]) == 4 and len(d) == 4 and {x for x in leaves(s[1][3:]) if x[0] == "phi"} == {
                x for x in leaves(d[3:]) if x[0] == "phi"} and s[1][3][1] == d[3][1]:
            out.setdefault(i.loc, "the elements of the copy are at other positions than the original's")
        else:
            out.setdefault(i.loc, "")
        return None
    return call


def pinned(st, same, v):
    """the path knows that the original's member has this value"""
    v = strip(v)
    zero = v in (("c", "null"), ("c", "#0"))
    for e in st:
        if e[0] == "F" and e[2] == same:
            if e[1] in ("ieq", "foeq") and (e[3] == v or zero and e[3] in (("c", "null"), ("c", "#0"))):
                return True
            if e[1] == "ine" and e[3] == ("c", "#0") and v in (("c", "#1"), ("c", "#true")):
                return True
    return False


def empty(st, orig):
    """the path knows that some part of the original is absent: an object that was never filled"""
    return any(e[0] == "F" and e[1] == "ieq" and e[2][0] == "in" and e[2][1] == orig and e[3] in (("c", "null"), ("c", "#0")) for e in st)


def check(ck, prog):
    by = {c["name"]: k for k, c in prog.classes.items()}
    conf = settings(prog)
    seen = set()
    for f in prog.jobs["clone"]:
        if f.dem in seen:
            continue
        seen.add(f.dem)
        cls = re.match(r"^(k52::[\w:]+)::(?:\w+|operator=)\(", f.dem).group(1)
        if cls not in by:
            ck.count("classes without information")
            continue
        is_clone = f.dem.endswith("::Clone() const")
        orig = ("a", 0) if is_clone else ("a", 1)
        if is_clone and f.d["args"] and f.d["args"][0].get("sret"):
            continue
        h = Heap(f)
        els = {}
        h.on_call = element(h, orig, els)
        try:
            exits = h.run()
        except OverflowError:
            ck.count("undecided")
            continue
        rets = [e for e in exits if e[0] == "ret"]
        w = f.dem.split("(")[0].replace("k52::", "") + ("" if is_clone else " (copy)")
        ck.count("clone functions", 1)
        if not rets:
            ck.ob("refuses", w, True)
            continue
        bad, good, filled = {}, {}, set()
        for e in rets:
            st = e[2]
            R = e[4] if is_clone else ("a", 0)
            if not is_clone and any(x[0] == "F" and x[1] == "ieq" and {x[2], x[3]} == {("a", 0), ("a", 1)} for x in st):
                continue        # assigned to itself
            if is_clone:
                if R is not None and R[0] == "c":
                    bad["dynamic-type", "result"] = "returns no object"
                    continue
                if R is None or R[0] != "o":
                    ck.count("undecided")
                    continue
                vp = h.read(st, (R, 0))
                if vp[0] == "p" and vp[1][0] == "c" and str(vp[1][1]).startswith("@_ZTV"):
                    z = str(vp[1][1])[5:]
                    own = by[cls][4:]
                    if z != own:
                        bad["dynamic-type", "virtual table"] = "makes an object of another class (%s)" % prog.dem("_ZTV" + z)
                    else:
                        good["dynamic-type", "virtual table"] = 1
                else:
                    ck.count("undecided")
            for n, o, t in fields(prog, by[cls]):
                v = h.read(st, (R, o))
                copied = v[0] == "copy"
                v = strip(v)
                same = ("in", orig, o)
                c = configured(conf.get(cls, {}).get(o, ()))
                owner = "shared_ptr<" in t or "unique_ptr<" in t
                if owner and v == same:
                    if pinned(st, same, ("c", "null")):
                        good["owns", n] = 1
                    elif c is not False:
                        bad["owns", n] = "the copy shares %s with its original" % n
                elif owner and v[0] == "r" and v[2].endswith("::Clone"):
                    of = [x for x in leaves(v[3:]) if x[0] == "in" and x[1] == orig]
                    if same in v[3:] or same in of or not of:
                        good["owns", n] = 1
                    else:
                        bad["owns", n] = "%s of the copy is a clone of another member" % n
                elif v == same:
                    good["carries", n] = 1
                elif v[0] == "in" and v[1] == orig:
                    bad["carries", n] = "%s takes the value of another member (offset %s)" % (n, v[2])
                elif CONTAINER.match(t) and v[0] == "obj":
                    if any(x[0] == "M" and x[1][0] != "havoc" and isinstance(x[1][0], tuple) and x[1][0][:1] == ("e",) and mentions(x[1][0], v) for x in st):
                        filled.add(n)
                    elif c is False:
                        good["carries", n] = 1
                    elif pinned(st, same, v) or empty(st, orig):
                        ck.count("undecided")
                    else:
                        bad["carries", n] = "the elements of %s do not come from the original" % n
                elif CONTAINER.match(t):
                    filled.add(n)
                    ck.count("undecided")
                elif c and v[0] == "op" and not owner and all(x[0] in ("in", "c") and x[1] != ("a", 1 - orig[1]) for x in leaves(v)) and (
                        any(strip(t)[0] == "a" for t in conf[cls][o]) or v[1] in FLOAT and not any(recomputed(t, v) for t in conf[cls][o])):
                    bad["carries", n] = "%s of the copy is %s" % (n, "computed from the original's instead of being the same" if mentions(v, same) else "computed from other members")
                elif owner and v[0] == "o" and c is not False and rebuilt(f, h, prog, by, conf, st, v, same, n) is not None:
                    r = rebuilt(f, h, prog, by, conf, st, v, same, n)
                    if r:
                        bad["owns", n] = r
                    else:
                        good["owns", n] = 1
                elif plain(v) or not is_clone and v == ("in", R, o) or v[0] == "undef":
                    if not is_clone and v == ("in", R, o) and owner:
                        if pinned(st, same, ("c", "null")):
                            continue
                    if c is False and is_clone or pinned(st, same, v):
                        good["carries", n] = 1
                    elif not is_clone and not owner:
                        bad["carries", n] = "%s of the copy does not come from the original" % n
                    elif c is None or empty(st, orig):
                        ck.count("undecided")
                    else:
                        bad["carries", n] = "%s of the copy does not come from the original" % n
                else:
                    ck.count("undecided")
        for l, m in sorted(els.items()):
            ck.ob("elements", "%s %s" % (w, l), not m, "%s: %s (%s)" % (w, m, l), "elements:%s" % w)
        bad = {k: m for k, m in bad.items() if not (k[0] == "carries" and k[1] in filled)}
        for (rule, n), m in sorted(bad.items()):
            ck.ob(rule, "%s %s" % (w, n), False, "%s: %s" % (w, m), "%s:%s:%s" % (rule, w, n))
        for rule, n in sorted(set(good) - set(bad)):
            ck.ob(rule, "%s %s" % (w, n), True)
    # no concrete class answers Clone with its base's function
    for vt, slots in prog.vtables.items():
        m = re.match(r"^(_ZTSN3k52\w+)$", vt)
        if not m or vt not in prog.classes:
            continue
        for tab in slots:
            fns = tab[2]
            if tab[0] != "_ZTV" + vt[4:] or "__cxa_pure_virtual" in fns:
                continue
            for g in fns:
                d = prog.dem(g)
                if d.startswith("k52::") and d.endswith("::Clone() const"):
                    ck.ob("own-clone", prog.classes[vt]["name"], d == prog.classes[vt]["name"] + "::Clone() const",
                          "%s has no Clone of its own and answers with %s" % (prog.classes[vt]["name"], d), "own-clone:" + prog.classes[vt]["name"])
    for k in ("HookeJeevesMethod", "DoubleParameter", "Individual::"):
        ck.need(any(k in s for s in seen), "copies of " + k)


MINIMUM = {"carries": 25, "dynamic-type": 8}
