"""C22: a rejected update leaves the object as it was."""
import re
from heap import Heap, has
from ir import ACCESSORS

TECHNIQUE = ("forward dataflow with an abstract store over every updating member function: at each point where the library itself throws, every location of the receiving object "
             "(its own members and the elements of its containers) and of other library objects passed in for modification must still hold its content on entry")
LEVEL_NOTE = "all updating operations of all library classes (setters, initialisation, assignment from a chromosome, crossover, reading from a stream, stream or cache insertion); all paths to a throw of the library"
EXPLANATION = """
Every member function of a k52 class that updates its object (name starting with set, Set, Initialize, Init, Add, put, load, Register, Copy, Crossover, Optimize on the
type-checking entry, operator=, operator>>) is analysed with its private helpers and the library's own guards inlined. The abstract store keeps, for each location of the objects
the function may modify, a term that says where its content comes from. At each explicit throw of the library, whatever was written into the object before has to be its old content again
(a value saved and put back or swapped back counts as unchanged). Branches whose condition contradicts what the path already established are not followed, nor are paths on which two flags
differ that every constructor and every operation of the class leave equal (established by the same analysis, by induction over the operations).
"""
ASSUMPTIONS = ["exceptions thrown by user code (Clone, virtual parameters) are not rejections by the library",
               "objects reached through owned pointers that only const operations write are scratch space",
               "objects of standard library types passed in (streams, ranges of a chromosome) are not the updated object"]
UPDATE = re.compile(r"(?:^|::)(set_\w+|Set\w*|Initialize|Init|Add\w*|put|load|Load\w*|Register\w*|CopyState|Crossover|operator=|operator>>|OnNextGenerationReadyConnect)$")
SKIP = re.compile(r"SetRandomChromosome|SetParametersAccordingToChromosome|SetGensToSkipNow|ThreadWorkerPoolTemplated|GeneticAlgorithm::Initialize$")


def private(j):
    return {e.get("ln") for c in j["classes"].values() for e in c["elems"] if e["k"] == "f" and e.get("acc") in ("private", "protected")}


def composite(j):
    p = private(j)
    return [f for f, d in j["funcs"].items() if d.get("repo") and f not in p and j["dem"].get(f, f).startswith("k52::optimization::CompositeDiscreteParameters::")]


def updates(j):
    r = []
    p = private(j)
    for f, d in j["funcs"].items():
        if f in p:
            continue        # reached through the public operations
        n = j["dem"].get(f, f)
        if not d.get("repo") or "k52::" not in n or n.endswith(" const") or "thunk" in n:
            continue
        head = re.sub(r"\(.*", "", n.replace("operator()", "operatorCALL"))
        head = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", head)))
        head = head.split(" ")[-1]
        if head.startswith("k52::") and UPDATE.search(head) and not SKIP.search(head):
            r.append(f)
        elif re.match(r"^k52::optimization::(Continuous|Discrete)Optimizer::Optimize\(k52::optimization::IObjectiveFunction", n):
            r.append(f)
    return r


def jobs(config):
    return [{"id": "f", "select": updates, "opaque": [r"^std::", r"^boost::", r"^k52::parallel::WorkerPoolFactory::"], "inline": ACCESSORS},
            {"id": "inv", "select": composite, "opaque": [r"^std::", r"^boost::"], "inline": ACCESSORS}]


def container_at(prog, fn, t):
    """is t = content of a member of an argument object that is a container (its element storage)?"""
    if t[0] != "in":
        return False
    b, o = t[1], t[2]
    if not (isinstance(b, tuple) and b[0] == "a"):
        return False
    dt = str(fn.d["args"][b[1]].get("dt", "")).rstrip("*&")
    return member_is_container(prog, dt, o)


def member_is_container(prog, tid, off):
    c = prog.classes.get(tid)
    if not c:
        return False
    for e in c["elems"]:
        if e["k"] == "b":
            n = prog.classes.get(e["t"], {}).get("name", "")
            if n.startswith("k52::") and member_is_container(prog, e["t"], off - e["off"]):
                return True
        elif e["k"] == "m":
            n = str(prog.classes.get(e["t"], {}).get("name", e["t"]))
            if e["off"] <= off < e["off"] + 80 and re.match(r"^std::(__cxx11::)?(vector|list|map|deque|array|basic_string)<", n) and off - e["off"] in (0, 8, 16):
                return True
            if n.startswith("k52::") and member_is_container(prog, e["t"], off - e["off"]):
                return True
    return False


def ours(prog, fn, k):
    a = fn.d["args"][k]
    dt = str(a.get("dt", ""))
    return a.get("t") == "ptr" and not a.get("sret") and (a.get("n") == "this" or prog.classes.get(dt.rstrip("*&"), {}).get("name", "").startswith("k52::"))


def constarg(fn, k):
    """the parameter is a reference or pointer to const"""
    from heap import split_params
    ps = split_params(fn.dem)
    recv = fn.d["args"] and any(a.get("n") == "this" for a in fn.d["args"])
    sret = 1 if fn.d["args"] and fn.d["args"][0].get("sret") else 0
    j = k - sret - (1 if recv else 0)
    return 0 <= j < len(ps) and "const" in ps[j]


def touched(prog, fn, st):
    """locations of the caller's library objects whose content is no longer the content on entry"""
    res = []
    for x in st:
        if x[0] != "M":
            continue
        l = x[1]
        b = l[1] if l[0] in ("havoc", "zero") else l[0]
        if l[0] == "havoc":
            if isinstance(b, tuple) and b[0] == "a" and ours(prog, fn, b[1]) and not constarg(fn, b[1]):
                res.append((b, "?", "?"))
            continue
        r = b
        while isinstance(r, tuple) and r[0] == "p":
            r = r[1]
        if isinstance(r, tuple) and r[0] == "e":
            r = r[1]
            while isinstance(r, tuple) and r[0] == "p":
                r = r[1]
            if not container_at(prog, fn, r):
                continue
            k = r[1][1]
        elif isinstance(r, tuple) and r[0] == "in" and container_at(prog, fn, r):
            k = r[1][1]
        elif isinstance(r, tuple) and r[0] == "a":
            k = r[1]
        else:
            continue
        if not ours(prog, fn, k):
            continue
        old = ("in",) + l if l[0] != "zero" else None
        v = x[2]
        while isinstance(v, tuple) and v and v[0] == "copy":
            v = v[1]
        if v == old:
            continue
        # known to be equal to what was there before: a flag already tested
        if any(e[0] == "F" and e[1] in ("ieq", "ine") and e[2] == old and e[3] == ("c", "#0") and
               (e[1] == "ieq" and v == ("c", "#0") or e[1] == "ine" and v in (("c", "#1"), ("c", "#true"))) for e in st):
            continue
        res.append((l[0] if l[0] != "zero" else l[1], l[1] if l[0] != "zero" else l[2], v))
    return res


def flags(prog, tid, off=0):
    from checks.c24 import members
    return sorted({o for m, o, t in members(prog, tid) if t == "bool"})


def agreeing(prog):
    """pairs of flags of a class that agree in every reachable object: every constructor leaves them equal, and so does every member function that
    finds them equal (induction over the operations of the class; functions of the class only, so private state)"""
    by = {c["name"]: k for k, c in prog.classes.items()}
    fns = {}
    for f in prog.jobs["inv"]:
        cls = re.sub(r"\(.*", "", f.dem).rsplit("::", 1)[0]
        if cls in by and f.d["args"] and any(a.get("n") == "this" for a in f.d["args"]):
            fns.setdefault(cls, []).append(f)
    res = {}
    for cls, fs in fns.items():
        fl = flags(prog, by[cls])
        for i, a in enumerate(fl):
            for b in fl[i + 1:]:
                if all(keeps(f, cls, a, b) for f in fs):
                    res.setdefault(by[cls], set()).add((a, b))
    return res


def keeps(f, cls, a, b):
    me = next(("a", k) for k, x in enumerate(f.d["args"]) if x.get("n") == "this")
    la, lb = (me, a), (me, b)
    z = ("c", "#0")
    if re.sub(r"\(.*", "", f.dem).rsplit("::", 1)[1] == cls.rsplit("::", 1)[1]:
        starts = [None]
    else:
        starts = [0, 1]
    for v in starts:
        init = set() if v is None else {("F", "ine" if v else "ieq", ("in",) + l, z) for l in (la, lb)}
        h = Heap(f, extra_init=init)
        try:
            exits = h.run()
        except OverflowError:
            return False
        for e in exits:
            if e[0] != "ret":
                continue
            vals = []
            for l in (la, lb):
                t = h.read(e[2], l)
                if t == ("in",) + l:
                    t = v
                elif t[0] == "c" and t[1] in ("#0", "#1", "#true", "#false"):
                    t = int(t[1] in ("#1", "#true"))
                vals.append(t)
            if vals[0] != vals[1] or vals[0] is None:
                return False
    return True


def impossible(prog, fn, st, pairs):
    """the path contradicts an agreement of two flags of an argument object"""
    val = {}
    for e in st:
        if e[0] == "F" and e[1] in ("ieq", "ine") and e[3] == ("c", "#0") and e[2][0] == "in" and isinstance(e[2][1], tuple) and e[2][1][0] == "a":
            val[(e[2][1][1], e[2][2])] = e[1]
    for k, a in enumerate(fn.d["args"]):
        tid = str(a.get("dt", "")).rstrip("*&")
        for x, y in pairs.get(tid, ()):
            if (k, x) in val and (k, y) in val and val[(k, x)] != val[(k, y)]:
                return True
    return False


def bit_write(h, i, st, n):
    """assignment to one bit of a vector<bool> changes the vector"""
    if n.startswith("std::_Bit_reference::operator=("):
        t = h.read(st, h.loc(h.term(i.args[0], st)))
        v = next((x[2] for x in subterms(t) if x[0] == "obj" and x[1] == "std::_Bit_iterator" and len(x) > 2), None)
        if v is not None and v[0] == "in":
            return [("n", h.write(st, (v[1], v[2]), ("?", i.id)))]
    return None


def subterms(t):
    if isinstance(t, tuple) and t:
        yield t
        for y in t:
            yield from subterms(y)


def check(ck, prog):
    seen = set()
    pairs = agreeing(prog)
    ck.fact("flags proved to agree", sorted("%s: %s" % (prog.classes[k]["name"], sorted(v)) for k, v in pairs.items()))
    for f in prog.jobs["f"]:
        if f.dem in seen:
            continue
        seen.add(f.dem)
        if not any(i.callee == "__cxa_throw" for i in f.calls()):
            ck.ob("no-rejection", "%s %s" % (f.loc, f.dem[:90]), True)
            continue
        h = Heap(f, on_call=lambda i, st, n: bit_write(h, i, st, n))
        try:
            exits = h.run()
        except OverflowError:
            ck.count("undecided")
            continue
        sites = {}
        for e in exits:
            if e[0] != "escape" or not any(x[0] == "X" for x in e[2]):
                continue
            if impossible(prog, f, e[2], pairs):
                ck.count("paths excluded by agreeing flags")
                continue
            t = touched(prog, f, e[2])
            where = throw_loc(f, e)
            sites.setdefault(where, []).append((t, any(x[0] == "U" for x in e[2])))
        for w, ts in sorted(sites.items()):
            bad = [t for t, u in ts if t and t[0][1] != "?"]
            ck.ob("unchanged-at-throw", "%s in %s" % (w, f.dem[:90]), not bad,
                  "%s throws at %s after it changed the object (offset %s)" % (f.dem[:100], w, bad and bad[0][0][1]),
                  "%s@%s" % (re.sub(r"\(.*", "", f.dem), "throw"))
            if any(t and t[0][1] == "?" for t, u in ts):
                ck.count("undecided")
    ck.need(any("DoubleParametersArray::SetValues" in s for s in seen), "updating operations")


def throw_loc(f, e):
    return e[1].repo_loc if hasattr(e[1], "repo_loc") else "?"


MINIMUM = {"unchanged-at-throw": 12}
