"""C24: constructors leave no scalar member uninitialised."""
import re
from heap import Heap, PURE
from ir import ACCESSORS

TECHNIQUE = ("definite-assignment dataflow over every constructor of every library class, base constructors and member constructors included "
             "(abstract store: a member whose content at a normal exit is still the content on entry was never written), and a query for uses of undefined values in every function")
LEVEL_NOTE = "all constructors, implicit ones included, of all library classes the build instantiates, in the thread-pool and the MPI configuration; all paths"
EXPLANATION = """
Every constructor of every k52 class (written by hand or generated by the compiler, copy constructors included) is analysed with the constructors of its
bases, its library members and private helpers inlined. The abstract store follows which locations of the object each path writes. At every normal exit each scalar, pointer or
enumeration member of the class, of its library bases and of its nested library members has to hold a value written on that path; one that still
holds what the memory contained before is reported with the constructor. The second rule looks at every function of the library: no instruction may use a value
that is undefined for certain (a local variable read before it was given a value), nor may a loop use in each turn a variable that has no value when the loop is entered.
"""
ASSUMPTIONS = ["members of standard library and boost types initialise themselves",
               "self-initialisation (T x(x)) is out of scope"]
CONFIGS = ["thread", "mpi"]


def ctors(j):
    return [f for f, d in j["funcs"].items() if d.get("repo") and re.match(r"^k52::(.*::)?(\w+)(<.*>)?::\2\(", j["dem"].get(f, f))]


def jobs(config):
    opaque = [r"^std::", r"^boost::shared_ptr<.*>::(~?shared_ptr|operator=|reset|swap)", r"^boost::[a-np-z]", r"^k52::parallel::WorkerPoolFactory::"]
    return [{"id": "ctor", "select": ctors, "opaque": opaque, "inline": ACCESSORS},
            {"id": "all", "roots": ["^k52::", "^(std|boost)::.*k52::"], "flatten": False}]


def members(prog, tid, off=0, pre=""):
    c = prog.classes.get(tid)
    if not c:
        return
    for e in c["elems"]:
        t = prog.classes.get(e.get("t"), {})
        lib = str(t.get("name", "")).startswith("k52::")
        if e["k"] == "b":
            if lib:
                yield from members(prog, e["t"], off + e["off"], pre)
        elif e["k"] == "m":
            if t and not t.get("enum"):
                if lib:
                    yield from members(prog, e["t"], off + e["off"], pre + e["n"] + ".")
                continue
            yield pre + e["n"], off + e["off"], e["t"]


def check(ck, prog):
    by = {c["name"]: k for k, c in prog.classes.items()}
    seen, classes = set(), set()
    for f in prog.jobs["ctor"]:
        if f.dem in seen or not f.d["args"] or f.d["args"][0].get("n") != "this":
            continue
        seen.add(f.dem)
        cls = f.dem.split("(")[0].rsplit("::", 1)[0]
        tid = by.get(cls)
        if not tid:
            ck.count("constructors without class information")
            continue
        ms = list(members(prog, tid))
        if not ms:
            ck.count("constructors of classes without scalar members")
            continue
        h = Heap(f, extra_init={("F", "ine", ("a", 0), ("a", 1))} if len(f.d["args"]) == 2 else ())
        try:
            exits = h.run()
        except OverflowError:
            ck.count("undecided")
            continue
        bad = {}
        for e in exits:
            if e[0] != "ret":
                continue
            for m, o, t in ms:
                if h.read(e[2], (("a", 0), o)) == ("in", ("a", 0), o):
                    bad[m] = t
        short = re.sub(r"\(.*", "", f.dem)
        classes.add(cls)
        for m, o, t in ms:
            ck.ob("members-initialised", "%s %s: %s" % (f.loc, f.dem[:100], m), m not in bad,
                  "the constructor %s leaves the member %s (%s) without a value on some path" % (f.dem[:120], m, t), "%s.%s" % (cls, m))
    ck.count("classes with scalar members", len(classes))
    n = 0
    for f in prog.jobs["all"]:
        hit = None
        for i in f.insts():
            if i.op in ("phi", "insertvalue", "freeze", "insertelement", "shufflevector") or i.is_call() and (i.callee or "").startswith("llvm."):
                continue
            n += 1
            if any(a == "undef" for a in (i.d.get("a") or [])) or i.d.get("cond") == "undef":
                hit = i
                break
        for l in () if hit else f.loops():
            # a variable without a value when the loop is entered, used in every turn before it is set
            undef = {i.id for i in f.blocks[l.header] if i.op == "phi" and all(v == "undef" for b, v in i.args if b not in l.body)}
            while undef and not hit:
                more = set()
                for x in undef:
                    for u in f.uses(x):
                        if u.bb not in l.body or u.id in undef:
                            continue
                        if u.op == "phi":
                            if u.bb != l.header and all(v in undef for b, v in u.args):
                                more.add(u.id)
                        elif all(u.bb in f.dom()[b] for b in l.latches):
                            hit = u
                        elif u.op in PURE:
                            more.add(u.id)
                if not more:
                    break
                undef |= more
        ck.ob("no-undefined-use", f.dem[:100], hit is None, "%s uses a value that was never set (%s)" % (f.dem[:100], hit.repo_loc if hit else ""), "undef." + f.dem[:80])
    ck.count("instructions looked at", n)


MINIMUM = {"members-initialised": 60, "no-undefined-use": 300}
