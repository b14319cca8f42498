"""Worker pool factory: what it says it can create, it creates, and never null."""
import re
from ir import ACCESSORS
from flow import explore, trace, const
from val import addr, flows, key, cint
from parq import STD, OTHER

EXPLANATION = """
The factory's three public functions are flattened (helpers inlined, pool constructors kept as events) and walked once per
enumerator of the pool kind and for values outside the enumeration, with that value propagated as a constant through every
switch and comparison; a static flag the code tests splits the walk.  Rules: agree (the capability answer is the constant
true exactly when the creation request has no failing path of its own), kind (the object created is of the class the
enumerator names, a different one for each), not-null (every normal return hands out the object just created),
unknown-fails (values outside the enumeration are refused by both), once-flag (a kind whose creation depends on a
static flag sets that flag when it creates), best-valid (the best-pool request returns only a pool whose validity test
just succeeded), best-last-resort (it tries the pool kind that is unconditionally valid last, and fails only after it).
Decided separately in each build configuration.
"""
TECHNIQUE = "constant propagation per enumerator with path-sensitive typestate over the flattened factory, in every build configuration"
LEVEL_NOTE = """Exhaustive over enumerators, representatives of out-of-range values, flag states and configurations (thread; plain and
MPI in the thorough tier, the MPI headers being declaration-only stand-ins). Failures inside a pool's own constructor are passed through."""
ASSUMPTIONS = ["a pool constructor either succeeds or throws", "the MPI configuration is compiled against declaration-only headers"]
UNITS = r"^src/parallel/"
CONFIGS = ["thread", "plain"]
THOROUGH_CONFIGS = ["mpi"]
POOL = r"k52::parallel::([a-z]+::)*[A-Za-z]*WorkerPool(Templated<.*>)?::"
JOBS = [{"id": "f", "roots": [r"^k52::parallel::WorkerPoolFactory::"], "opaque": [POOL], "inline": ACCESSORS},
        {"id": "p", "roots": [r"k52::parallel::.*::IsValid\("], "inline": ACCESSORS}]
MINIMUM = {"agree": 4, "kind": 1, "not-null": 1, "unknown-fails": 1, "best-valid": 1, "best-last-resort": 1}
TI = "_ZTSN3k528parallel11IWorkerPoolE"


def check(ck, prog):
    fs = {prog.base(f.name).split("::")[-1]: f for f in prog.jobs["f"]}
    create, can, best = fs.get("CreateWorkerPool"), fs.get("CanCreateWorkerPool"), fs.get("CreateBestWorkerPool")
    ck.need(create and can and best, "the factory's public functions")
    enum = next((c for c in prog.classes.values() if c["enum"] and c["name"].endswith("WorkerPoolFactory::WorkerPoolType")), None)
    ck.need(enum, "pool kind enumeration")
    kinds = [(e["n"], e["v"]) for e in enum["elems"] if e["k"] == "e"]
    ck.need(kinds, "pool kinds")
    pools = {}
    for vt, off, fl in prog.vtables.get(TI, []):
        m = re.match(r"vtable for (.*)", prog.dem(vt))
        if m:
            pools[m.group(1)] = (vt, fl)
    ck.need(pools, "pool classes")
    cfg = ck.config
    vals = [v for _, v in kinds]
    outside = [max(vals) + 1, -1, 1000]
    seen, offer = {}, []
    flags = flag_globals(can) | flag_globals(create)
    for name, v in kinds + [("(value %d)" % x, x) for x in outside]:
        cans = answers(ck, prog, can, v, flags)
        outs = creation(ck, prog, create, v, flags, pools)
        w = "%s [%s]" % (name, cfg)
        unknown = name.startswith("(")
        # flag valuation -> facts
        for fl, rs in sorted(cans.items(), key=str):
            if None in rs or len(rs) != 1:
                o = [x for g, x in outs if compatible(fl, g)]
                one = len({x[0] for x in o if x[0] == "ret" or not x[2]}) == 1
                ok = None in rs and not (one and asks(prog, can))
                ck.ob("agree", w, ok, "the capability answer is not determined by the kind" if None not in rs else
                      "the capability answer depends on more than the creation request does", "agree:" + name)
                continue
            c = next(iter(rs)) & 1
            o = [x for g, x in outs if compatible(fl, g)]
            ret = [x for x in o if x[0] == "ret"]
            esc = [x for x in o if x[0] == "escape" and not x[2]]
            ctor_esc = [x for x in o if x[0] == "escape" and x[2]]
            rule = "unknown-fails" if unknown else "agree"
            fw = w + ("" if not fl else " with " + ", ".join("%s=%d" % (prog.base(g), b) for g, b in fl))
            if c:
                ok = bool(ret) and not esc
                ck.ob(rule, fw, ok and not unknown, "reported as creatable but the creation request fails" if not ok else
                      "an unknown kind is reported as creatable", "%s:%s" % (rule, name))
            else:
                ck.ob(rule, fw, not ret, "reported as not creatable but the creation request returns %s"
                      % (", ".join(sorted({str(x[1]) for x in ret}))), "%s:%s" % (rule, name))
                ck.ob(rule, fw + " raises", bool(esc) or bool(ctor_esc) or not o, "the creation request neither returns nor raises", "%s:%s:raise" % (rule, name))
        for g, x in outs:
            if x[0] == "ret" and x[1] is not None and not unknown:
                offer.append((g, x[1]))
            if x[0] == "ret":
                ck.ob("not-null", w, x[1] is not None and x[3], "a path returns %s" % ("without having created a pool" if x[1] is None else
                      "something else than the pool it created") + ": " + trace(x[4]), "not-null:" + name)
                if x[1] is not None and not unknown:
                    last = x[1].split("::")[-1]
                    if any("k" + p.split("::")[-1] == name for p in pools):
                        ck.ob("kind", w, "k" + last == name, "asked for %s, creates a %s" % (name, last), "kind:" + name)
                    else:
                        ck.ob("kind", w, seen.get(last, name) == name, "creates the same class as %s" % seen.get(last), "kind:" + name)
                    seen.setdefault(last, name)
                for (gl, b) in g:
                    if b == 0:
                        ck.ob("once-flag", w, gl in x[5], "creates the one pool allowed without recording it in %s" % prog.base(gl), "once-flag:" + name)
    bestpool(ck, prog, best, pools, flags, cfg, offer)


def asks(prog, fn):
    """the answer is the result of a call other than a comparison of the number of processors with zero"""
    st, seen = [i.args[0] for i in fn.insts() if i.op == "ret" and i.args], set()
    while st:
        x = st.pop()
        d = fn.defs.get(x) if isinstance(x, str) else None
        if d is None or x in seen:
            continue
        seen.add(x)
        if d.is_call():
            return True
        if d.op == "icmp":
            c = fn.defs.get(d.args[0])
            if c is not None and c.is_call() and "hardware_concurrency" in (prog.callee_dem(c) or "") and cint(d.args[1]) in (0, 1):
                continue
        st.extend(y for p in d.args for y in (p if isinstance(p, (list, tuple)) else [p]) if isinstance(y, str) and y != "load")
    return False


def compatible(a, b):
    d = dict(a)
    return all(d.get(g, v) == v for g, v in b)


def flag_globals(fn):
    """boolean statics whose value decides a branch"""
    r = set()
    for i in fn.insts():
        if i.op == "load" and isinstance(i.args[0], str) and i.args[0].startswith("@"):
            r.add(i.args[0][1:])
    return r


def flag_branch(fn, flags):
    def branch(c, val, s):
        d = fn.defs.get(c)
        v = bool(val)
        while d is not None and d.op in ("xor", "trunc", "zext", "icmp", "and", "freeze"):
            if d.op == "xor":
                v = not v
            if d.op == "and" and cint(d.args[1]) != 1:
                return s
            if d.op == "icmp":
                k = cint(d.args[1])
                if k not in (0, 1) or d.get("pred") not in ("eq", "ne"):
                    return s
                if (k == 0) == (d.get("pred") == "eq"):
                    v = not v
            d = fn.defs.get(d.args[0])
        if d is not None and d.op == "load" and isinstance(d.args[0], str) and d.args[0].startswith("@"):
            g = d.args[0][1:]
            fl = dict(s[0])
            if g in fl and fl[g] != int(v):
                return None
            fl[g] = int(v)
            return (tuple(sorted(fl.items())),) + s[1:]
        return s
    return branch


def answers(ck, prog, fn, v, flags):
    """flag valuation -> set of constants returned"""
    a = fn.d["args"][0]
    def const_of(x):
        return v if x == "a0" else None
    res = {}
    exits, n = explore(fn, ((),), lambda i, s: [("n", s)], const_of=const_of, branch=flag_branch(fn, flags), fold=True)
    ck.count("states", n)
    for e in exits:
        if e[0] != "ret":
            continue
        r = e[4]
        if r is None and e[1].args:
            # the answer is the flag itself
            d = fn.defs.get(e[1].args[0])
            g, neg = flag_value(fn, e[1].args[0], e[3])
            if g is not None:
                for b in (0, 1):
                    res.setdefault(tuple(sorted(dict(e[2][0], **{g: b}).items())), set()).add(b ^ neg)
                continue
        res.setdefault(e[2][0], set()).add(r)
    return res


def flag_value(fn, v, path):
    neg = 0
    prev = None
    bbs = []
    p = path
    while p is not None:
        bbs.append(p.bb)
        p = p.prev
    for _ in range(12):
        d = fn.defs.get(v)
        if d is None:
            return None, 0
        if d.op == "phi":
            # the predecessor on this path
            k = bbs.index(d.bb) if d.bb in bbs else None
            if k is None or k + 1 >= len(bbs):
                return None, 0
            nv = next((x for pb, x in d.args if pb == bbs[k + 1]), None)
            if nv is None:
                return None, 0
            v = nv
        elif d.op == "xor" and cint(d.args[1]) in (1, -1):
            neg ^= 1
            v = d.args[0]
        elif d.op == "icmp" and cint(d.args[1]) == 0 and d.get("pred") in ("eq", "ne"):
            neg ^= d.get("pred") == "eq"
            v = d.args[0]
        elif d.op in ("trunc", "zext", "and"):
            v = d.args[0]
        elif d.op == "load" and isinstance(d.args[0], str) and d.args[0].startswith("@"):
            return d.args[0][1:], int(neg)
        else:
            return None, 0
    return None, 0


def created(prog, pools, i):
    """class of the pool whose construction this is"""
    if i.is_call() and i.callee:
        n = prog.base(i.callee)
        c, _, m = n.rpartition("::")
        if c in pools and m == c.split("::")[-1]:
            return c, i.args[0]
    if i.op == "store" and isinstance(i.args[0], str) and i.args[0].startswith("@_ZTV"):
        for c, (vt, fl) in pools.items():
            if i.args[0].split("+")[0] == "@" + vt:
                return c, i.args[1]
    return None


def creation(ck, prog, fn, v, flags, pools):
    def const_of(x):
        return v if x == "a1" else None

    # state: (flags, created class, pointer, handed out, constructor failed, flags set)
    def step(i, s):
        fl, c, p, out, cf, fs = s
        k = created(prog, pools, i)
        if k:
            n = (fl, k[0], addr(fn, k[1])[0], False, cf, fs)
            r = [("n", n)]
            if i.is_call() and not i.get("nt"):
                r.append(("t", STD, (fl, None, None, False, True, fs)))
            return r
        if i.is_call() and i.callee and prog.callee_dem(i).startswith("operator new("):
            return [("n", s), ("t", ("ti", "_ZTISt9bad_alloc"), (fl, None, None, False, True, fs))]
        if i.op == "store" and isinstance(i.args[1], str) and i.args[1].startswith("@") and cint(i.args[0]) in (1, -1):
            return [("n", (fl, c, p, out, cf, fs | {i.args[1][1:]}))]
        if p is not None and i.is_call() and i.args and i.args[0] == "a0" and len(i.args) > 1:
            if any(p in flows(fn, a) for a in i.args[1:] if isinstance(a, str)):
                return [("n", (fl, c, p, True, cf, fs))]
        if i.is_call() and i.args and i.args[0] == "a0" and prog.base(i.callee or "").endswith("::reset"):
            return [("n", (fl, c, p, False, cf, fs))]
        if p is not None and i.op == "store" and addr(fn, i.args[1])[0] == "a0" and p in flows(fn, i.args[0]):
            return [("n", (fl, c, p, True, cf, fs))]
        return [("n", s)]
    exits, n = explore(fn, ((), None, None, False, False, frozenset()), step, const_of=const_of, branch=flag_branch(fn, flags), fold=True)
    ck.count("states", n)
    res = []
    for e in exits:
        fl, c, p, out, cf, fs = e[2]
        if e[0] == "ret":
            res.append((fl, ("ret", c, None, out, e[3], fs)))
        else:
            res.append((fl, ("escape", None, cf, None, e[3], fs)))
    return res


def always_valid(prog, pools):
    """classes whose validity test is the constant true"""
    slot = None
    tid, c = prog.class_by_name("k52::parallel::IWorkerPool")
    for e in c["elems"]:
        if e["k"] == "f" and e["n"] == "IsValid":
            slot = e["vidx"]
    res = set()
    impl = {f.name: f for f in prog.jobs["p"]}
    for c, (vt, fl) in pools.items():
        if slot is not None and slot < len(fl) and fl[slot] in impl:
            rets = [i.args[0] for i in impl[fl[slot]].insts() if i.op == "ret"]
            if rets and all(cint(r) in (1, -1) for r in rets):
                res.add(c)
    return res


def bestpool(ck, prog, fn, pools, flags, cfg, offer):
    sure = always_valid(prog, pools)
    ck.need(sure, "a pool that is unconditionally valid")

    # state: (flags, created class, validity of it: None/'ok', classes tried, sure pools found invalid, constructor failed)
    def step(i, s):
        fl, c, ok, tried, rej, cf = s
        k = created(prog, pools, i)
        if k:
            r = [("n", (fl, k[0], None, tried | {k[0]}, rej, cf))]
            if i.is_call() and not i.get("nt"):
                r.append(("t", STD, (fl, None, None, tried, rej, True)))
            return r
        return [("n", s)]
    fb = flag_branch(fn, flags)

    def branch(c, val, s):
        s = fb(c, val, s)
        if s is None:
            return None
        d = fn.defs.get(c)
        v = bool(val)
        while d is not None and d.op in ("xor", "zext", "trunc", "icmp"):
            if d.op == "xor":
                v = not v
            if d.op == "icmp":
                if cint(d.args[1]) != 0 or d.get("pred") not in ("eq", "ne"):
                    return s
                if d.get("pred") == "eq":
                    v = not v
            d = fn.defs.get(d.args[0])
        if d is not None and d.is_call() and "v" in d.d and prog.vslot_name(d.d["v"])[1] == "IsValid":
            fl, c0, ok, tried, rej, cf = s
            if v:
                return (fl, c0, "ok", tried, rej, cf)
            if c0 in sure:
                return None        # it is always valid
            return (fl, c0, "bad", tried, rej | ({c0} if c0 else frozenset()), cf)
        return s
    def order_test(c):
        """a test of which kind or position comes next, rather than of a flag, an answer or an object"""
        seen, st, r = set(), [c], False
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            d = fn.defs.get(x)
            if d is None:
                continue
            if d.is_call():
                return False
            if d.op == "load":
                b = addr(fn, d.args[0])[0]
                if isinstance(b, str) and b.startswith("@") and "ints" not in (prog.globals.get(b[1:]) or {}):
                    return False
                if isinstance(b, str) and (b.startswith("@") or b in fn.defs and fn.defs[b].op == "alloca"):
                    r = True
            elif d.op == "phi":
                if all(const(y) is None for _, y in d.args):
                    st.extend(y for _, y in d.args)
                else:
                    r = r or d.get("t") != "ptr"
                    st.extend(y for _, y in d.args)
            elif d.op in ("icmp", "add", "sub", "zext", "sext", "trunc", "select", "xor", "and", "or", "freeze"):
                st.extend(y for y in d.args if isinstance(y, str))
        return r
    open_tests = set()
    exits, n = explore(fn, ((), None, None, frozenset(), frozenset(), False), step, branch=branch, fold=True, undecided=open_tests)
    unknown = [c for c in open_tests if order_test(c)]
    ck.count("states", n)
    w = "best pool [%s]" % cfg
    bv = bl = None
    for e in exits:
        fl, c, ok, tried, rej, cf = e[2]
        if e[0] == "ret":
            if c is None or ok != "ok" and c not in sure or ok == "bad":
                bv = "returns %s: %s" % ("no pool" if c is None else "a %s without a successful validity test" % c.split("::")[-1], trace(e[3]))
            if c in sure:
                # something else could have been created in this flag state
                miss = sorted(p for g, p in offer if p not in tried and p not in sure and compatible(fl, g))
                if miss:
                    bl = "settles for the %s without trying the %s: %s" % (c.split("::")[-1], miss[0].split("::")[-1], trace(e[3]))
        elif not cf:
            bl = bl or "fails although the %s can always be created: %s" % (sorted(sure)[0].split("::")[-1], trace(e[3]))
    if not any(e[0] == "ret" for e in exits):
        bv = "never returns a pool"
    if unknown and (bv or bl):
        # the order of the attempts is not a constant the walk can follow
        ck.count("undecided")
        bv = bl = None
    ck.ob("best-valid", w, bv is None, bv or "", "best-valid")
    ck.ob("best-last-resort", w, bl is None, bl or "", "best-last-resort")
