"""Cache lookups do not change what is cached, and hits return what was stored."""
import re
from ir import ACCESSORS
from flow import explore, trace, on_path
from val import addr, flows, cint
from sym import Sym
import mapops
from mapops import Lookup, INDEX, LOOK, INSERT, REMOVE
from parq import STD

EXPLANATION = """
Every public cache operation, for two instantiations (scalar and class-typed values), is flattened with the underlying map kept
opaque and walked path by path, correlating each lookup in the map with the comparison of its answer against the end of the map.
Rules: lookup-pure (asking and reading perform no operation of the map that inserts, removes or replaces, and write nothing in a found
record that an answer or a returned value is read from), answer (asking answers false when the lookup found nothing and can answer true
otherwise), missing-fails (reading returns only when the lookup succeeded), hit-value (what reading returns comes from the record looked
up under the requested key), add-stores (every normal return of an insertion has written the given value into the record of the given key;
operations that keep an older value do not count), batch-stores (each iteration over the batch writes one record's value under
that record's key), trim-order (nothing is removed once something was inserted in the same operation).
"""
TECHNIQUE = "typestate and effect analysis of container operations on flattened code"
LEVEL_NOTE = """Exhaustive over the paths of the public operations for two representative instantiations of a template whose code does not depend
on the key and value types. Trusts the map class."""
ASSUMPTIONS = ["boost::unordered_map behaves as documented", "copying a key or value yields an equal one"]
UNITS = r"^inst/instantiations"
JOBS = [{"id": "f", "roots": [r"k52::common::Cache<"], "opaque": mapops.OPAQUE, "inline": ACCESSORS}]
MINIMUM = {"lookup-pure": 4, "answer": 2, "missing-fails": 2, "hit-value": 2, "add-stores": 2, "batch-stores": 2, "trim-order": 4}


def check(ck, prog):
    by = {}
    for f in prog.jobs["f"]:
        cls, _, last = prog.base(f.name).rpartition("::")
        if cls == "k52::common::Cache":
            by.setdefault(last, []).append(f)
    for n in ("IsCached", "GetCachedValue", "AddValue", "AddValues"):
        ck.need(by.get(n), "Cache::" + n)
    for n in ("IsCached", "GetCachedValue"):
        for f in by[n]:
            lookup(ck, prog, f, n)
    for f in by["AddValue"]:
        add(ck, prog, f)
    for f in by["AddValues"]:
        batch(ck, prog, f)


def inst_name(f):
    m = re.search(r"Cache<(std::vector<bool|std::__cxx11)", f.dem)
    return {"std::vector<bool": "<bits, double>", "std::__cxx11": "<string, string>"}.get(m.group(1) if m else "", "")


def has_sret(f):
    a = f.d["args"]
    return bool(a and a[0].get("sret"))


def this_map(f, i):
    this = "a1" if has_sret(f) else "a0"
    (b, o), k = mapops.the_map(f, i)
    return b == this or any(isinstance(a, str) and addr(f, a)[0] == this for a in i.args)


def read_offsets(f, L):
    """offsets inside a record that returned values and decisions are read from"""
    offs = set()
    roots = []
    for i in f.insts():
        if i.op == "ret" and i.args:
            roots.append(i.args[0])
        if "cond" in i.d:
            roots.append(i.d["cond"])
        if i.is_call() and i.args and has_sret(f) and i.args[0] == "a0":
            for a in i.args[1:]:
                if isinstance(a, str) and L.element(a) is not None:
                    offs.add(addr(f, a)[1])
    for r in roots:
        for x in flows(f, r):
            d = f.defs.get(x)
            if d is not None and d.op == "load" and L.element(d.args[0]) is not None:
                offs.add(addr(f, d.args[0])[1])
    return offs


def lookup(ck, prog, f, n):
    L = Lookup(f)
    w = n + inst_name(f)
    sret = has_sret(f)
    keyarg = "a2" if sret else "a1"
    bad = None
    offs = read_offsets(f, L)
    for i in f.insts():
        if i.id in L.ops and L.ops[i.id][0] == "map" and this_map(f, i):
            m = L.ops[i.id][1]
            if m in INDEX:
                bad = "%s at %s inserts an empty record for an unknown key" % (m, i.repo_loc)
            elif m in INSERT | REMOVE:
                bad = "%s at %s changes the cache" % (m, i.repo_loc)
        elif i.op == "store" and L.element(i.args[1]) is not None:
            if addr(f, i.args[1])[1] in offs:
                bad = "overwrites the stored record at " + i.repo_loc
        elif i.is_call() and i.args and isinstance(i.args[0], str) and L.element(i.args[0]) is not None and i.id not in L.ops:
            last = mapops.head(prog.callee_dem(i) or "").split("::")[-1]
            if last in ("operator=", "assign", "clear", "swap", "erase", "push_back", "append", "resize", "insert") or last.startswith("~"):
                bad = "%s at %s alters the stored value" % (last, i.repo_loc)
    ck.ob("lookup-pure", w, bad is None, bad or "", "lookup-pure:" + w)
    looked = [c for c, (k, m) in L.ops.items() if k == "map" and m in LOOK | INDEX and this_map(f, f.defs[c])]

    # state: (lookup -> present?, lookup done with the requested key)
    def step(i, s):
        pres, src = s
        if i.id in L.ops and L.ops[i.id] == ("map", "at"):
            return [("n", (pres | {(i.id, 1)}, src)), ("t", STD, s)]
        if sret and i.is_call() and i.args and i.args[0] == "a0":
            e = set()
            for a in i.args[1:]:
                if isinstance(a, str):
                    e |= {x for x in flows(f, a) if x in looked}
            return [("n", (pres, frozenset(e)))]
        return [("n", s)]

    def branch(c, val, s):
        t = L.test(c)
        if t is None:
            return s
        here = int(val == t[1])
        d = dict(s[0])
        if t[0] in d and d[t[0]] != here:
            return None
        return (s[0] | {(t[0], here)}, s[1])
    exits, nn = explore(f, (frozenset(), frozenset()), step, branch=branch)
    ck.count("states", nn)
    bad = miss = hit = None
    truth = False
    for e in exits:
        if e[0] != "ret":
            continue
        pres = dict(e[2][0])
        present = 1 if 1 in pres.values() else 0 if 0 in pres.values() else None
        if n == "IsCached":
            v = e[4] if e[4] is not None else cint(on_path(f, e[1].args[0], e[3]))
            if present == 0 and v is not None and v & 1:
                bad = "answers true for a key the lookup did not find: " + trace(e[3])
            rv = on_path(f, e[1].args[0], e[3])
            if v is None or v & 1:
                truth = True
            if v is None and present is None:
                # the comparison itself is the answer
                t = L.test(rv)
                if t is not None and t[1] != 1:
                    bad = "the answer is the opposite of what the lookup found"
                elif t is None and not any(x in looked for x in flows(f, rv)):
                    ck.count("undecided")
        else:
            if present == 0:
                miss = "returns although the lookup found nothing: " + trace(e[3])
            elif present is None and looked and not any(L.ops[c][1] in INDEX for c in looked):
                miss = "returns without testing whether the key was found: " + trace(e[3])
            src = e[2][1] if sret else {x for x in flows(f, e[1].args[0]) if x in looked}
            if not src:
                hit = "returns a value that does not come from the record looked up: " + trace(e[3])
            elif not any(keyarg in flows(f, L.key_of(c)) for c in src):
                hit = "looks up another key than the requested one"
    if n == "IsCached":
        if not truth:
            bad = bad or "never answers true"
        if looked and not any(keyarg in flows(f, L.key_of(c)) for c in looked):
            bad = bad or "looks up another key than the requested one"
        ck.ob("answer", w, bad is None, bad or "", "answer:" + w)
    else:
        ck.ob("missing-fails", w, miss is None, miss or "", "missing-fails:" + w)
        ck.ob("hit-value", w, hit is None, hit or "", "hit-value:" + w)


def writes(f, L, i):
    """(lookup ids, value written) when i writes into a record"""
    if i.op == "store":
        e = L.element(i.args[1])
        return (e, i.args[0]) if e else None
    if i.is_call() and i.id not in L.ops and len(i.args) > 1 and isinstance(i.args[0], str):
        e = L.element(i.args[0])
        if e and isinstance(i.args[1], str):
            return (e, i.args[1])
    return None


def remove_after_insert(ck, prog, f, w, L, extra=None):
    """walks with (something inserted); returns exits"""
    probs = []

    def step(i, s):
        ins, keyed, valued, found = s
        k, m = L.ops.get(i.id, (None, None))
        if k == "map" and this_map(f, i):
            if m in REMOVE:
                if ins:
                    probs.append("%s at %s removes records after the insertion" % (m, i.repo_loc))
                return [("n", s)]
            if m in INDEX | {"at"}:
                return [("n", (True, keyed | {i.id}, valued, found))] + ([("t", STD, s)] if m == "at" else [])
            if m in INSERT:
                return [("n", (True, keyed | {i.id}, valued, found))]
        wr = writes(f, L, i)
        if wr and valued is not None and "a2" in flows(f, wr[1]):
            return [("n", (True, keyed | set(wr[0]), valued | set(wr[0]), found))]
        return [("n", s)]

    def branch(c, val, s):
        t = L.test(c)
        if t is None:
            return s
        return s[:3] + (s[3] | {(t[0], int(val == t[1]))},)
    exits, n = explore(f, (False, frozenset(), frozenset(), frozenset()), step, branch=branch)
    ck.count("states", n)
    ck.ob("trim-order", w, not probs, probs[0] if probs else "", "trim-order:" + w)
    return exits


def add(ck, prog, f):
    L = Lookup(f)
    w = "AddValue" + inst_name(f)
    bad = None
    for e in remove_after_insert(ck, prog, f, w, L):
        if e[0] != "ret":
            continue
        ins, keyed, valued, found = e[2]
        good = False
        for c in keyed:
            m = L.ops[c][1]
            i = f.defs[c]
            if m in INSERT and m != "insert_or_assign":
                fl = set()
                for a in i.args[1:]:
                    if isinstance(a, str):
                        fl |= flows(f, a)
                if {"a1", "a2"} <= fl and any(v == 0 for _, v in found):
                    good = True
                elif {"a1", "a2"} <= fl:
                    bad = bad or "%s at %s keeps an older value stored under the key" % (m, i.repo_loc)
            elif m == "insert_or_assign":
                good = True
            elif c in valued and "a1" in flows(f, L.key_of(c)):
                good = True
        if not good:
            bad = bad or "returns without having stored the value under the key: " + trace(e[3])
    ck.ob("add-stores", w, bad is None, bad or "", "add-stores:" + w)


def returns(f, b):
    return any(f.blocks[x][-1].op == "ret" for x in {b} | set(f.reachable_from(b, ("n", "t", "f", "s"))))


def counter(f, c, lp):
    """a condition on something the loop itself counts or a truth value carried through it"""
    return any(f.defs.get(x) is not None and f.defs[x].op == "phi" and f.defs[x].bb in lp.body for x in flows(f, c))


def batch(ck, prog, f):
    L = Lookup(f)
    w = "AddValues" + inst_name(f)
    remove_after_insert(ck, prog, f, w, L)
    sym = Sym(f)
    good, bad = False, None
    seen = False
    for i in f.calls():
        if L.ops.get(i.id, (None, None))[0] != "map" or L.ops[i.id][1] not in INDEX | INSERT or not this_map(f, i):
            continue
        seen = True
        lp = f.loop_of(i.bb)
        if lp is None:
            bad = "inserts outside the walk over the batch at " + i.repo_loc
            continue
        # on every iteration that goes on
        skip = [b for b in lp.latches if i.bb not in f.dom()[b]]
        if skip:
            bad = "an iteration can go on without inserting its record"
            continue
        stop = [f.blocks[b][-1] for b in lp.body if "cond" in f.blocks[b][-1].d and any(t not in lp.body and returns(f, t) for t, k in f.succ[b])]
        stop = [t for t in stop if not {"a1"} & set(flows(f, t.d["cond"])) and not counter(f, t.d["cond"], lp)]
        if stop:
            bad = "the walk over the batch can stop at %s before its end" % stop[0].repo_loc
            continue
        m = L.ops[i.id][1]
        if m in INSERT and m != "insert_or_assign":
            bad = "%s at %s keeps an older value stored under the key" % (m, i.repo_loc)
            continue
        ke = sym.elem(i.args[-1])
        vals = [wr[1] for x in f.insts() for wr in [writes(f, L, x)] if wr and i.id in wr[0]]
        src = []
        for v in vals:
            for x in flows(f, v):
                d = f.defs.get(x)
                p = d.args[0] if d is not None and d.op == "load" else None
                for q in ([p] if p else []) + ([x] if d is not None and d.op == "getelementptr" else []):
                    e = sym.elem(q)
                    if e is not None and e[0][0] == "a1":
                        src.append(e)
        if not vals or not any("a1" in flows(f, v) for v in vals):
            bad = "the record's value is not stored at " + i.repo_loc
        elif ke is not None and src:
            if not any(e[:2] == ke[:2] for e in src):
                bad = "stores another record's value under the key at " + i.repo_loc
            elif not any(e[:2] == ke[:2] and (ke[3] != e[3]) for e in src):
                bad = "stores the key itself at " + i.repo_loc
            else:
                good = True
        else:
            ck.count("undecided")
            good = True
    if not seen:
        # delegated to something else than the map
        ck.count("undecided")
        good = True
    ck.ob("batch-stores", w, bad is None and good, bad or "no record of the batch is inserted", "batch-stores:" + w)
