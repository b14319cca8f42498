"""A reused filter bank depends on nothing outside its key."""
import re
from ir import ACCESSORS
from val import addr
from taint import Taint, split_params
import mapops

EXPLANATION = """
Every transform, convolution, wavelet and scale operation is flattened with the cache, the containers and the tuple library kept opaque, and
each local object and value is labelled with the inputs it is computed from (an argument, the length or the elements of a sequence, a field of the transform, a global).
Rules: key-exact (no component of a cache key is a many-to-one image of an input: rounded, truncated, narrowed), key-kind (the
key identifies a wavelet by an owner that keeps it alive, not by a bare address), key-same (within one operation, what is looked up, read and stored uses
one and the same key), key-complete (every input that the stored value is computed from is an exact component of the key or a field that only constructors
write), key-equality (a comparison written for the key compares every component), hit-equals-miss (after a value has been stored or read
back it is not modified on one of the two branches only), memo-guard (wherever state that transform operations themselves change decides whether a computation is
skipped, the decision compares every input of that computation), stateless (apart from such memos an operation writes no field that it may read before writing it).
"""
TECHNIQUE = "dependence analysis (labelled dataflow) of cached values against their keys on flattened code"
LEVEL_NOTE = """Exhaustive over the operations of the transform, wavelet and scale classes; labels are whole-object and flow-insensitive, so an input
that only influences control flow before the computation is not counted. A wavelet object's own shape is taken to be fixed while transforms use it
(re-initialising a spline-based wavelet between transforms is outside the property)."""
ASSUMPTIONS = ["tuple equality compares every component", "wavelet objects are not re-initialised while a transform may reuse their filters"]
CONT = [r"k52::common::Cache<", r"boost::tuples", r"boost::tuple", r"boost::make_tuple", r"std::vector<", r"std::tuple", r"std::make_tuple", r"std::make_pair",
        r"boost::hash_combine"]
ROOTS = r"^k52::dsp::[A-Za-z_:]*::(Transform|TransformOneScale|EvaluateConvolution|GetValue|GetScales|real)\("
UNITS = r"^src/dsp/"
JOBS = [{"id": "f", "roots": [ROOTS], "notroots": [r"^k52::dsp::Spline"], "opaque": CONT + mapops.OPAQUE, "inline": ACCESSORS},
        {"id": "k", "roots": [r"operator(==|<)\("], "notroots": [r"^(bool )?(std|boost|__gnu)"], "opaque": CONT, "inline": ACCESSORS}]
MINIMUM = {"stateless": 8}
READ, TEST, ADD = {"GetCachedValue"}, {"IsCached"}, {"AddValue"}


def method(prog, i):
    cls, _, last = prog.base(i.callee).rpartition("::") if i.callee else ("", "", "")
    return cls, last


def check(ck, prog):
    infos = []
    for f in prog.jobs["f"]:
        T = Taint(f)
        infos.append((f, T))
    # fields that transform operations change, per class
    mutated = {}
    for f, T in infos:
        cls = prog.base(f.name).rpartition("::")[0]
        m = mutated.setdefault(cls, {})
        for i in f.insts():
            for p in written(T, i):
                b, o, vo = addr(f, p)
                if b == T.this and i.get("v"):
                    continue    # another operation of the same object: analysed by itself
                if b == T.this and T.this:
                    m.setdefault(("F", o), i)
                elif isinstance(b, str) and b.startswith("@") and T.seed(b):
                    m.setdefault(("G", b[1:]), i)
    memos = 0
    for f, T in infos:
        w = "%s::%s" % tuple(prog.base(f.name).split("::")[-2:])
        cls = prog.base(f.name).rpartition("::")[0]
        mut = mutated.get(cls, {})
        ops = [(i, method(prog, i)[1]) for i in f.calls() if method(prog, i)[0] == "k52::common::Cache"]
        if any(o in ADD for _, o in ops):
            memos += 1
            cached(ck, prog, f, w, T, ops, mut)
        guarded = memo(ck, prog, f, w, Taint(f, frozen=mut), mut)
        stateless(ck, prog, f, w, T, mut, guarded)
    equality(ck, prog)
    ck.fact("operations", len(infos))
    ck.fact("caches", memos)


def written(T, i):
    if i.op == "store":
        return [i.args[1]]
    if i.is_call():
        c = i.callee or ""
        if c.startswith("llvm.lifetime") or c.startswith("llvm.dbg"):
            return []
        name = T.prog.dem(c) if c else ""
        if T.prog.base(c).split("::")[-1].startswith("~") if c else False:
            return []
        return [x for k, x in enumerate(i.args) if isinstance(x, str) and x[0] in "%a@" and T.written(i, k, name)
                and (T.fn.defs.get(x) is not None and (T.fn.defs[x].op in ("alloca", "getelementptr") or T.fn.defs[x].op == "load" and "__normal_iterator<" in name) or x[0] in "a@")]
    return []


def components(f, T, key):
    """[(label or 'lossy' or None, where)] of a local key object, or None"""
    b = addr(f, key)[0]
    d = f.defs.get(b)
    if d is None or d.op != "alloca":
        return None
    out = []
    for i in f.insts():
        if i.op == "store" and addr(f, i.args[1])[0] == b:
            out.append((T.exact(i.args[0]), i))
        elif i.is_call() and i.args and isinstance(i.args[0], str) and addr(f, i.args[0])[0] == b and i.callee and not i.callee.startswith("llvm.lifetime"):
            last = T.prog.base(i.callee).split("::")[-1]
            if last.startswith("~"):
                continue
            if len(i.args) == 2 and isinstance(i.args[1], str) and f.defs.get(addr(f, i.args[1])[0]) is not None and last in ("operator=", b, "tuple", "pair"):
                sub = components(f, T, i.args[1])
                if sub:
                    out += sub
                    if narrows(T.prog.dem(i.callee)):
                        out.append(("lossy", i))
                    continue
            name = T.prog.dem(i.callee)
            for x in i.args[1:]:
                out.append((T.exact_obj(x) if isinstance(x, str) and pointer(f, x) else T.exact(x), i))
    return out or None


WIDTH = {"bool": 1, "char": 7, "signed char": 7, "unsigned char": 8, "short": 15, "unsigned short": 16, "int": 31, "unsigned int": 32, "long": 63, "unsigned long": 64,
         "long long": 63, "unsigned long long": 64, "float": 24, "double": 53, "long double": 64}


def parts(t):
    """component types of a tuple or pair type"""
    t = t.strip()
    m = re.match(r"^(?:const )?(?:boost::tuples::(tuple|cons)|std::(tuple|pair))<(.*)>(?: const)?[&* ]*$", t)
    if not m:
        return None
    args = [x for x in split_params("f(%s)" % m.group(3)) or [] if x.strip() != "boost::tuples::null_type"]
    if m.group(1) == "cons" and len(args) == 2:
        return args[:1] + (parts(args[1]) or [args[1]])
    return args


def narrows(d):
    """does a converting constructor or assignment of a tuple keep less of a number than it is given?"""
    ps, cls = split_params(d), None
    depth, last = 0, None
    for k, ch in enumerate(d):
        if ch == "(" and depth == 0:
            break
        depth += (ch == "<") - (ch == ">")
        if depth == 0 and d[k:k + 2] == "::":
            last = k
    if last is None or not re.match(r"::(tuple|cons|pair|operator=)[<(]", d[last:]):
        return False
    cls = d[:last]
    to = parts(re.sub(r"^.*? (?=boost::tuples|std::)", "", cls) if cls.startswith(("boost", "std")) is False else cls)
    src = parts(ps[0]) if ps and len(ps) == 1 else None
    if not to or not src or len(to) != len(src):
        return False
    for a, b in zip(src, to):
        a, b = (re.sub(r"\bconst\b|&", "", x).strip() for x in (a, b))
        if a in WIDTH and b in WIDTH and WIDTH[b] < WIDTH[a]:
            return True
    return False


def pointer(f, x):
    if x[0] == "a" and x[1:].isdigit():
        return f.d["args"][int(x[1:])]["t"] == "ptr"
    d = f.defs.get(x)
    return d is not None and d.op in ("alloca", "getelementptr")


def names(f, labs):
    def n(l):
        k, x = l
        if isinstance(x, str) and x[0] == "a" and x[1:].isdigit():
            x = f.d["args"][int(x[1:])].get("n", x)
        return {"A": "%s", "N": "the length of %s", "D": "the elements of %s", "F": "the field at offset %s", "G": "the global %s", "U": "the answer of %s"}[k] % x
    return ", ".join(sorted(n(l) for l in labs))


def cached(ck, prog, f, w, T, ops, mut):
    keys = {}
    for i, o in ops:
        k = 2 if prog.funcs.get(i.callee, {}).get("sret") else 1
        if len(i.args) > k:
            keys.setdefault(T.root(i.args[k]), []).append((i, o, i.args[k]))
    comp = {r: components(f, T, v[0][2]) for r, v in keys.items()}
    for r, uses in keys.items():
        where = "%s, key used at %s" % (w, uses[0][0].repo_loc)
        c = comp[r]
        if c is None:
            ck.count("undecided")
            continue
        bad = [x for x in c if x[0] == "lossy"]
        ck.ob("key-exact", where, not bad, "a component of the key built at %s is a many-to-one image of an input" % bad[0][1].repo_loc if bad else "",
              "key-exact:" + w)
    # identity by address
    for i, o in ops:
        if o in ADD:
            m = re.search(r"Cache<(.*)>::\w+\(", prog.dem(i.callee))
            arg = m.group(1) if m else ""
            depth, k = 0, 0
            for k, ch in enumerate(arg):
                depth += (ch in "<(") - (ch in ">)")
                if ch == "," and depth == 0:
                    break
            kt = arg[:k]
            raw = re.search(r"(\w*Wavelet\w*)( const)?\*|weak_ptr", kt)
            ck.ob("key-kind", w, not raw, "the key %s identifies a wavelet by a bare address, which another wavelet may get later" % kt if raw else "", "key-kind:" + w)
    # one key
    sets = {r: frozenset(x for x, _ in c) if c else None for r, c in comp.items()}
    add = [r for r, u in keys.items() if any(o in ADD for _, o, _ in u)]
    if len(keys) > 1:
        known = [s for s in sets.values() if s is not None]
        if len(known) == len(sets) and all(None not in s for s in known):
            ck.ob("key-same", w, len(set(known)) == 1, "the keys looked up and stored under differ: %s" % "; ".join(names(f, {x for x in s if x != "lossy"}) for s in set(known)),
                  "key-same:" + w)
        else:
            ck.count("undecided")
    elif add:
        # one object: it must not change between its uses
        first = min((i.bb, i.ix) for i, o, _ in keys[add[0]])
        ws = [i for i in f.insts() for p in written(T, i) if T.root(p) == add[0] and not any(i is x for x, _, _ in keys[add[0]])]
        after = [i for i in ws if any(i.bb in f.reachable_from(u.bb, ("n", "t", "f")) and i.bb != u.bb for u, _, _ in keys[add[0]])]
        ck.ob("key-same", w, not after, "the key is changed at %s after it was looked up" % after[0].repo_loc if after else "", "key-same:" + w)
    # completeness
    for i, o in ops:
        if o not in ADD:
            continue
        k = 1
        c = comp.get(T.root(i.args[1]))
        labs = T.deep(i.args[2]) | T.val(i.args[2])
        fixed = {l for l in labs if l[0] == "F" and l not in mut}
        have = {x for x, _ in c or [] if x not in (None, "lossy")}
        vague = frozenset()
        if c is None or any(x is None for x, _ in c):
            vague = T.deep(i.args[1])
        missing = labs - fixed - have
        # what reading the cache itself contributes (one object receives both answers)
        missing -= {l for l in missing if l[0] == "F" and l not in mut}
        if missing and vague and missing <= vague:
            ck.count("undecided")
            continue
        ck.ob("key-complete", "%s, stored at %s" % (w, i.repo_loc), not missing,
              "the value stored at %s depends on %s, which is no part of its key" % (i.repo_loc, names(f, missing)), "key-complete:" + w)
    # the two branches give the same value
    reads = [i for i, o in ops if o in READ]
    adds = [i for i, o in ops if o in ADD]
    if reads and adds:
        N = ("n", "t", "f", "s")
        bad = None
        for a, others, obj in [(x, reads, x.args[2]) for x in adds] + [(x, adds, x.args[0] if prog.funcs.get(x.callee, {}).get("sret") else x.id) for x in reads]:
            here = {a.bb} | set(f.reachable_from(a.bb, N))
            there = set()
            for x in others:
                there |= {x.bb} | set(f.reachable_from(x.bb, N))
            for i in f.insts():
                if i.bb in here - there and (i.bb != a.bb or i.ix > a.ix) and i is not a:
                    for p in written(T, i):
                        if T.root(p) == T.root(obj):
                            bad = "the value %s at %s is then modified at %s on that branch only" % ("stored" if a in adds else "read", a.repo_loc, i.repo_loc)
        ck.ob("hit-equals-miss", w, bad is None, bad or "", "hit-equals-miss:" + w)


def memo(ck, prog, f, w, T, mut):
    """branches on state the operations change, deciding whether something is computed"""
    guarded = set()
    N = ("n", "t", "f", "s")
    starts = {}     # offsets inside a member that operations change as a whole
    if T.this:
        for e in prog.classes.get((f.d["args"][int(T.this[1:])].get("dt") or "").rstrip("*&"), {}).get("elems", ()):
            if e["k"] == "m" and ("F", e["off"]) in mut:
                starts.update({o: e["off"] for o in range(e["off"] + 1, e["off"] + e["size"])})
    for b, L in enumerate(f.blocks):
        t = L[-1]
        if t.op != "br" or "cond" not in t.d or len(t.d["succ"]) != 2:
            continue
        cl = T.val(t.d["cond"])
        state = {l for l in cl if l in mut} | {("F", starts[l[1]]) for l in cl if l[0] == "F" and l[1] in starts}
        if not state:
            continue
        r = [set(f.reachable_from(s, N)) | {s} for s in t.d["succ"]]
        if not all(any(f.blocks[x][-1].op == "ret" for x in y) for y in r):
            continue
        for a, o in ((0, 1), (1, 0)):
            comp = [i for x in sorted(r[a] - r[o]) for i in f.blocks[x] if i.is_call() and i.get("v")]
            need = set()
            for i in comp:
                for x in i.args:
                    if isinstance(x, str):
                        need |= T.val(x) | (T.deep(x) if T.points(x) else frozenset())
            need -= {l for l in need if l[0] == "F"} | {l for l in need if l in mut}
            if comp:
                guarded |= state
                conds = [t.d["cond"]] + chained(f, b, comp[0].bb, r[o], N)
                cl2 = cl
                for c in conds[1:]:
                    cl2 = cl2 | T.val(c)
                for x in sorted(l[1] for l in need & cl2 if l[0] == "D"):
                    how = compared(f, T, conds, x)
                    if how:
                        ck.ob("memo-guard", "%s at %s" % (w, t.repo_loc), False, "whether %s at %s is computed again is decided by %s, not by all elements of %s" % (
                            "::".join(prog.vslot_name(comp[0].d["v"])), comp[0].repo_loc, how, f.d["args"][int(x[1:])].get("n", x)), "memo-guard:%s:%s" % (w, t.loc))
                missing = need - cl2
                ck.ob("memo-guard", "%s at %s" % (w, t.repo_loc), not missing,
                      "whether %s at %s is computed again is decided at %s without comparing %s" % ("::".join(prog.vslot_name(comp[0].d["v"])), comp[0].repo_loc, t.repo_loc, names(f, missing)),
                      "memo-guard:%s:%s" % (w, t.loc))
    return guarded


def chained(f, b, target, skip, N):
    """conditions of the other branches that lead to the same computation or past it (short-circuit chains)"""
    res = []
    for c in f.dom()[b]:
        t = f.blocks[c][-1]
        if c == b or t.op != "br" or "cond" not in t.d or len(t.d["succ"]) != 2:
            continue
        for s in t.d["succ"]:
            if s != b and b not in f.dom()[s] and s not in f.dom()[b] and (s == target or target in f.reachable_from(s, N)):
                res.append(t.d["cond"])
                break
    return res


WHOLE = {"operator==", "operator!=", "equal", "mismatch", "memcmp", "bcmp", "compare", "lexicographical_compare", "operator<"}


def compared(f, T, conds, x):
    """how a condition looks at the elements of a container when it certainly does not look at all of them"""
    seen, st, part = set(), list(conds), None
    while st:
        v = st.pop()
        if not isinstance(v, str) or v in seen:
            continue
        seen.add(v)
        d = f.defs.get(v)
        if d is None:
            continue
        if f.loop_of(d.bb) is not None:
            return None
        if d.is_call():
            last = T.prog.base(d.callee).split("::")[-1] if d.callee else ""
            mine = [a for a in d.args if isinstance(a, str) and (addr(f, a)[0] == x or ("D", x) in T.val(a) | T.deep(a))]
            if mine:
                if last in WHOLE and (any(addr(f, a)[0] == x for a in mine) or len(d.args) > 2):
                    return None
                if last in ("front", "back", "operator[]", "at") and addr(f, d.args[0])[0] == x:
                    part = part or "the element read at %s" % d.repo_loc
                elif last not in ("size", "empty", "begin", "end", "data", "rbegin") and not (d.callee or "").startswith("llvm.") and not last.startswith("operator"):
                    return None
        for a in d.args if d.op == "load" or d.is_call() and len(d.args) == 2 and "std::vector" not in (T.prog.dem(d.callee or "").split("(") + [""])[1] else []:
            e = f.defs.get(addr(f, a)[0]) if isinstance(a, str) else None
            if e is not None and e.op == "load" and addr(f, e.args[0])[0] == x:
                part = part or "the element read at %s" % d.repo_loc
        if d.op == "load":
            b = addr(f, d.args[0])[0]
            dd = f.defs.get(b)
            if dd is not None and dd.op == "alloca":
                for i in f.insts():
                    if i.op == "store" and addr(f, i.args[1])[0] == b:
                        st.append(i.args[0])
                    elif i.is_call() and any(isinstance(a, str) and addr(f, a)[0] == b for a in i.args):
                        st.append(i.id)
                        st += [a for a in i.args if isinstance(a, str)]
        for a in (d.args if d.op != "phi" else [y for _, y in d.args]):
            if isinstance(a, str):
                st.append(a)
        if isinstance(d.d.get("p"), str):
            st.append(d.d["p"])
    return part


def stateless(ck, prog, f, w, T, mut, guarded):
    """a field both written and possibly read before being written makes the answer depend on earlier calls"""
    bad = None
    for l, at in mut.items():
        if l in guarded:
            continue
        if l[0] == "G":
            continue
        loads = [i for i in f.insts() if i.op == "load" and addr(f, i.args[0])[0] == T.this and addr(f, i.args[0])[1] == l[1]]
        stores = [i for i in f.insts() if i.op == "store" and addr(f, i.args[1])[0] == T.this and addr(f, i.args[1])[1] == l[1]]
        for x in loads:
            if not any(before(f, s, x) for s in stores):
                # a counter or flag that never reaches the result is harmless
                if reaches_result(f, T, x):
                    bad = "reads at %s a field that an earlier call wrote at %s" % (x.repo_loc, at.repo_loc)
    ck.ob("stateless", w, bad is None, bad or "", "stateless:" + w)


def before(f, s, x):
    return s.bb == x.bb and s.ix < x.ix or s.bb != x.bb and f.dominates(s.bb, x.bb)


def reaches_result(f, T, x):
    seen, st = set(), [x.id]
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        for i in f.uses(v):
            if i.op == "ret" or i.is_call() and i.get("v"):
                return True
            if i.op == "store" and i.args[0] == v:
                if T.root(i.args[1]) == "a0" and T.sret:
                    return True
                continue
            if i.is_call():
                for p in written(T, i):
                    if T.root(p) == "a0" and T.sret:
                        return True
            st.append(i.id)
    return False


def equality(ck, prog):
    """hand-written comparisons of cache keys"""
    keyt = set()
    for n, d in prog.funcs.items():
        m = re.match(r"k52::common::Cache<((?:k52|boost)::[\w:]+)[,<]", prog.dem(n))
        if m and not m.group(1).startswith("boost::tuple"):
            keyt.add(m.group(1))
    for f in prog.jobs["k"]:
        if not any(k in prog.dem(f.name) for k in keyt) or "hash_value" in prog.dem(f.name):
            continue
        cls = next(k for k in keyt if k in prog.dem(f.name))
        t, c = prog.class_by_name(cls.split("::")[-1])
        if not c:
            c = next((x for x in prog.classes.values() if x["name"].split("::")[-1] == cls.split("::")[-1]), None)
        if not c:
            ck.count("undecided")
            continue
        fields = {e["off"]: e["n"] for e in c["elems"] if e["k"] == "m"}
        read = {"a0": set(), "a1": set()}
        for i in f.insts():
            for x in i.args if i.op == "load" or i.is_call() else []:
                if isinstance(x, str):
                    b, o, vo = addr(f, x)
                    if b in read:
                        read[b].add(o)
        miss = [n for o, n in fields.items() if o not in read["a0"] or o not in read["a1"]]
        ck.ob("key-equality", prog.base(f.name), not miss, "the comparison ignores %s" % ", ".join(miss), "key-equality:" + prog.base(f.name))
