"""A failed downcast is noticed and refused before its result is used."""
import re
import query
from ir import ACCESSORS
from flow import explore, trace, on_path
from val import addr, key
from checks.c13 import implied

EXPLANATION = """
Every function of the thread and MPI configurations that contains a checked downcast (dynamic_cast, dynamic_pointer_cast; private
helpers inlined) is walked path by path with the state of each cast: not yet tested, known to have succeeded, known to have failed.
The cast value is followed through variables, smart pointers and containers of them. Rules: checked (the result is dereferenced,
used as a receiver, handed to another component or stored in the returned collection only where a null test has established success),
refuse (from a failed cast no path reaches a normal return, unless another cast succeeded on it or the answer is false), downcast-kind (no class-pointer downcast in
the syntax tree is unchecked: static_cast, C-style cast, reinterpret_cast or static_pointer_cast to a derived class).
"""
TECHNIQUE = "path-sensitive typestate of checked downcasts; syntax-tree query for unchecked ones"
LEVEL_NOTE = """Complete over the downcast sites of both configurations. Reference casts report failure themselves (std::bad_cast) and need no test.
A helper that returns the cast is judged in each caller it is inlined into."""
ASSUMPTIONS = ["a value tested stays the same object until it is assigned again"]
CONFIGS = ["thread", "mpi"]
UNITS = r"^src/|inst/"
CAST = r"dynamic_pointer_cast<"
JOBS = [{"id": "f", "roots": [r"^k52::"], "having": r"^__dynamic_cast$|dynamic_pointer_cast<", "within": 2,
         "opaque": [r"^std::", CAST, r"^boost::shared_ptr<.*>::(~?shared_ptr|operator=|reset|swap)", r"^boost::detail::"],
         "inline": ACCESSORS + [r"^bool boost::operator(==|!=)<", r"^bool std::operator(==|!=)<", r"^std::(__)?shared_ptr(_access)?<.*>::(get|operator\*|operator->|operator bool|_M_get)\("]}]
MINIMUM = {"checked": 12}
REPO_T = 'isExpansionInFileMatching("^REPO/(src|include)/"), unless(isInTemplateInstantiation())'
Q = {"static": 'cxxStaticCastExpr(%s, hasCastKind("CK_BaseToDerived"))' % REPO_T,
     "cstyle": 'cStyleCastExpr(%s, hasCastKind("CK_BaseToDerived"))' % REPO_T,
     "functional": 'cxxFunctionalCastExpr(%s, hasCastKind("CK_BaseToDerived"))' % REPO_T,
     "reinterpret": 'cxxReinterpretCastExpr(%s, hasType(pointsTo(cxxRecordDecl())), hasSourceExpression(hasType(pointsTo(cxxRecordDecl()))))' % REPO_T,
     "reinterpretref": 'cxxReinterpretCastExpr(%s, hasType(cxxRecordDecl()))' % REPO_T,
     "pointer": 'callExpr(%s, callee(functionDecl(hasAnyName("static_pointer_cast", "reinterpret_pointer_cast"))))' % REPO_T}
PTRCOPY = re.compile(r"shared_ptr<.*>::(shared_ptr|operator=)")


def check(ck, prog):
    sites = {}
    n = 0
    for f in prog.jobs["f"]:
        casts = [i for i in f.calls() if is_cast(prog, i)]
        if not casts:
            continue
        n += 1
        walk(ck, prog, f, casts, sites)
    for loc, (fn, bad) in sorted(sites.items()):
        ck.ob("checked", "%s at %s" % (fn, loc), not any(k == "checked" for k, _ in bad),
              "; ".join(sorted({m for k, m in bad if k == "checked"})[:2]), "checked:%s" % fn)
        ck.ob("refuse", "%s at %s" % (fn, loc), not any(k == "refuse" for k, _ in bad),
              "; ".join(sorted({m for k, m in bad if k == "refuse"})[:2]), "refuse:%s" % fn)
    ck.fact("functions_%s" % ck.config, n)
    r = query.match(Q, ck.config)
    ck.ob("downcast-kind", "all class casts [%s]" % ck.config, True)
    for k in sorted(r):
        for x in r[k]:
            ck.ob("downcast-kind", x, False, "unchecked downcast (%s cast)" % k, "downcast-kind:" + x.split(":")[0])


def is_cast(prog, i):
    if i.callee == "__dynamic_cast":
        return True
    if i.callee and "dynamic_pointer_cast<" in prog.dem(i.callee):
        m = re.search(r"dynamic_pointer_cast<(.*), (.*?)>\(", prog.dem(i.callee))
        return not (m and m.group(1) == m.group(2))
    return False


def site(prog, f, i):
    """function the cast is written in"""
    return prog.base(f.name).replace("k52::", "")


def walk(ck, prog, f, casts, sites):
    who = site(prog, f, None)
    ids = {i.id: i for i in casts}
    for i in casts:
        sites.setdefault(i.repo_loc, (who, set()))
    locs = {i.id: i.repo_loc for i in casts}
    wrote = {}

    def lk(p):
        """(exact key, container key)"""
        b, o, vo = addr(f, p)
        d = f.defs.get(b)
        kb = key(f, b)
        if d is not None and d.op == "load" and vo:
            return (kb, o, tuple((key(f, x), s) for x, s in vo)), kb
        return (kb, o, tuple((key(f, x), s) for x, s in vo)), (kb if vo else None)

    def tok_of(st, v, path=None, depth=0):
        d = f.defs.get(v)
        if d is None or depth > 6:
            return None
        for e in st:
            if e[0] == "V" and e[1] == v:
                return e[2]
        if d.op in ("bitcast", "freeze"):
            return tok_of(st, d.args[0], path, depth + 1)
        if d.op == "getelementptr" and not d.get("vo"):
            return tok_of(st, d.d["p"], path, depth + 1)
        if d.op == "phi":
            # a null-preserving adjustment, or one value on every way in
            if path is not None:
                r = on_path(f, v, path)
                if r != v:
                    return tok_of(st, r, path, depth + 1)
            ts = {tok_of(st, x, path, depth + 1) for _, x in d.args if x != "null"}
            return ts.pop() if len(ts) == 1 else None
        if d.op == "select":
            ts = {tok_of(st, x, path, depth + 1) for x in d.args[1:] if x != "null"}
            return ts.pop() if len(ts) == 1 else None
        return None

    def fresh(st, c):
        """the cast runs (again): earlier results of the same cast become 'old'"""
        new = set()
        for e in st:
            if e[0] in ("V", "L", "S") and e[2] == (c, 0):
                if e[0] != "V":
                    new.add((e[0], e[1], (c, 1)))
            elif e[0] in ("U", "Z", "K") and e[1] == (c, 0):
                if e[0] == "U" or e[0] == "K":
                    new.add((e[0], (c, 1)))
            else:
                new.add(e)
        if ("U", (c, 1)) in new:
            new.discard(("K", (c, 1)))
        new.add(("U", (c, 0)))
        return new

    def put(st, p, t):
        """the location p now holds token t (or nothing known)"""
        k, cont = lk(p)
        st = {e for e in st if not (e[0] == "L" and e[1] == k)}
        if t is not None:
            st.add(("L", k, t))
            if cont is not None:
                st.add(("S", cont, t))
        return st

    def get(st, p):
        k, cont = lk(p)
        for e in st:
            if e[0] == "L" and e[1] == k:
                return e[2]
        if cont is not None:
            ts = {e[2] for e in st if e[0] == "S" and e[1] == cont}
            for t in ts:
                if ("U", t) in st:
                    return t
        return None

    def bad(kind, t, msg):
        loc = locs[t[0]]
        sites[loc][1].add((kind, msg))

    def use(st, t, i, what):
        if t is not None and (("U", t) in st or ("Z", t) in st):
            bad("checked", t, "the result is %s at %s %s" % (what, i.repo_loc, "although the cast failed" if ("Z", t) in st else "before anything tested it"))
            return ("K", t)
        return None

    cur = {"path": None}

    def step(i, st):
        s = set(st)
        if i.op == "ret":
            return [("n", st)]
        if i.op == "load":
            t = base_tok(s, i.args[0])
            if t is not None:
                use(s, t, i, "dereferenced")
                s.discard(("U", t))
            s = {e for e in s if not (e[0] == "V" and e[1] == i.id)}
            if i.get("t") == "ptr" or True:
                t = get(s, i.args[0])
                if t is not None:
                    s.add(("V", i.id, t))
            return [("n", frozenset(s))]
        if i.op == "store":
            t = base_tok(s, i.args[1])
            if t is not None:
                use(s, t, i, "dereferenced")
                s.discard(("U", t))
            return [("n", frozenset(put(s, i.args[1], tok_of(s, i.args[0]))))]
        if i.is_call():
            n = prog.dem(i.callee) if i.callee else ""
            if i.id in ids:
                s = fresh(s, i.id)
                if i.callee == "__dynamic_cast":
                    s.add(("V", i.id, (i.id, 0)))
                else:
                    s = put(s, i.args[0], (i.id, 0))
                return [("n", frozenset(s)), ("t", ("derived", "_ZTISt9exception"), st)] if i.callee != "__dynamic_cast" else [("n", frozenset(s))]
            if i.callee == "__cxa_throw":
                return [("n", frozenset(e for e in s if e[0] != "Z"))]      # the failure is reported
            if i.callee in ("__cxa_bad_cast",):
                return [("t", ("ti", "_ZTISt8bad_cast"), st)]
            if (i.callee or "").startswith("llvm."):
                return [("n", st)]
            if PTRCOPY.search(n) and len(i.args) >= 2:
                t = get(s, i.args[1])
                if t is None:
                    t = tok_of(s, i.args[1])
                    if t is not None and base_obj(i.args[1]):
                        t = None
                s = put(s, i.args[0], t)
            elif "::~" in n or re.match(r"operator delete|__cxa_", n):
                pass
            else:
                k52 = bool(i.get("v")) or n.startswith("k52::")
                for k, a in enumerate(i.args):
                    t = tok_of(s, a) if isinstance(a, str) else None
                    if t is None and isinstance(a, str) and k52:
                        b = addr(f, a)[0]
                        if f.defs.get(b) is not None and f.defs[b].op == "alloca":
                            t = get(s, a)
                    if t is not None and k52:
                        use(s, t, i, "handed to %s" % ("::".join(prog.vslot_name(i.get("v"))) if i.get("v") else prog.base(i.callee)))
                        s.discard(("U", t))
            out = [("n", frozenset(s))]
            if i.op == "invoke" or not i.get("nt"):
                out.append(("t", ("derived", "_ZTISt9exception"), st))
            return out
        return [("n", st)]

    def base_obj(v):
        return f.defs.get(v) is not None and f.defs[v].op == "alloca"

    def base_tok(st, p):
        """the cast whose result is being dereferenced by an access through p"""
        b = addr(f, p)[0]
        for e in st:
            if e[0] == "V" and e[1] == b:
                return e[2]
        d = f.defs.get(b)
        if d is not None and d.op in ("phi", "select"):
            return tok_of(st, b)
        return None

    def branch(c, val, st, path):
        s = set(st)
        for d, truth in implied(f, c, val, path=path):
            if d.get("pred") not in ("eq", "ne") or "null" not in d.args:
                continue
            x = d.args[0] if d.args[1] == "null" else d.args[1]
            t = tok_of(s, x, path)
            if t is None:
                continue
            isnull = truth == (d.get("pred") == "eq")
            if isnull:
                if ("K", t) in s:
                    return None
                s.discard(("U", t))
                s.add(("Z", t))
            else:
                if ("Z", t) in s:
                    return None
                s.discard(("U", t))
                s.add(("K", t))
        return frozenset(s)
    branch.wants_path = True
    try:
        exits, _ = explore(f, frozenset(), step, branch=branch, max_nodes=40000)
    except OverflowError:
        ck.count("undecided")
        return
    for e in exits:
        if e[0] != "ret":
            continue
        i, st, path, rv = e[1], e[2], e[3], e[4]
        if i.args:
            t = tok_of(st, i.args[0], path)
            if t is not None:
                ck.count("casts_returned_to_the_caller")
                continue
        sret = f.d["args"] and f.d["args"][0].get("sret")
        if sret and any(x[0] == "L" and x[1][0] == "a0" for x in st):
            ck.count("casts_returned_to_the_caller")
            continue
        for x in st:
            if x[0] == "S" and "a0" in str(x[1]) and ("U", x[2]) in st and sret:
                bad("checked", x[2], "the result is put into the returned collection although nothing tested it")
        failed = [x[1] for x in st if x[0] == "Z"]
        if failed and not any(x[0] == "K" for x in st):
            if rv == 0 and f.d["ret"] == "i1":
                continue
            for t in failed:
                bad("refuse", t, "a failed cast leads to a normal return (%s)" % trace(path))
