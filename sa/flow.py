"""Path exploration of one flattened function with exception routing and constant-flag correlation.

explore() enumerates reachable (block, state) pairs; a state is the analysis' own finite state plus the
pending exception kind plus the known values of the boolean/constant phis that branch conditions use."""
from collections import deque

INF = float("inf")


def cond_roots(fn, fold=False):
    """phis that feed branch or switch conditions through comparisons, logic or casts, and loads of flags"""
    want = set()

    def visit(v, depth=0):
        i = fn.defs.get(v)
        if i is None or depth > 12:
            return
        if i.op == "phi":
            if i.id in want:
                return
            want.add(i.id)
            for _, x in i.args:
                visit(x, depth + 1)
        elif i.op in ("icmp", "xor", "and", "or", "zext", "trunc", "sext", "freeze", "select"):
            for x in i.args:
                visit(x, depth + 1)
        elif i.op in ("add", "sub") and fold:
            for x in i.args:
                visit(x, depth + 1)
        elif i.op == "load" and fold:
            # an index into a constant table
            p = fn.defs.get(i.args[0])
            while p is not None and p.op == "getelementptr":
                for x, _ in p.d.get("vo", []):
                    visit(x, depth + 1)
                p = fn.defs.get(p.d["p"])
    for b in fn.blocks:
        t = b[-1]
        if "cond" in t.d:
            visit(t.d["cond"])
        if t.op == "ret" and t.args and t.fn.d["ret"] in ("i1", "i8", "i32"):
            visit(t.args[0])
    # keep only phis that can be constant on some edge
    return want


def const(v):
    if isinstance(v, str) and v.startswith("#") and not v.startswith("#f") and v != "#big":
        return int(v[1:])
    if v == "null":
        return 0
    return None


class Path:
    """one explored node with its predecessor, for reporting"""
    __slots__ = ("bb", "state", "prev", "via")

    def __init__(self, bb, state, prev, via):
        self.bb, self.state, self.prev, self.via = bb, state, prev, via


def clause_match(prog, kind, clause):
    """kind: ('ti', typeinfo-name) exact thrown type | ('derived', ti) unknown type derived from ti |
    ('other',) a type with no relation to any named class.  -> 'yes' | 'no' | 'maybe'"""
    if clause.startswith("filter"):
        return "maybe"
    c = clause[len("catch "):]
    if c in ("null", "undef"):
        return "yes"
    c = c.lstrip("@")
    if kind[0] == "other":
        return "no"
    if kind[0] == "nonstd":      # any type outside the std::exception hierarchy
        return "no" if prog.derives(c, "_ZTISt9exception") else "maybe"
    if kind[0] == "ti":
        return "yes" if prog.derives(kind[1], c) else "no"
    if kind[0] == "derived":
        if prog.derives(kind[1], c):
            return "yes"
        if prog.derives(c, kind[1]):
            return "maybe"
        return "no"
    return "maybe"


def explore(fn, init, step, max_nodes=60000, const_of=None, branch=None, on_switch=None, fold=False, undecided=None, on_enter=None):
    """step(inst, ustate) -> list of ('n', ustate) | ('t', kind, ustate) | ('stop',)
    The callback is called for every non-terminator-control instruction, calls included; for a call it decides
    whether it throws.  Returns (exits, visited count) where exits is a list of
    ('ret', inst, ustate, path, constant-or-None) and ('escape', inst, ustate, path, kind).
    branch(cond, value, ustate) -> ustate or None (infeasible) is called when an undecided branch is taken,
    on_switch(cond, case value or None, ustate) likewise for an undecided switch; undecided collects the conditions
    of branches and switches whose direction was not known."""
    prog = fn.prog
    if getattr(step, "wants_path", False):
        step0, step = step, None
        here = [None]

        def step(i, u):
            return step0(i, u, here[0])
    else:
        here = [None]
    roots = cond_roots(fn, fold)
    exits = []
    seen = set()
    work = deque()
    start = Path(0, (init, None, frozenset()), None, "entry")
    work.append((0, 0, init, None, (), frozenset(), start))
    nodes = 0

    def lookup(v, env):
        c = const(v)
        if c is not None:
            return c
        if v in env:
            return env[v]
        if const_of:
            c = const_of(v)
            if c is not None:
                return c
        i = fn.defs.get(v)
        if i is None:
            return None
        if i.op in ("zext", "freeze", "trunc"):
            c = lookup(i.args[0], env)
            if c is not None and i.op == "zext":
                c &= 1 if fn.defs.get(i.args[0]) is not None and fn.defs[i.args[0]].get("t") == "i1" else ~0
            if c is not None and i.op == "trunc" and i.get("t") == "i1":
                c &= 1
            return c
        if i.op == "xor":
            a, b = lookup(i.args[0], env), lookup(i.args[1], env)
            if a is not None and b is not None:
                return (a & 1) ^ (b & 1) if i.get("t") == "i1" else a ^ b
            return None
        if i.op in ("and", "or"):
            a, b = lookup(i.args[0], env), lookup(i.args[1], env)
            if i.op == "and" and (a == 0 or b == 0):
                return 0
            if i.op == "or" and i.get("t") == "i1" and (a in (1, -1) or b in (1, -1)):
                return 1
            if a is not None and b is not None:
                return a & b if i.op == "and" else a | b
            return None
        if i.op in ("add", "sub") and fold:
            # small counters only: enough for loops over a handful of cases, no unrolling of long loops
            a, b = lookup(i.args[0], env), lookup(i.args[1], env)
            if a is not None and b is not None:
                c = a + b if i.op == "add" else a - b
                return c if -16 <= c <= 16 else None
            return None
        if i.op == "select":
            c = lookup(i.args[0], env)
            if c is not None:
                return lookup(i.args[1] if c & 1 else i.args[2], env)
            return None
        if i.op == "load" and fold:
            return table_load(fn, i.args[0], lambda x: lookup(x, env))
        if i.op == "icmp":
            a, b = lookup(i.args[0], env), lookup(i.args[1], env)
            if a is not None and b is not None:
                p = i.get("pred")
                r = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}.get(p)
                if r is None and a >= 0 and b >= 0:
                    r = {"ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}.get(p)
                return None if r is None else int(r)
        return None

    def enter(frm, to, ust, exc, caught, env, path, via):
        # facts about values computed in or below this block are stale: they are recomputed from here on
        old = dict(env)
        new = {}
        for k, x in old.items():
            d = fn.defs.get(k)
            if d is None or to not in fn.dom()[d.bb]:
                new[k] = x
        for i in fn.blocks[to]:
            if i.op != "phi":
                break
            if i.id in roots:
                for pb, v in i.args:
                    if pb == frm:
                        c = lookup(v, old)
                        if c is not None:
                            new[i.id] = c & 1 if i.get("t") == "i1" else c
                        break
        fenv = frozenset(new.items())
        if on_enter is not None:
            ust = on_enter(frm, to, ust)
        p = Path(to, None, path, via)
        work.append((to, 0, ust, exc, caught, fenv, p))

    def throw(i, kind, ust, caught, env, path):
        """route an exception of the kind raised at i"""
        if i.op == "invoke":
            ub = i.get("ub")
            lp = next((x for x in fn.blocks[ub] if x.op == "landingpad"), None)
            if lp is None:
                exits.append(("escape", i, ust, path, kind))
                return
            ms = [clause_match(prog, kind, c) for c in lp.get("clauses")]
            if lp.get("cleanup") or any(m != "no" for m in ms):
                enter(i.bb, ub, ust, kind, caught, env, path, "exception from %s" % i.repo_loc)
                if lp.get("cleanup") or any(m == "yes" for m in ms):
                    return
            exits.append(("escape", i, ust, path, kind))
        else:
            exits.append(("escape", i, ust, path, kind))

    while work:
        bb, ix, ust, exc, caught, fenv, path = work.popleft()
        here[0] = path
        key = (bb, ix, ust, exc, caught, fenv)
        if key in seen:
            continue
        seen.add(key)
        nodes += 1
        if nodes > max_nodes:
            raise OverflowError("state space of %s exceeds %d" % (fn.dem, max_nodes))
        states = [(ust, exc, caught)]
        env = dict(fenv)
        L = fn.blocks[bb]
        i = L[ix]
        # run one instruction at a time; straight-line code continues in place
        while True:
            i = L[ix]
            if i.op == "phi" or i.op == "landingpad":
                ix += 1
                continue
            if i.op == "br":
                s = i.get("succ")
                if len(s) == 1:
                    enter(bb, s[0], ust, exc, caught, env, path, i.repo_loc)
                else:
                    c = i.get("cond")
                    dec = lookup(c, env)
                    ci = fn.defs.get(c)
                    if dec is None and ci is not None and ci.op == "icmp" and exc is not None and ci.get("pred") in ("eq", "ne"):
                        for x in ci.args:
                            d = fn.defs.get(x)
                            if d is not None and d.is_call() and (d.callee or "").startswith("llvm.eh.typeid.for"):
                                m = clause_match(prog, exc, "catch " + d.args[0])
                                if m != "maybe":
                                    dec = int((m == "yes") == (ci.get("pred") == "eq"))
                    if dec is None and undecided is not None:
                        undecided.add(c)
                    for k, val in ((0, 1), (1, 0)):
                        if dec is not None and (dec & 1) != val:
                            continue
                        e2 = dict(env)
                        if dec is None:
                            learn(fn, c, val, e2, roots)
                        u2 = ust
                        if branch is not None:
                            u2 = branch(c, val, ust, path) if getattr(branch, "wants_path", False) else branch(c, val, ust)
                            if u2 is None:
                                continue
                        enter(bb, s[k], u2, exc, caught, e2, path, i.repo_loc)
                break
            if i.op == "switch":
                dec = lookup(i.get("cond"), env)
                tg = None
                if dec is None and undecided is not None:
                    undecided.add(i.get("cond"))
                for v, x in i.get("cases"):
                    if dec is not None and v == dec:
                        tg = x
                    if dec is None:
                        e2 = dict(env)
                        if i.get("cond") in roots:
                            e2[i.get("cond")] = v
                        u2 = on_switch(i.get("cond"), v, ust) if on_switch else ust
                        if u2 is not None:
                            enter(bb, x, u2, exc, caught, e2, path, i.repo_loc)
                if dec is None or tg is None:
                    u2 = on_switch(i.get("cond"), None, ust) if on_switch and dec is None else ust
                    if u2 is not None:
                        enter(bb, i.get("def"), u2, exc, caught, env, path, i.repo_loc)
                else:
                    enter(bb, tg, ust, exc, caught, env, path, i.repo_loc)
                break
            if i.op == "ret":
                r = step(i, ust)
                rv = lookup(i.args[0], env) if i.args else None
                exits.append(("ret", i, r[0][1] if r and r[0][0] == "n" else ust, path, rv))
                break
            if i.op == "resume":
                exits.append(("escape", i, ust, path, exc))
                break
            if i.op == "unreachable":
                break
            if i.is_call():
                f = i.callee or ""
                if f == "__cxa_throw":
                    ti = i.args[1].lstrip("@")
                    out = step(i, ust)
                    u2 = out[0][1] if out and out[0][0] == "n" else ust
                    throw(i, ("ti", ti), u2, caught, env, path)
                    break
                if f == "__cxa_rethrow":
                    k = caught[-1] if caught else ("other",)
                    throw(i, k, ust, caught, env, path)
                    break
                if f == "__cxa_begin_catch":
                    caught = caught + (exc if exc is not None else ("other",),)
                    exc = None
                    out = [("n", ust)]
                elif f == "__cxa_end_catch":
                    caught = caught[:-1]
                    out = [("n", ust)]
                else:
                    out = step(i, ust)
                normals = []
                for o in out:
                    if o[0] == "n":
                        normals.append(o[1])
                    elif o[0] == "t":
                        throw(i, o[1], o[2], caught, env, path)
                if not normals:
                    break
                if i.op == "invoke":
                    for u in normals:
                        enter(bb, i.get("nb"), u, exc, caught, env, path, i.repo_loc)
                    break
                for u in normals[1:]:
                    work.append((bb, ix + 1, u, exc, caught, frozenset(env.items()), path))
                ust = normals[0]
                ix += 1
                continue
            out = step(i, ust)
            if out and out[0][0] == "n":
                ust = out[0][1]
            elif out and out[0][0] == "stop":
                break
            ix += 1
    return exits, nodes


def learn(fn, c, val, env, roots):
    """record what taking a branch says about the phis its condition tests"""
    i = fn.defs.get(c)
    if i is None:
        return
    if i.op == "phi":
        if c in roots:
            env[c] = val
        return
    env[c] = val
    if i.op == "icmp" and i.get("pred") in ("eq", "ne"):
        a, b = i.args
        k = const(b)
        if k is not None and a in fn.defs and (val == 1) == (i.get("pred") == "eq"):
            if fn.defs[a].op == "phi" and a in roots:
                env[a] = k
    elif i.op == "xor" and const(i.args[1]) in (1, -1):
        learn(fn, i.args[0], 1 - val, env, roots)


def table_load(fn, p, lookup):
    """value read from a constant integer table at a known position"""
    from val import addr
    b, o, vo = addr(fn, p)
    for x, sc in vo:
        k = lookup(x)
        if k is None:
            return None
        o += k * sc
    d = fn.defs.get(b)
    if d is not None and d.op == "alloca":
        src = None
        for i in fn.insts():
            if i.op == "store" and addr(fn, i.args[1])[0] == b:
                return None
            if i.is_call() and any(isinstance(a, str) and addr(fn, a)[0] == b for a in i.args):
                if (i.callee or "").startswith("llvm.memcpy") and addr(fn, i.args[0])[:2] == (b, 0) and src is None:
                    src = i.args[1]
                elif not (i.callee or "").startswith("llvm.lifetime"):
                    return None
        if src is None:
            return None
        b, o2, vo2 = addr(fn, src)
        if vo2:
            return None
        o += o2
    if not (isinstance(b, str) and b.startswith("@")):
        return None
    g = fn.prog.globals.get(b[1:])
    if not g or "ints" not in g:
        return None
    q, r = divmod(o, g["esize"])
    return g["ints"][q] if r == 0 and 0 <= q < len(g["ints"]) else None


def trace(path, limit=14):
    out = []
    p = path
    while p is not None:
        if p.via and (not out or out[-1] != p.via):
            out.append(p.via)
        p = p.prev
    out.reverse()
    if len(out) > limit:
        out = out[:3] + ["..."] + out[-(limit - 4):]
    return " -> ".join(out)


def blocks_of(path):
    """blocks of an explored path, last first"""
    r = []
    while path is not None:
        r.append(path.bb)
        path = path.prev
    return r


def on_path(fn, v, path):
    """the value v had at the end of the path, with phis (casts, freezes) resolved by the blocks taken"""
    bbs = blocks_of(path)
    at = 0
    for _ in range(60):
        d = fn.defs.get(v)
        if d is None:
            return v
        if d.op in ("freeze", "bitcast"):
            v = d.args[0]
            continue
        if d.op != "phi":
            return v
        try:
            k = bbs.index(d.bb, at)
        except ValueError:
            return v
        if k + 1 >= len(bbs):
            return v
        nv = next((x for pb, x in d.args if pb == bbs[k + 1]), None)
        if nv is None:
            return v
        v, at = nv, k + 1
    return v
