"""C27: every search is bounded by its limit on rounds."""
import re
from checks.c15 import ga
from checks.c18 import sel as run_roots, OPAQUE as RUN_OPAQUE
from checks.c19 import fields
from flow import const
from ir import ACCESSORS

TECHNIQUE = ("loop-bound analysis on the flattened searches: the counter of every outermost evaluating loop is followed through the SSA graph (start, steps, resets), and a path exploration under the assumption that the "
             "limit is reached shows whether another round can begin")
LEVEL_NOTE = "every FindOptimalParameters and the genetic algorithm's Optimize; line searches inside one round, which end on their precision, and repeated random drawing are not judged"
EXPLANATION = """
For every loop of a search that evaluates the objective and does not lie in another such loop, the integer variables carried round the loop are followed through additions and joins. Rules: bounded (assuming that every comparison of the
counter with its limit answers that the limit is reached, no path leads into another round), counted (no path leads round the loop without a step of the counter), restart (the counter is not set back to a constant inside the loop and
does not step both ways), width (the counter is not narrower than the limit), exact (where the loop ends only if counter and limit are equal, the first value compared is not already beyond the smallest limit),
limit (the comparison is with the number that was configured, and the number of rounds it allows is not larger).
"""
ASSUMPTIONS = ["one call of a library algorithm ends", "the limit is not changed while the search runs by anything the search calls"]
CONFIGS = ["thread"]


JOBS = [{"id": "run", "select": lambda j: [f for f in run_roots(j) if re.search(r"::FindOptimalParameters\(", j["dem"].get(f, f))], "opaque": RUN_OPAQUE, "inline": ACCESSORS},
        {"id": "ga", "select": lambda j: [f for f in ga(j) if "::Optimize(" in j["dem"].get(f, f)],
         "opaque": RUN_OPAQUE + [r"k52::optimization::Individual::", r"::ObjectiveFunctionCounter::", r"k52::optimization::operator(<<|>>)", r"k52::optimization::(Individual|Generation)Statistics::"], "inline": ACCESSORS}]
INT = {"unsigned long": 64, "long": 64, "unsigned int": 32, "int": 32, "short": 16, "unsigned short": 16, "char": 8, "unsigned char": 8, "signed char": 8, "unsigned long long": 64, "long long": 64,
       "size_t": 64, "std::size_t": 64}
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
NOT = {"slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "eq": "ne", "ne": "eq"}


def num(v):
    return int(v[1:]) if isinstance(v, str) and re.fullmatch(r"#-?\d+", v) else None


class Search:
    def __init__(self, prog, f, cls):
        self.prog, self.f, self.cls = prog, f, cls
        self.this = next(("a%d" % n for n, a in enumerate(f.d["args"]) if a.get("n") == "this"), None)
        ids = {c["name"]: k for k, c in prog.classes.items()}
        self.fields = {o: (n, t) for n, o, t in fields(prog, ids[cls])} if cls in ids else {}
        # whole numbers the search itself never changes
        self.limits = {o: n for o, (n, t) in self.fields.items() if t in INT}
        for i in f.insts():
            if i.op == "store":
                self.limits.pop(self.offset(i.args[1]), None)

    def field(self, v):
        """offset of the member a value was loaded from"""
        d = self.f.defs.get(v)
        return self.offset(d.args[0]) if d is not None and d.op == "load" else None

    def offset(self, p):
        off = 0
        for _ in range(8):
            g = self.f.defs.get(p)
            if g is None:
                break
            if g.op == "getelementptr" and not g.d.get("vo") and isinstance(g.d.get("off"), int):
                off, p = off + g.d["off"], g.d["p"]
            elif g.op == "bitcast":
                p = g.args[0]
            else:
                break
        return off if p == self.this and off in self.fields else None

    def strip(self, v):
        d = self.f.defs.get(v)
        while d is not None and d.op in ("sext", "zext", "trunc", "freeze"):
            v = d.args[0]
            d = self.f.defs.get(v)
        return v

    def bound(self, v):
        """(member, constant) of a limit, ('n', value) of a constant one, ('grown', member) when it is made larger, or None"""
        k = 0
        for _ in range(10):
            v = self.strip(v)
            if num(v) is not None:
                return ("n", num(v) + k)
            o = self.field(v)
            if o is not None:
                return (o, k) if self.fields[o][1] in INT else None
            d = self.f.defs.get(v)
            if d is None:
                return None
            if d.op in ("add", "sub") and num(d.args[1]) is not None:
                k += num(d.args[1]) * (1 if d.op == "add" else -1)
                v = d.args[0]
            elif d.op in ("mul", "shl") or d.op == "add":
                hit = [self.field(self.strip(x)) for x in d.args]
                hit = [o for o in hit if o in self.limits]
                return ("grown", hit[0]) if hit else None
            elif d.is_call() and re.match(r"llvm\.[us]min", d.callee or ""):
                fs = [b for b in map(self.bound, d.args) if b and b[0] != "n" and b[0] != "grown"]
                return (fs[0][0], fs[0][1] + k) if fs else None
            else:
                return None
        return None

    def web(self, phi, l):
        """values the counter takes inside the loop: value -> smallest number of steps since the round began; and what is odd about them"""
        f = self.f
        steps, starts, odd, seen = set(), set(), {}, set()
        for b, v in phi.args:
            if b not in l.body:
                starts.add(v)
        work = [v for b, v in phi.args if b in l.body]
        while work:
            v = work.pop()
            if v in seen or v == phi.id:
                continue
            seen.add(v)
            d = f.defs.get(v)
            if d is None:
                if num(v) is not None:
                    odd.setdefault("reset", v)
                else:
                    odd.setdefault("other", v)
            elif d.bb not in l.body:
                odd.setdefault("stop" if self.bound(v) and self.bound(v)[0] not in ("n", "grown") else "reset" if v in starts else "other", v)
            elif d.op == "phi":
                work += [x for _, x in d.args]
            elif d.op == "select":
                work += d.args[1:]
            elif d.op in ("add", "sub") and num(d.args[1]) is not None and num(d.args[1]) != 0:
                steps.add(num(d.args[1]) * (1 if d.op == "add" else -1))
                work.append(d.args[0])
            elif d.op == "add" and any(self.maybe(x) for x in d.args):
                odd.setdefault("free", d)
                work += [x for x in d.args if not self.maybe(x)]
                steps.add(1)
            elif d.op in ("freeze", "sext", "zext", "trunc"):
                work.append(d.args[0])
            elif self.field(v) in self.limits:
                odd.setdefault("stop", v)
            else:
                odd.setdefault("other", v)
        # forward: everything derived from the counter by joins and constant steps
        dist, work = {phi.id: 0}, [phi.id]
        while work:
            v = work.pop(0)
            for u in f.uses(v):
                if u.bb not in l.body or u.id == phi.id or not u.id:
                    continue
                k = dist[v]
                if u.op in ("add", "sub") and u.args[0] == v and num(u.args[1]) is not None:
                    k += abs(num(u.args[1]))
                elif u.op == "add" and any(self.maybe(x) for x in u.args):
                    pass
                elif u.op == "phi" or u.op == "select" and v in u.args[1:] or u.op in ("freeze", "sext", "zext", "trunc"):
                    pass
                else:
                    continue
                if u.id not in dist or k < dist[u.id]:
                    dist[u.id] = k
                    work.append(u.id)
        return steps, starts, odd, dist, seen

    def matters(self, v, depth=0):
        """can the value decide anything but a floating point result?"""
        return depth > 8 or any(u.op not in ("uitofp", "sitofp") and (u.op not in ("add", "sub", "mul", "zext", "sext", "trunc", "phi") or self.matters(u.id, depth + 1)) for u in self.f.uses(v))

    def maybe(self, v):
        """nothing or one, depending on a condition"""
        d = self.f.defs.get(v)
        if d is None:
            return False
        if d.op == "zext":
            x = self.f.defs.get(d.args[0])
            return x is not None and x.d.get("t") == "i1"
        vs = [x for _, x in d.args] if d.op == "phi" else d.args[1:] if d.op == "select" else []
        return bool(vs) and all(num(x) is not None for x in vs) and "#0" in vs

    def narrow(self, phi):
        w = INT.get(str(phi.d.get("dt")))
        return w if w is not None and w < 32 else None


def back(f, l, known, marks=(), cap=40000):
    """blocks from which another round can begin when the comparisons are decided as given; with marks: without passing any of them"""
    # truth values joined inside the loop
    def code(v, depth=0):
        """a constant, or a choice between constants"""
        if const(v) is not None:
            return True
        d = f.defs.get(v)
        if d is None or depth > 4:
            return False
        return d.op == "select" and code(d.args[1], depth + 1) and code(d.args[2], depth + 1) or d.op == "zext" and f.defs.get(d.args[0]) is not None and f.defs[d.args[0]].d.get("t") == "i1" \
            or d.op in ("shl", "xor", "or") and const(d.args[1]) is not None and code(d.args[0], depth + 1)
    cand = [i for b in l.body for i in f.blocks[b] if i.op == "phi" and (i.d.get("t") == "i1" or all(code(v) for _, v in i.args))]
    flags = {i.id for i in cand}

    def value(v, env, depth=0):
        c = const(v)
        if c is not None:
            return c & 1 if c == -1 else c
        if v in known:
            return known[v]
        if v in env:
            return env[v]
        i = f.defs.get(v)
        if i is None or depth > 12:
            return None
        if i.op in ("zext", "freeze", "trunc"):
            return value(i.args[0], env, depth + 1)
        if i.op in ("xor", "and", "or"):
            x, y = value(i.args[0], env, depth + 1), value(i.args[1], env, depth + 1)
            if i.op == "and" and (x == 0 or y == 0):
                return 0
            if i.op == "or" and i.d.get("t") == "i1" and (x == 1 or y == 1):
                return 1
            if x is None or y is None:
                return None
            return x ^ y if i.op == "xor" else x & y if i.op == "and" else x | y
        if i.op == "shl" and const(i.args[1]) is not None:
            x = value(i.args[0], env, depth + 1)
            return None if x is None else x << const(i.args[1])
        if i.op == "select":
            x = value(i.args[0], env, depth + 1)
            if x is None:
                y, z = value(i.args[1], env, depth + 1), value(i.args[2], env, depth + 1)
                return y if y == z else None
            return value(i.args[1 if x & 1 else 2], env, depth + 1)
        if i.op == "icmp" and i.get("pred") in ("eq", "ne"):
            x, y = value(i.args[0], env, depth + 1), value(i.args[1], env, depth + 1)
            if x is None or y is None:
                return None
            return int((x == y) == (i.get("pred") == "eq"))
        return None
    hit, seen, work = [], set(), [(l.header, frozenset(), False)]
    while work:
        b, fenv, m = work.pop()
        if (b, fenv, m) in seen:
            continue
        seen.add((b, fenv, m))
        if len(seen) > cap:
            raise OverflowError
        env = dict(fenv)
        m = m or any(id(i) in marks for i in f.blocks[b])
        t = f.blocks[b][-1]
        c = t.d.get("cond") if t.op in ("br", "switch") else None
        dec = value(c, env) if c is not None else None
        for y, lab in f.succ[b]:
            if lab == "u":
                continue
            if t.op == "br" and dec is not None and lab in ("t", "f") and (lab == "t") != bool(dec & 1):
                continue
            if t.op == "switch" and dec is not None and lab != "default" and lab[1] != dec:
                continue
            if t.op == "switch" and dec is not None and lab == "default" and any(v == dec for v, _ in t.get("cases")):
                continue
            if y == l.header:
                if b in l.body and not m:
                    hit.append(b)
                continue
            if y not in l.body:
                continue
            e2 = {k: x for k, x in env.items() if y not in f.dom()[f.defs[k].bb]}
            if t.op == "br" and dec is None and c in flags and lab in ("t", "f"):
                if y not in f.dom()[f.defs[c].bb]:
                    e2[c] = int(lab == "t")
            for i in f.blocks[y]:
                if i.op != "phi":
                    break
                if i.id in flags:
                    v = next((x for pb, x in i.args if pb == b), None)
                    x = value(v, env) if v is not None else None
                    if x is None:
                        e2.pop(i.id, None)
                    else:
                        e2[i.id] = x
            work.append((y, frozenset(e2.items()), m))
    return hit


def evaluates(prog, i):
    if not i.is_call():
        return False
    if i.get("v"):
        n = prog.vslot_name(i.get("v"))
        return n[-1] == "operator()" and "ObjectiveFunction" in n[0]
    return bool(re.search(r"::ObjectiveFunctionCounter::ObtainFitness\(|ObjectiveFunction::operator\(\)\(", prog.dem(i.callee) if i.callee else ""))


def judge(s, l, phi, evals, c0=None):
    """None when the variable has nothing to do with the end of the loop; otherwise a list of (rule, holds or None, text)"""
    f = s.f
    steps, starts, odd, dist, chain = s.web(phi, l)
    tests = {}
    for i in f.insts():
        if i.op != "icmp" or i.bb not in l.body:
            continue
        a, b = s.strip(i.args[0]), s.strip(i.args[1])
        ia, ib = i.args[0] in dist or a in dist, i.args[1] in dist or b in dist
        if ia == ib:
            continue
        v, lim, p = (a, b, i.get("pred")) if ia else (b, a, SWAP.get(i.get("pred"), i.get("pred")))
        if v not in dist:
            v = i.args[0] if ia else i.args[1]
        d = f.defs.get(lim)
        if d is not None and d.op == "load" and d.d.get("t") in ("ptr",):
            continue
        tests[i.id] = (i, v, lim, p)
    if not steps or not tests:
        return None
    up = all(x > 0 for x in steps)
    res = []
    if not up and any(x > 0 for x in steps):
        return [("restart", False, "the number of rounds is counted up and down")]
    known = {}
    kinds = {}
    for t, (i, v, lim, p) in tests.items():
        # the answer when the limit is reached
        if p in ("eq", "ne"):
            known[t] = 1 if p == "eq" else 0
        elif up:
            known[t] = 1 if p in ("sgt", "sge", "ugt", "uge") else 0
        else:
            known[t] = 1 if p in ("slt", "sle", "ult", "ule") else 0
        kinds[t] = s.bound(lim)
    # comparisons with small constants that are not the end of the loop (first round or not) are left open
    for t in [t for t, k in kinds.items() if k and k[0] == "n"]:
        if any(k is None or k[0] != "n" for k in kinds.values()):
            known.pop(t)
    # asked at the head of the loop, about the round before which nothing was counted: by now it was
    later = {}
    if len(starts) == 1 and num(next(iter(starts))) is not None:
        c0 = num(next(iter(starts)))
    if up and c0 is not None:
        for t, (i, v, lim, p) in tests.items():
            if t not in known and dist.get(v) == 0 and num(lim) is not None:
                k = num(lim) - c0
                if (p, k) in ((("eq"), 0), ("slt", 1), ("ult", 1), ("sle", 0), ("ule", 0)):
                    later[t] = 0
                elif (p, k) in (("ne", 0), ("sgt", 0), ("ugt", 0), ("sge", 1), ("uge", 1)):
                    later[t] = 1
    try:
        again = back(f, l, dict(known, **later))
        leaves = not again
        none = back(f, l, {})
    except OverflowError:
        return [("bounded", None, "")]
    if not none:
        return None
    res.append(("bounded", leaves, "another round can begin at %s although the limit on rounds is reached" % (f.blocks[again[0]][-1].repo_loc if again else "")))
    adds = {id(f.defs[v]) for v in chain if f.defs.get(v) is not None and f.defs[v].op in ("add", "sub")}
    # a round that is not counted: the old value can come back, and on a path that makes no step
    plain, work, seen = False, [v for b, v in phi.args if b in l.body], set()
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        if v == phi.id:
            plain = True
            break
        d = f.defs.get(v)
        if d is not None and d.bb in l.body and d.op in ("phi", "select", "freeze"):
            work += [x for _, x in d.args] if d.op == "phi" else d.args[-2:] if d.op == "select" else d.args
    miss = []
    if plain:
        try:
            miss = back(f, l, {t: 1 - x for t, x in known.items()}, adds)
        except OverflowError:
            miss = None
        sel = any(f.defs[v].op == "select" for v in seen if v in f.defs)
        res.append(("counted", None if miss is None else not miss and not sel, "a round that ends at %s is not counted" % (f.blocks[miss[0]][-1].repo_loc if miss else f.blocks[l.header][0].repo_loc)))
    else:
        res.append(("counted", True, ""))
    if "reset" in odd:
        res.append(("restart", False, "the number of rounds is set back to %s inside the search" % odd["reset"].lstrip("#")))
    elif "other" in odd:
        res.append(("restart", None, ""))
    else:
        res.append(("restart", True, ""))
    if "free" in odd:
        res = [x for x in res if x[0] != "counted"] + [("counted", False, "not every round is counted at %s" % odd["free"].repo_loc)]
    mine = [(t, k) for t, k in kinds.items() if k and (k[0] in s.limits or k[0] == "grown") and t in known]
    loads = [i for i in f.insts() if s.field(i.id) in s.limits]
    if not leaves:
        return res
    if s.limits and not mine:
        begin = s.bound(next(iter(starts))) if len(starts) == 1 and not up else None
        if begin and (begin[0] in s.limits or begin[0] == "grown"):
            res.append(("limit", begin[0] != "grown" and begin[1] <= 0, "the count begins with more than was configured"))
        elif all(k and k[0] == "n" for k in kinds.values()) or not loads:
            res.append(("limit", None if any(s.matters(i.id) for i in loads) else False, "the number of rounds is not compared with %s" % "/".join(sorted(s.limits.values()))))
        return res
    # only comparisons the end of the loop depends on
    need = []
    for t, k in mine:
        less = {x: y for x, y in dict(known, **later).items() if x != t}
        try:
            if back(f, l, less):
                need.append((t, k))
        except OverflowError:
            need.append((t, k))
    mine = need
    for t, k in mine:
        i, v, lim, p = tests[t]
        name = s.limits[k[1] if k[0] == "grown" else k[0]]
        if k[0] == "grown":
            res.append(("limit", False, "the number of rounds is compared at %s with more than %s" % (i.repo_loc, name)))
            continue
        if s.narrow(phi):
            res.append(("width", False, "a counter of %d bits never reaches larger values of %s at %s" % (s.narrow(phi), name, i.repo_loc)))
        if not up or len(starts) != 1 or num(next(iter(starts))) is None or steps != {1}:
            if up and steps != {1} and p in ("eq", "ne"):
                res.append(("exact", False, "the count, which grows by %s, can step over %s at %s" % ("/".join(map(str, sorted(steps))), name, i.repo_loc)))
            continue
        c0, c, first = num(next(iter(starts))), k[1], dist.get(v, 0)
        if p in ("eq", "ne"):
            # guarded against small limits elsewhere?
            guards = [j for j in f.insts() if j.op == "icmp" and j.id != t and any(s.field(s.strip(x)) == k[0] for x in j.args)]
            ok = c0 + first <= c
            res.append(("exact", True if ok else None if guards else False, "the count is %d when it is first compared for equality with %s at %s: smaller limits are never reached" % (c0 + first, name, i.repo_loc)))
        le = 1 if p in (("sle", "ule", "sgt", "ugt")) else 0
        before = bool(later) or all(f.dominates(i, e) for e in evals)
        extra = c + le - c0 - first + (0 if before else 1)
        res.append(("limit", extra <= 0, "the comparison at %s allows %d more rounds than %s" % (i.repo_loc, extra, name)))
    return res


def check(ck, prog):
    n = 0
    for job in ("run", "ga"):
        for f in prog.jobs[job]:
            m = re.match(r"^(k52::[\w:]+)::(FindOptimalParameters|Optimize)\(", f.dem)
            if not m or "GridSearch" in f.dem:
                continue
            cls = m.group(1)
            s = Search(prog, f, cls)
            evs = [i for i in f.calls() if evaluates(prog, i)]
            loops = []
            for l in f.loops():
                mine = [i for i in evs if i.bb in l.body]
                p = l.parent
                drawn = job == "run" and any(i.op == "icmp" and any(s.field(s.strip(x)) in s.limits for x in i.args) for b in l.body for i in f.blocks[b])
                if (mine or drawn) and p is None:
                    loops.append((l, mine))
            for l, mine in loops:
                h = f.blocks[l.header]
                cand = []
                for phi in h:
                    if phi.op != "phi":
                        break
                    if str(phi.d.get("t", "")) in ("i1", "ptr", "double", "float"):
                        continue
                    r = judge(s, l, phi, mine)
                    if r is not None:
                        cand.append((phi, r))
                where = "%s loop at %s" % (cls, next((i.repo_loc for i in h if i.repo_loc and i.op != "phi"), f.loc))
                key = "%s:%s" % (cls.split("::")[-1], len(loops))
                if not cand:
                    names = "/".join(sorted(s.limits.values()))
                    pointers = any(i.op == "icmp" and any(f.defs.get(x) is not None and f.defs[x].d.get("t") == "ptr" for x in i.args) for b, _, _ in l.exits() for i in f.blocks[b])
                    used = [i for i in f.insts() if i.op == "load" and s.field(i.id) in s.limits and i.bb in l.body]
                    memory = any(i.op == "store" and f.defs.get(i.args[0]) is not None and f.defs[i.args[0]].op in ("add", "sub") for b in l.body for i in f.blocks[b])
                    if pointers or used or memory:
                        ck.count("undecided")
                    else:
                        n += 1
                        ck.ob("bounded", where, False, "nothing counts the rounds of this search%s" % (" against " + names if names else ""), "bounded:" + key)
                    continue
                n += 1
                rank = lambda r: (sum(1 for _, o, _ in r if o is False), sum(1 for _, o, _ in r if o is None))
                phi, r = min(cand, key=lambda x: rank(x[1]))
                for rule, o, text in r:
                    if o is None:
                        ck.count("undecided")
                    else:
                        ck.ob(rule, where, o, "%s: %s" % (cls, text), "%s:%s" % (rule, key))
                # rounds of an inner loop that are counted by the same counter and asked about there
                web, begin = s.web(phi, l)[3], s.web(phi, l)[1]
                begin = num(next(iter(begin))) if len(begin) == 1 else None
                for k in f.loops():
                    if k.header == l.header or k.header not in l.body or not any(i.bb in k.body for i in evs):
                        continue
                    for p in f.blocks[k.header]:
                        if p.op != "phi":
                            break
                        if p.id not in web or all(x == p.id for b, x in p.args if b in k.body):
                            continue
                        if any(i.op == "add" and i.bb in k.body and i.args[0] in web for i in f.insts()):
                            for rule, o, text in judge(s, k, p, [i for i in evs if i.bb in k.body], begin) or []:
                                if rule == "bounded" and o is not None:
                                    n += 1
                                    ck.ob(rule, "%s inner loop at %s" % (cls, f.blocks[k.header][-1].repo_loc), o, "%s: %s" % (cls, text), "%s:inner:%s" % (rule, key))
    ck.need(n, "searches")


MINIMUM = {"bounded": 4}
