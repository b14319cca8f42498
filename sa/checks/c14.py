"""Objects and settings with arguments outside their domain are refused, and arguments inside it are accepted."""
import re
from ir import ACCESSORS
from flow import trace
from checks.c13 import implied
from heap import Heap, leaves, mentions
from bounds import Cases, negate

EXPLANATION = """
Each validating constructor or entry point is flattened (private helpers, base constructors and member reads inlined) and walked path by
path over the abstract store; the comparisons established by the branches of a path are turned into interval and order facts about the
arguments, inverting monotone arithmetic (differences, quotients, floor, ceil, integer conversion). Rules: domain (on every path to a
normal return the facts imply every requirement of the documented domain, boundaries included), no-overrejection (on every path to an explicit
throw the facts imply that some requirement fails, or a comparison has shown an argument to be NaN), not-a-number (every normal return lies behind a comparison that NaN fails, for each floating-point
argument with a requirement), own-probability (no quotient that can be 0/0, which the probability test refuses, is computed as a probability by the library itself),
conversion (a floating-point argument expression is converted to an integer only where the facts bound it to the integer's range).
"""
TECHNIQUE = "path-sensitive interval and order analysis of argument guards"
LEVEL_NOTE = """Exhaustive over the paths of the listed constructors and entry points, for every argument value. Requirements on arguments nothing documents (elitism pairs, optimiser step sizes) are not judged."""
ASSUMPTIONS = ["the documented domains are the ones written in the check (taken from the public headers, the error messages and what the object computes from its arguments)"]
ROOTS = [r"^k52::dsp::LinearScale::LinearScale\(", r"^k52::dsp::LogarithmicScale::LogarithmicScale\(", r"FastFourierTransformImpl::FastFourierTransformImpl\(",
         r"^k52::optimization::(FlipBitMutator::FlipBitMutator|LinearMutator::LinearMutator|DoubleParameter::DoubleParameter|IntParameter::IntParameter|GeneticAlgorithm::GeneticAlgorithm)\(",
         r"^k52::common::Random::(ValidateProbability|CheckEventOutcome)\(", r"^k52::dsp::AkimaSpline::Initialize\(", r"^k52::dsp::FastWaveletTransform::TransformOneScale\(",
         r"^k52::optimization::(ContinuousParametersArray|DoubleParametersArray)::SetValues\(", r"^k52::optimization::Individual::set_fitness\(",
         r"^k52::optimization::GeneticAlgorithm::(SetInitialParameters|Optimize)\(", r"^k52::dsp::(CircularConvolution|FourierBasedCircularConvolution)::EvaluateConvolution\(",
         r"ThreadWorkerPoolTemplated<.*>::ThreadWorkerPoolTemplated\(int"]
UNITS = r"^src/|inst/"
JOBS = [{"id": "f", "roots": ROOTS, "opaque": [r"^std::", r"^boost::(?!operator)", r"WorkerThreadTemplated", r"ObjectiveFunctionCounter::"], "inline": ACCESSORS}]
JOBS.append({"id": "own", "select": lambda j: own(j), "opaque": [r"^std::", r"^boost::", r"Random::CheckEventOutcome\(", r"Random::Random\(", r"Random::Get", r"::CountObjectiveFunctionValue"], "inline": ACCESSORS})
JOBS[0]["opaque"] = [r"^std::", r"^boost::shared_ptr<.*>::(~?shared_ptr|operator=|reset|swap)", r"^boost::[a-np-z]", r"WorkerThreadTemplated", r"ObjectiveFunctionCounter::"]
MINIMUM = {"domain": 20, "no-overrejection": 15}


def own(j):
    """the searches and mutators"""
    return [f for f in j["dem"] if re.search(r"^k52::optimization::.*::(ShouldMutateCurrentGen|FindOptimalParameters)\(", j["dem"][f])]


def parts(f, v, deep=True):
    """what a number is computed from: values, and members read"""
    out, todo = set(), [v]
    while todo:
        v = todo.pop()
        d = f.defs.get(v)
        if v in out or d is None and not str(v).startswith("a"):
            continue
        out.add(v)
        if d is None or d.op == "phi" or d.is_call():
            continue
        if d.op == "load":
            g = f.defs.get(d.args[0])
            if g is not None and g.op == "getelementptr" and not g.d.get("vo"):
                out.add((g.d["p"], g.d.get("off")))
        elif deep or d.op in ("sitofp", "uitofp", "fpext", "sext", "zext", "trunc", "freeze", "fneg") or d.op in ("add", "sub", "fadd", "fsub") and not all(a in f.defs for a in d.args):
            todo += [a for a in d.args if isinstance(a, str)]
    return out


def strict(c, val):
    """the comparison, or its failure, tells two numbers apart (for whole numbers: any comparison other than equality)"""
    p = c.get("pred")
    if c.op == "icmp":
        return p not in ("eq", "ne") or (p == "ne") == val
    p = p[1:]
    return p in (("lt", "gt", "ne") if val else ("le", "ge", "eq"))


def guards(f, q, part):
    """the comparisons that decide whether the instruction is reached, or whether its value is taken"""
    out = []
    for b in f.blocks:
        t = b[-1]
        if "cond" in t.d and t.op == "br" and len(t.d.get("succ", [])) == 2 and t.bb in f.dom()[q.bb]:
            for k, s in enumerate(t.d["succ"]):
                if s in f.dom()[q.bb] and len(f.pred[s]) == 1:
                    out += implied(f, t.d["cond"], k == 0, ops=("icmp", "fcmp"))
    for v in part:
        d = f.defs[v]
        if d.op == "select":
            for k in (1, 2):
                if q.id in parts(f, d.args[k]):
                    out += implied(f, d.args[0], k == 1, ops=("icmp", "fcmp"))
    return out


def own_probabilities(ck, prog):
    """no quotient that can be 0/0 is handed over as a probability"""
    for f in prog.jobs["own"]:
        calls = [i for i in f.calls() if prog.base(i.callee or "").endswith("Random::CheckEventOutcome")]
        if not calls:
            continue
        part, todo = set(), [i.args[-1] for i in calls]
        while todo:
            v = todo.pop()
            d = f.defs.get(v)
            if v in part or d is None or d.op == "load" or d.is_call() and not re.match(r"^(exp|pow|log|sqrt|fabs|llvm\.(exp|pow|log|sqrt|fabs))", d.callee or ""):
                continue
            part.add(v)
            todo += [a[1] if isinstance(a, (tuple, list)) else a for a in d.args]
        bad, judged = {}, set()
        for q in (x for x in f.insts() if x.op == "fdiv" and x.id in part):
            n, d = (f.defs.get(a) for a in q.args)
            if d is None or n is None:
                continue
            judged.add(q.id)
            told = parts(f, q.args[1], False)
            if n.op == "fsub":
                told |= parts(f, n.args[0], False) | parts(f, n.args[1], False)
            told |= parts(f, q.args[0], False)
            if not any(strict(c, val) and any(told & parts(f, a) for a in c.args) for c, val in guards(f, q, part)):
                bad.setdefault(q.repo_loc, q)
        w = "::".join(prog.base(f.name).split("::")[-2:])
        ck.count("quotients", len(judged))
        ck.ob("own-probability", w, not bad, "the quotient at %s is used as a probability and can be 0/0: no comparison before it excludes that" % ", ".join(sorted(bad)), "own-probability:" + w)


def spec(base, args, A):
    """requirements on the declared arguments A[0], A[1], ... (terms)"""
    n = len(A)
    if base.endswith("LinearScale::LinearScale") and n == 3:
        return [("gt", A[0], 0), ("gt", A[1], 0), ("lt", A[0], A[1]), ("ge", A[2], 2)]
    if base.endswith("LogarithmicScale::LogarithmicScale") and n == 2:
        return [("lt", A[0], A[1])]
    if base.endswith("FastFourierTransformImpl::FastFourierTransformImpl") and n == 1:
        return [("gt", A[0], 0)]
    if base.endswith("FlipBitMutator::FlipBitMutator") and n == 1:
        return [("gt", A[0], 0), ("le", A[0], 0.5)]
    if base.endswith("LinearMutator::LinearMutator") and n == 2:
        return [("ge", A[0], 0), ("le", A[0], 1), ("ge", A[1], 0), ("le", A[1], 1)]
    if base.endswith("IntParameter::IntParameter") and n in (2, 3):
        return [("le", A[-2], A[-1])]
    if base.endswith("DoubleParameter::DoubleParameter") and n == 4:
        ratio = ("op", "fdiv", None, ("op", "fsub", None, A[2], A[1]), A[3])
        return [("lt", A[1], A[2]), ("le", A[1], A[0]), ("le", A[0], A[2]), ("equiv", ("gt", ratio, 0), ("gt", A[3], 0)), ("le", ratio, 2 ** 30)]
    if base.endswith("GeneticAlgorithm::GeneticAlgorithm") and n >= 4:
        return [("even", A[0]), ("gt", A[0], 0), ("gt", A[2], 0), ("nonnull", ("in", A[3], 0))]
    if base.endswith("Random::ValidateProbability") and n == 1 or base.endswith("Random::CheckEventOutcome") and n == 1:
        return [("ge", A[0], 0), ("le", A[0], 1)]
    def size(a, shift=3):
        return ("op", "ashr", None, ("op", "sub", None, ("op", "ptrtoint", None, ("in", a, 8)), ("op", "ptrtoint", None, ("in", a, 0))), ("c", "#%d" % shift))
    if base.endswith("ParametersArray::SetValues") and n == 1 or base.endswith("GeneticAlgorithm::SetInitialParameters") and n == 1:
        # as many elements as the object was made for
        return [("matched", size(A[0], 4 if "GeneticAlgorithm" in base else 3), ("a", A[0][1] - 1))]
    if base.endswith("CircularConvolution::EvaluateConvolution") and n == 2:
        return [("eq", size(A[0], 4), size(A[1], 4))]
    if base.endswith("Individual::set_fitness") and n == 1:
        return [("ge", A[0], 0)]
    if base.endswith("GeneticAlgorithm::Optimize") and n == 3:
        return [("true", A[2])]
    if base.endswith("AkimaSpline::Initialize") and n == 2:
        same = ("eq", size(A[0]), size(A[1]))
        return [("ge", size(A[0]), 5), ("ge", size(A[1]), 5), same]
    if base.endswith("FastWaveletTransform::TransformOneScale") and n == 3:
        return [("gt", A[2], 0)]
    if base.endswith("ThreadWorkerPoolTemplated::ThreadWorkerPoolTemplated") and n == 1:
        return [("gt", A[0], 0)]
    return None


def limits(base, A):
    """further consequences of the documented domain, and what the implementation may refuse besides"""
    if base.endswith("FlipBitMutator::FlipBitMutator"):
        inv = ("op", "fdiv", None, ("c", "#f1"), A[0])
        return [("ge", inv, 2), ("gt", A[0], 2.0 ** -30)]
    if base.endswith("GeneticAlgorithm::GeneticAlgorithm"):
        return [("ge", A[0], 2)]
    return []


# requirements that are implementation limits rather than documented: rejecting for another reason near them is fine
def show(r):
    return re.sub(r"\('a', (\d+)\)", r"arg\1", str(r))[:160]


LOGIC = ("invalid_argument", "logic_error", "out_of_range", "domain_error", "length_error")


def opaque(fact, r):
    """a comparison of something computed from the requirement's arguments in a way the terms do not show"""
    want = {x for x in leaves(r) if x[0] in ("a", "in")}

    def hidden(t):
        if not isinstance(t, tuple):
            return False
        if t and t[0] == "r":
            return any(mentions(t, x) for x in want)
        return any(hidden(y) for y in t)
    return hidden(fact)


def ordered(a, st):
    """a comparison that is false for NaN was true of a, or of an expression NaN passes through"""
    return any(x[0] == "F" and mentions(x, a) and (x[1][0] == "f" and x[1][1] == "o" or asked(x[2])) for x in st)


def asked(t):
    """the answer of a call that tells NaN from numbers"""
    return t[0] == "r" and isinstance(t[2], str) and bool(re.search(r"isnan|isfinite|isunordered|isnormal|fpclass", t[2]))


def facts_of(f, st):
    uns = {("a", k) for k, a in enumerate(f.d["args"]) if str(a.get("dt", "")).startswith(("unsigned", "size_t"))}
    return Cases([e for e in st if e[0] == "F"], uns)


def check(ck, prog):
    own_probabilities(ck, prog)
    seen = set()
    for f in prog.jobs["f"]:
        base = prog.base(f.name)
        args = f.d["args"]
        A = [("a", k) for k, a in enumerate(args) if a.get("n") != "this" and not a.get("sret")]
        req = spec(base, args, A)
        if req is None:
            continue
        w = "::".join(base.split("::")[-2:]) + "/%d" % len(A)
        seen.add(base)
        conv = []

        def on_inst(i, st):
            if i.op in ("fptosi", "fptoui"):
                t = h.term(i.args[0], st)
                if t[0] == "op":
                    if leaves(t) and all(x[0] in ("a", "c") for x in leaves(t)) and any(x[0] == "a" for x in leaves(t)):
                        b = facts_of(f, st)
                        ok = b.implies(("lt", t, 2 ** 31)) and b.implies(("gt", t, -2 ** 31 - 1))
                        conv.append((i, ok))
            return st
        started = []

        def on_call(i, st, n):
            # an optimisation run is judged where it first touches the caller's objects
            if i.get("v"):
                started.append(("ret", i, st, None, None, None))
                return []
        h = Heap(f, on_inst=on_inst, on_call=on_call if base.endswith("::Optimize") else None)
        try:
            exits = h.run()
        except OverflowError:
            ck.count("undecided")
            continue
        for i, ok in conv:
            ck.ob("conversion", "%s at %s" % (w, i.repo_loc), ok, "an unbounded floating-point expression of the arguments is converted to an integer", "conversion:" + w)
        rets = [e for e in exits if e[0] == "ret"] + started
        thr = [e for e in exits if e[0] == "escape"]
        ck.count("paths", len(exits))
        if not rets:
            ck.ob("no-overrejection", w, False, "no normal return is left", "no-overrejection:%s:all" % w)
        nan = {a for a in A if str(args[a[1]].get("t")) in ("double", "float") and any(mentions(r, a) for r in req)}
        for a in sorted(nan):
            bad = None
            for e in rets:
                if not facts_of(f, e[2]).empty() and not ordered(a, e[2]):
                    bad = e
                    break
            ck.ob("not-a-number", "%s arg%d" % (w, a[1]), bad is None, "returns normally for NaN: nothing on the path %s establishes that arg%d is a number"
                  % (trace(bad[3]) if bad else "", a[1]), "not-a-number:%s:%d" % (w, a[1]))
        for r in req:
            bad = None
            for e in rets:
                b = facts_of(f, e[2])
                if not b.empty() and not b.implies(r):
                    if any(opaque(x, r) for x in e[2] if x[0] in ("F", "U")):
                        ck.count("undecided")
                        continue
                    bad = e
                    break
            ck.ob("domain", "%s %s" % (w, show(r)), bad is None, "returns normally although nothing on the path %s establishes %s"
                  % ((trace(bad[3]) if bad[3] else "up to " + bad[1].repo_loc) if bad else "", show(r)), "domain:%s:%d" % (w, req.index(r)))
        for e in thr if not base.endswith("::Optimize") else ():
            b = facts_of(f, e[2])
            if b.empty():
                continue
            if not any(x[0] == "X" and any(k in x[1] for k in LOGIC) for x in e[2]) or ("L", "U") in e[2] or any(opaque(x, r) for x in e[2] if x[0] in ("F", "U") for r in req):
                ck.count("undecided")
                continue
            # in each case some requirement fails
            ok = any(x[0] == "F" and x[1] == "funo" and any(mentions(x, a) for a in nan) for x in e[2]) or all(any(c.implies(negate(r)) for r in req + limits(base, A)) for c in b.cs)
            ck.ob("no-overrejection", "%s throw after %s" % (w, trace(e[3], 4)), ok,
                  "throws although the comparisons on the path (%s) do not exclude valid arguments" % trace(e[3]), "no-overrejection:%s" % w)
    for k in ("LinearScale::LinearScale", "FlipBitMutator::FlipBitMutator", "GeneticAlgorithm::GeneticAlgorithm"):
        ck.need(any(s.endswith(k) for s in seen), k)
    ck.fact("entry_points", len(seen))
