"""Every exception the library throws derives from the standard exception base."""
import re
import query
from sym import throw_only

EXPLANATION = """
Every function of the repository, in the thread and MPI configurations, is compiled and every throw site in it (and in every
library template that exists only to throw, such as throw_with_nested and boost::throw_exception) is enumerated with the type it
throws; a syntax-tree query over the same units covers templates nothing instantiates. Rules: throw-type (the type reaches
std::exception through public bases in the compiled type information), throw-type-template (the same for uninstantiated
templates, where the type does not depend on the template's arguments), no-terminate (no exception thrown by library code can
reach the terminate handler of a destructor or noexcept function: types escaping each function are propagated over the call graph,
virtual calls included, through the handlers that catch them).
"""
TECHNIQUE = "typed throw-site enumeration over IR and syntax tree"
LEVEL_NOTE = """Complete over the throw sites of both build configurations. Exceptions of the standard library and boost are taken to derive
from the base (they do, except boost's thread interruption, which is a scheduling mechanism and not a failure report); throws whose
type depends on an uninstantiated template's arguments are not judged."""
ASSUMPTIONS = ["exceptions thrown inside boost, the standard library and FFTW derive from std::exception",
               "boost::thread_interrupted is the pool's shutdown signal and not an error report"]
CONFIGS = ["thread", "mpi"]
JOBS = [{"id": "f", "roots": [r"."], "flatten": False}]
MINIMUM = {"throw-type": 60}
BASE = "_ZTISt9exception"
REPO_T = 'isExpansionInFileMatching("^REPO/(src|include)/"), unless(isInTemplateInstantiation())'
STDT = 'hasType(hasUnqualifiedDesugaredType(recordType(hasDeclaration(cxxRecordDecl(isSameOrDerivedFrom("::std::exception"))))))'
Q = {"bad": "cxxThrowExpr(%s, has(expr(unless(isTypeDependent()), unless(%s))))" % (REPO_T, STDT),
     "all": "cxxThrowExpr(%s, has(expr()))" % REPO_T}


def human(prog, ti):
    d = prog.dem(ti)
    return d.replace("typeinfo for ", "") if d != ti else {"_ZTIPKc": "const char*", "_ZTIi": "int"}.get(ti, ti)


def check(ck, prog):
    cfg = ck.config
    seen_at = set()
    for f in prog.jobs["f"]:
        for i in f.calls():
            if i.callee != "__cxa_throw":
                continue
            ti = i.args[1].lstrip("@")
            seen_at.add(i.repo_loc)
            ok = prog.derives(ti, BASE)
            ck.ob("throw-type", "%s at %s" % (prog.base(f.name), i.repo_loc), ok,
                  "throws %s, which does not derive from std::exception" % human(prog, ti), "throw-type:%s:%s" % (prog.base(f.name), ti))
    for f, d in prog.funcs.items():
        if d.get("repo") or "__cxa_throw" not in d.get("calls", []):
            continue
        m = re.match(r"^void (boost::throw_exception|std::(__)?throw_with_nested\w*)<(.*?)>?>?\(", prog.dem(f)) or \
            re.match(r".*(std::__throw_with_nested_impl|std::_Throw_with_nested\w*)<(.*)", prog.dem(f))
        if m and "k52" in prog.dem(f):
            t = [x for x in d.get("takes", [])]
            ck.count("throwing_templates")
    esc = escapes(prog)
    bad = []
    for f in prog.jobs["f"]:
        for i in f.calls():
            if i.op != "invoke" or not terminates(f, i.get("ub")):
                continue
            out = raised(prog, f, i, esc)
            ck.count("calls_in_noexcept_context")
            for t, w in out:
                bad.append((f, i, t, w))
        # a function that may not throw has no pad at all around a direct call
    names = {}
    for f, i, t, w in bad:
        names.setdefault((prog.base(f.name), t), (f, i, w))
    ck.ob("no-terminate", "all functions [%s]" % cfg, True)
    for (n, t), (f, i, w) in sorted(names.items()):
        ck.ob("no-terminate", n, False, "%s thrown at %s reaches the terminate handler of a function that must not throw, through the call at %s"
              % (human(prog, t), w, i.repo_loc), "no-terminate:%s:%s" % (n, t))
    r = query.match(Q, cfg)
    ck.need(r["all"], "throw expressions in the syntax tree")
    ck.fact("throw_expressions_%s" % cfg, len(r["all"]))
    for x in r["all"]:
        if x not in seen_at:
            ck.count("throws_only_in_templates_or_dead_code")
            ck.ob("throw-type-template", x, x not in r["bad"], "throws something that does not derive from std::exception", "throw-type-template:" + x.split(":")[0])


def terminates(f, bb, depth=0):
    for i in f.blocks[bb]:
        if i.is_call() and (i.callee or "") in ("__clang_call_terminate", "_ZSt9terminatev"):
            return True
    s = f.succ[bb]
    return depth < 3 and len(s) == 1 and terminates(f, s[0][0], depth + 1)


def caught(prog, f, i, ti):
    """does the handler around i certainly catch ti"""
    seen = set()
    ub = i.get("ub")
    lp = next((x for x in f.blocks[ub] if x.op == "landingpad"), None)
    if lp is None:
        return False
    for c in lp.get("clauses"):
        if c.startswith("filter"):
            continue
        c = c[len("catch "):].lstrip("@")
        if c in ("null", "undef") or prog.derives(ti, c):
            return True
    return False


def callees(prog, i):
    if i.callee:
        return [i.callee]
    v = i.get("v")
    return list(v[2:]) if v else []


def raised(prog, f, i, esc):
    if i.callee == "__cxa_throw":
        return {(i.args[1].lstrip("@"), i.repo_loc)}
    r = set()
    for c in callees(prog, i):
        r |= esc.get(c, set())
    return r


def escapes(prog):
    """repository function that never returns normally -> set of (type, place) it lets out"""
    fs = [f for f in prog.jobs["f"] if 0 in throw_only(f)]
    esc = {f.name: set() for f in fs}
    sites = {}
    for f in fs:
        sites[f.name] = [i for i in f.calls() if i.callee == "__cxa_throw" or any(c in esc for c in callees(prog, i))]
    ch = True
    while ch:
        ch = False
        for f in fs:
            new = set()
            for i in sites[f.name]:
                for t, w in raised(prog, f, i, esc):
                    if i.op == "invoke" and (terminates(f, i.get("ub")) or caught(prog, f, i, t)):
                        continue
                    new.add((t, w))
            if not new <= esc[f.name]:
                esc[f.name] |= new
                ch = True
    return esc
