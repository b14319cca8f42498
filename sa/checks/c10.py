"""Settings access never leaks a lower-level failure."""
import re
from ir import ACCESSORS
from flow import explore, trace, on_path
from val import flows, addr, cint
from parq import STD, OTHER
from heap import split_params

EXPLANATION = """
Every instantiation of the settings operations (int, double, bool, string) and the configuration-file constructor is flattened, with the
property tree itself kept opaque, and walked with every call that can fail raising each kind of failure: the tree's own path, data
and file errors, any other standard exception, and a type unrelated to any class (value types bring their own conversions).
Rules: never-throws (no failure leaves the defaulted read or the store), documented-error (only run-time errors leave the mandatory
read and file loading), value (the defaulted read returns the converted stored value of the name it was asked for, and the default
only after a failure or an empty answer), mandatory-value, put-answer (true is returned exactly on the paths on which the store completed),
put-what (what is stored is the value under the name), no-trace (nothing that can fail half-way is done to the tree: values are
converted before it is touched).
"""
TECHNIQUE = "exhaustive exception-path exploration with value provenance on the flattened operations"
LEVEL_NOTE = """Exhaustive over the paths of each operation for four representative value types (the operations are templates whose code
does not depend on the type). Trusts boost's property tree, and takes copying of a default value and of exception objects as not failing."""
ASSUMPTIONS = ["copying the default value into the result does not throw", "the property tree behaves as documented", "memory for short strings and tree nodes can be allocated"]
UNITS = r"^inst/instantiations"
SM = r"k52::SettingsManager::"
JOBS = [{"id": "f", "roots": [SM], "opaque": [r"boost::property_tree::", r"boost::optional"], "inline": ACCESSORS}]
MINIMUM = {"never-throws": 8, "documented-error": 5, "value": 4, "mandatory-value": 4, "put-answer": 4, "put-what": 4, "no-trace": 4}
BAD = [("derived", "_ZTIN5boost13property_tree14ptree_bad_pathE"), ("derived", "_ZTIN5boost13property_tree14ptree_bad_dataE"),
       ("derived", "_ZTIN5boost13property_tree17file_parser_errorE"), STD, OTHER]
RT = "_ZTISt13runtime_error"


def tree_call(prog, i):
    if not i.is_call() or not i.callee:
        return None
    m = re.search(r"boost::property_tree::basic_ptree<.*>::(\w+)(<|\()", strip_args(prog.dem(i.callee)))
    if m:
        return m.group(1)
    return None


def strip_args(d):
    """the demangled name up to its parameter list"""
    n = 0
    for k, c in enumerate(d):
        if c == "<":
            n += 1
        elif c == ">":
            n -= 1
        elif c == "(" and n == 0:
            return d[:k + 1]
    return d


QUERY = ("get", "get_optional", "get_child", "get_child_optional", "find", "get_value", "get_value_optional", "data", "count")
STORE = ("put", "add", "put_child", "add_child", "put_value", "push_back", "push_front", "insert", "erase", "clear", "swap", "operator=", "data")
MOVES = ("~", "basic_ptree")


def raises(i):
    """can this call fail in a way the property speaks of"""
    if not i.is_call() or i.get("nt"):
        return False
    f = i.callee or ""
    if f.startswith(("llvm.", "__cxa_", "__clang")):
        return False
    d = strip_args(i.fn.prog.dem(f))
    if tree_call(i.fn.prog, i) not in (None, "basic_ptree"):
        return True
    if re.match(r"^(std::__cxx11::basic_string<|std::allocator<|operator new|std::__str_concat)", d) or re.search(r"operator\+|::basic_ptree\(|string_path<.*>::string_path\(", d):
        return False          # allocation only
    return True


def steps(i, ok, bad):
    out = [("n", ok)]
    if raises(i):
        out += [("t", k, bad) for k in BAD]
    return out


def check(ck, prog):
    todo = {"get": [], "put": []}
    loads = []
    for f in prog.jobs["f"]:
        b = prog.base(f.name)
        last = b.split("::")[-1]
        if last in todo:
            todo[last].append(f)
        elif "ParseXml" in last or last == "SettingsManager" and any("basic_string" in (a.get("dt") or "") for a in f.d["args"]):
            loads.append(f)
    ck.need(todo["get"] and todo["put"] and loads, "settings operations")
    for f in todo["get"]:
        args = f.d["args"]
        k = 1 if args[0].get("sret") or args[0].get("n") is None and len(args) > 2 and args[1].get("n") == "this" else 0
        rest = args[k:]
        name = "a%d" % (k + 1)
        ty = re.search(r"::get<(.*?)[>,(]", prog.dem(f.name))
        w = "get<%s>" % (ty.group(1).split("::")[-1] if ty else "?")
        if len(rest) == 2:
            mandatory(ck, prog, f, w, name, k)
        elif len(rest) == 3:
            defaulted(ck, prog, f, w + " with default", name, "a%d" % (k + 2), k)
    for f in todo["put"]:
        ty = re.search(r"::put<(.*?)[>,(]", prog.dem(f.name))
        put(ck, prog, f, "put<%s>" % (ty.group(1).split("::")[-1] if ty else "?"))
    for f in loads:
        exits, n = explore(f, 0, lambda i, s: quiet(f, i, s))
        ck.count("states", n)
        only_runtime(ck, prog, prog.base(f.name).replace("k52::", ""), exits)


def quiet(f, i, s):
    # throwing the documented error itself cannot fail
    if i.is_call() and re.match(r"^_ZNSt13runtime_errorC[12]", i.callee or ""):
        return [("n", s)]
    return steps(i, s, s)


def only_runtime(ck, prog, w, exits):
    bad = None
    for e in exits:
        if e[0] == "escape" and not (e[4] and e[4][0] in ("ti", "derived") and prog.derives(e[4][1], RT)):
            bad = bad or e
    ck.ob("documented-error", w, bad is None, "lets %s out: %s" % (kind(prog, bad[4]) if bad else "", trace(bad[3]) if bad else ""), "documented-error:" + w)


def kind(prog, k):
    if k is None or k[0] == "other":
        return "a failure of any other type"
    d = prog.dem(k[1]).replace("typeinfo for ", "")
    d = {"_ZTISt9exception": "any standard exception"}.get(k[1], d)
    return d


def result_source(prog, f, e, sret, srcs, state):
    """'tree' | 'default' | 'both' | 'none' for the returned value"""
    if sret:
        return state
    v = on_path(f, e[1].args[0], e[3])
    return origin(prog, f, v, srcs)


def origin(prog, f, v, default):
    fl = flows(f, v)
    t = any(x in f.defs and tree_call(prog, f.defs[x]) in QUERY for x in fl)
    d = default in fl if default else False
    return "both" if t and d else "tree" if t else "default" if d else "none"


def asks(prog, f, i, name):
    return name in flows(f, i.id) or any(isinstance(a, str) and name in flows(f, a) for a in i.args)


def walk_get(ck, prog, f, name, default, sret):
    """state: (query ids done, an exception was raised, source of the result object)"""
    wrong = []

    def step(i, s):
        q, ex, src = s
        ok, bad = s, (q, True, src)
        t = tree_call(prog, i)
        if t in QUERY and t != "data":
            if not asks(prog, f, i, name):
                wrong.append(i)
            ok = (q | {i.id}, ex, src)
            if sret and i.args and i.args[0] == "a0":
                ok = (q | {i.id}, ex, "both" if default and any(isinstance(a, str) and default in flows(f, a) for a in i.args[1:]) else "tree")
            return steps(i, ok, bad)
        if sret and i.is_call() and i.args and i.args[0] == "a0" and not (i.callee or "").startswith("llvm.lifetime"):
            o = set()
            for a in i.args[1:]:
                if isinstance(a, str):
                    o.add(origin(prog, f, a, default))
            o.discard("none")
            new = "both" if len(o) > 1 or "both" in o else o.pop() if o else ("none" if "~" not in (prog.callee_dem(i) or "") else src)
            return [("n", (q, ex, new))]
        if i.is_call() and re.match(r"^_ZNSt13runtime_errorC[12]", i.callee or ""):
            return [("n", s)]
        if i.is_call() and default and any(isinstance(a, str) and addr(f, a)[0] == default for a in i.args) and not t:
            return [("n", s)]          # copying the default value
        return steps(i, ok, bad)

    def branch(c, val, s):
        # a decision taken on the answer
        if s[0] & flows(f, c):
            return (s[0], True, s[2])
        return s
    exits, n = explore(f, (frozenset(), False, "none"), step, branch=branch)
    ck.count("states", n)
    return exits, wrong


def lenient(prog, i):
    """a query that answers with a default instead of failing"""
    d = prog.dem(i.callee) if i.callee else ""
    t = tree_call(prog, i)
    if t in ("get", "get_value", "get_child"):
        m = re.search(r"basic_ptree<.*>::%s(<.*>)?\((.*)\) const" % t, d)
        ps = split_params("(" + d[len(strip_args(d)):])
        n = len(ps) - (t != "get_value")
        types = split_params("(" + template_args(d, t) + ")")
        return t == "get_child" and n == 1 or t != "get_child" and (n == 2 or n == 1 and len(types) < 2)
    return bool(re.search(r"boost::optional<.*>::(get_value_or|value_or|value_or_eval)\(", strip_args(d))) or bool(re.search(r"boost::get_optional_value_or", d))


def template_args(d, name):
    """the explicit template arguments of the function named at the end of d's qualified name"""
    q = strip_args(d)[:-1]
    if not q.endswith(">"):
        return ""
    n = 0
    for k in range(len(q) - 1, -1, -1):
        n += (q[k] == ">") - (q[k] == "<")
        if n == 0:
            return q[k + 1:-1]
    return ""


def mandatory(ck, prog, f, w, name, k):
    exits, wrong = walk_get(ck, prog, f, name, None, k == 1)
    only_runtime(ck, prog, w, exits)
    bad = None
    for e in exits:
        if e[0] == "ret" and result_source(prog, f, e, k == 1, None, e[2][2]) != "tree":
            bad = "returns something else than the stored value: " + trace(e[3])
    for i in f.calls():
        if lenient(prog, i) and (k == 1 and i.args and i.args[0] == "a0" or any(e[0] == "ret" and e[1].args and i.id in flows(f, on_path(f, e[1].args[0], e[3])) for e in exits)):
            bad = bad or "answers with a value made up at %s when the property is missing or cannot be converted" % i.repo_loc
    if wrong:
        bad = bad or "asks for something else than the requested name at " + wrong[0].repo_loc
    ck.ob("mandatory-value", w, bad is None, bad or "", "mandatory-value:" + w)


def defaulted(ck, prog, f, w, name, default, k):
    exits, wrong = walk_get(ck, prog, f, name, default, k == 1)
    esc = next((e for e in exits if e[0] == "escape"), None)
    ck.ob("never-throws", w, esc is None, "lets %s out: %s" % (kind(prog, esc[4]), trace(esc[3])) if esc else "", "never-throws:" + w)
    bad = None
    kinds = set()
    for e in exits:
        if e[0] != "ret":
            continue
        q, ex, st = e[2]
        src = result_source(prog, f, e, k == 1, default, st)
        kinds.add(src)
        if src == "none":
            bad = "returns neither the stored value nor the default: " + trace(e[3])
        elif src == "default" and not ex:
            bad = "returns the default although nothing failed: " + trace(e[3])
    if not bad and not kinds & {"tree", "both"}:
        bad = "never returns the stored value"
    if not bad and not kinds & {"default", "both"}:
        bad = "never returns the default"
    if wrong:
        bad = bad or "asks for something else than the requested name at " + wrong[0].repo_loc
    ck.ob("value", w, bad is None, bad or "", "value:" + w)


def put(ck, prog, f, w):
    stores = []
    for i in f.calls():
        t = tree_call(prog, i)
        if t in STORE and t != "data" and i.args and addr(f, i.args[0])[0] == "a0":
            stores.append((i, t))
    ids = {i.id: t for i, t in stores}

    def step(i, s):
        done, ex = s
        if i.id in ids:
            return steps(i, (True, ex), (done, True))
        return steps(i, s, (done, True))
    exits, n = explore(f, (False, False), step)
    ck.count("states", n)
    esc = next((e for e in exits if e[0] == "escape"), None)
    ck.ob("never-throws", w, esc is None, "lets %s out: %s" % (kind(prog, esc[4]), trace(esc[3])) if esc else "", "never-throws:" + w)
    bad = None
    for e in exits:
        if e[0] != "ret":
            continue
        r = e[4] if e[4] is not None else cint(on_path(f, e[1].args[0], e[3]))
        if r is None:
            ck.count("undecided")
            continue
        if bool(r & 1) != e[2][0]:
            bad = "answers %s on a path on which the value was %sstored: %s" % ("true" if r & 1 else "false", "" if e[2][0] else "not ", trace(e[3]))
    ck.ob("put-answer", w, bad is None, bad or "", "put-answer:" + w)
    bad = None
    for i, t in stores:
        fl = set()
        for a in i.args[1:]:
            fl |= flows(f, a)
        if "a1" not in fl or "a2" not in fl:
            bad = "what is stored at %s is not the given value under the given name" % i.repo_loc
        if t in ("add", "add_child", "push_back", "push_front", "insert"):
            bad = "%s at %s keeps an older value of the same name in front" % (t, i.repo_loc)
    if not stores:
        bad = "nothing is stored"
    ck.ob("put-what", w, bad is None, bad or "", "put-what:" + w)
    bad = None
    for i, t in stores:
        d = prog.dem(i.callee)
        m = re.search(r"basic_ptree<.*>::put(_value)?<(.*)>\((boost::|\2|[a-z])", d)
        if t in ("put", "put_value", "add") and m:
            targs = m.group(2)
            if not targs.startswith("std::__cxx11::basic_string"):
                bad = "%s at %s converts the value after it has created the property, which a failed conversion leaves behind" % (t, i.repo_loc)
    ck.ob("no-trace", w, bad is None, bad or "", "no-trace")
