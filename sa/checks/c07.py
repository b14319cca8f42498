"""FFT buffers and plans are released exactly once and never used after release."""
import re
from ir import ACCESSORS
from val import addr, flows, key, cint
from sym import Counter, Lin, Sym, std_container_op
from entries import is_entry
from own import Owner, acquire, releases, PAIRS
from checks.c06 import UNIQ

EXPLANATION = """
Constructors, destructors and every other member function of the classes that acquire FFT buffers, plans or raw storage are
flattened (helpers, the implementation object and compiler-generated cleanup included) and walked with an ownership typestate:
what was acquired where, which field path holds it, what was released.  Rules: no-leak (everything acquired is released or
held by the object on every exit, and released on every exception out of a constructor), release-once (the destructor
releases each resource the constructors leave in the object exactly once on every path), matching-release (with the function
that belongs to it), no-use-after-release, no-shared-copy (an owner is not copyable, or its copy does not take over the raw
pointer: decided by whether the compiler can instantiate the copy and by what the instantiated copy stores), extent (each
buffer given to a plan is at least as large as the plan's length).
"""
TECHNIQUE = "ownership typestate dataflow plus compile-time copyability witness"
LEVEL_NOTE = """Exhaustive over all paths of the owner's member functions, including exception paths out of constructors. Whether a client destroys
an object twice by hand is outside."""
ASSUMPTIONS = ["FFT library functions do not throw", "smart pointers release what they are given exactly once"]
UNITS = r"^src/dsp/|^inst/copies"
JOBS = [{"id": "f", "roots": [r"^k52::dsp::"], "inline": ACCESSORS + UNIQ},
        {"id": "c", "roots": [r"k52_copies::"], "any": True, "inline": ACCESSORS + UNIQ + [r"^k52::", r"k52_copies"]}]
MINIMUM = {"no-leak": 2, "release-once": 1, "no-shared-copy": 2, "extent": 2}
RES = re.compile(r"^fftw")


def check(ck, prog):
    groups = {}
    for fn in prog.jobs["f"]:
        n = prog.base(fn.name)
        c, _, m = n.rpartition("::")
        kind = "ctor" if m == c.split("::")[-1] else "dtor" if m.startswith("~") else "other"
        groups.setdefault(c, []).append((kind, fn))
    owners = {c: l for c, l in groups.items() if any(k == "ctor" and any(acquire(i) in (0, 1) for i in fn.calls()) for k, fn in l)
              and not any(k == "ctor" and any(i.is_call() and acquire(i) in (0, 1) and via_shared(prog, fn) for i in fn.calls()) for k, fn in l)}
    ck.need(owners, "a class that acquires FFT buffers and plans")
    for c, l in sorted(owners.items()):
        w = c.replace("k52::dsp::", "")
        owned = {}
        res = []
        for kind, fn in l:
            if kind == "ctor":
                o = Owner(fn, "ctor", this_arg(fn))
                ck.count("states", o.run())
                report(ck, w + " constructor", o)
                for r in o.result:
                    owned.update(r)
                extent(ck, prog, fn, w)
        dt = [fn for kind, fn in l if kind == "dtor"]
        if owned:
            ck.ob("release-once", w + " destructor exists", bool(dt), "the class has no destructor although it owns %d resources" % len(owned), "release-once:%s" % w)
        for fn in dt:
            o = Owner(fn, "dtor", this_arg(fn), owned)
            ck.count("states", o.run())
            report(ck, w + " destructor", o)
        for kind, fn in l:
            if kind == "other":
                t = this_arg(fn)
                if t is None or not is_entry(prog, fn.name):
                    continue
                o = Owner(fn, "other", t, owned)
                ck.count("states", o.run())
                report(ck, prog.base(fn.name).replace("k52::dsp::", ""), o)
        ck.fact("owned:" + w, {str(list(p)): PAIRS[k][2] for p, k in owned.items()})
        copies(ck, prog, c, w, owned)
    # functions outside owner classes that acquire buffers or plans directly
    for c, l in sorted(groups.items()):
        if c in owners:
            continue
        for kind, fn in l:
            if any(acquire(i) in (0, 1) for i in fn.calls()) and kind == "other":
                o = Owner(fn, "other", this_arg(fn) or "none")
                ck.count("states", o.run())
                report(ck, prog.base(fn.name).replace("k52::dsp::", ""), o)


def via_shared(prog, fn):
    """the FFT resources belong to a member object held by a smart pointer or a subobject of another owner class"""
    c = prog.base(fn.name).rsplit("::", 1)[0]
    return not any((i.get("s") and prog.base(i.get("s")).startswith(c)) for i in fn.calls() if acquire(i) in (0, 1))


def this_arg(fn):
    for n, a in enumerate(fn.d["args"]):
        if a.get("n") == "this":
            return "a%d" % n
    return None


def report(ck, w, o):
    rules = ["no-leak", "release-once", "matching-release", "no-use-after-release"]
    for r in rules:
        ps = [(i, m) for rr, i, m in o.problems if rr == r]
        if r == "release-once" and o.kind != "dtor" and not ps:
            continue
        ck.ob(r, w, not ps, "%s (%s)" % (ps[0][1], ps[0][0].repo_loc) if ps else "", "%s:%s" % (r, w))


def copies(ck, prog, c, w, owned):
    tops = [p for p in owned if len(p) == 1]
    fs = {}
    for fn in prog.jobs["c"]:
        if "<%s," % c in fn.dem:
            fs[prog.base(fn.name).split("::")[-1]] = fn
    if not fs:
        # not a public class: it can be copied only through the class that contains it
        return
    for neg, pos, what in (("not_copyable", "copy_construct", "copy construction"), ("not_assignable", "copy_assign", "copy assignment")):
        fn = fs.get(pos)
        if fn is None:
            ck.ob("no-shared-copy", "%s %s (does not compile)" % (w, what), neg in fs, "", "no-shared-copy:%s:%s" % (w, pos))
            continue
        bad = None
        for i in fn.insts():
            if i.op == "store":
                b, o, vo = addr(fn, i.args[1])
                d = fn.defs.get(i.args[0])
                if b == "a0" and (o,) in tops and d is not None and d.op == "load" and addr(fn, d.args[0])[:2] == ("a1", o):
                    bad = i
            if i.is_call() and (i.callee or "").startswith("llvm.memcpy") and addr(fn, i.args[0])[0] == "a0" and addr(fn, i.args[1])[0] == "a1":
                lo = addr(fn, i.args[0])[1]
                n = cint(i.args[2]) or 0
                if any(lo <= p[0] < lo + n for p in tops):
                    bad = i
        ck.ob("no-shared-copy", "%s %s" % (w, what), bad is None,
              "%s shares the owned pointer, so both objects release it" % what, "no-shared-copy:%s:%s" % (w, pos))


def extent(ck, prog, fn, w):
    sy = Sym(fn)
    elsize = {"fftw_": 16, "fftwf_": 8, "fftwl_": 32}
    for i in fn.calls():
        if acquire(i) != 1:
            continue
        m = re.match(r"^(fftw[fl]?_)plan_dft_1d$", i.callee)
        if not m:
            ck.count("undecided")
            continue
        n = strip(sy, fn, i.args[0])
        for a in i.args[1:3]:
            site = source(fn, a)
            if site is None:
                ck.count("undecided")
                continue
            if site.callee.endswith("malloc"):
                b = strip(sy, fn, site.args[0])
            elif site.callee.endswith("alloc_complex"):
                b = strip(sy, fn, site.args[0]).scale(elsize[m.group(1)])
            else:
                ck.count("undecided")
                continue
            need = n.scale(elsize[m.group(1)])
            d = (b - need)
            ok = True
            if d.const() is not None:
                ok = d.const() >= 0
            elif set(b.t) - {1} == set(need.t) - {1} and len(set(b.t) - {1}) == 1:
                at = (set(b.t) - {1}).pop()
                ok = b.t[at] >= need.t[at] and b.t.get(1, 0) >= 0
            else:
                ck.count("undecided")
            ck.ob("extent", "%s buffer at %s" % (w, site.repo_loc), ok, "the buffer has %s bytes but a plan of this length needs %s" % (b, need),
                  "extent:%s" % w)


def strip(sy, fn, v):
    """value with fields of the object under construction replaced by what was stored in them"""
    st = {}
    for i in fn.insts():
        if i.op == "store":
            st.setdefault(key(fn, i.args[1]), set()).add(i.args[0])
    l = sy.val(v)
    for _ in range(4):
        out, ch = Lin(), False
        for a, k in l.t.items():
            if a != 1 and a[0] == "val" and isinstance(a[1], tuple) and a[1][0] == "load" and len(st.get(a[1][1], ())) == 1:
                out = out + sy.val(next(iter(st[a[1][1]]))).scale(k)
                ch = True
            else:
                out = out + Lin({a: k})
        l = out
        if not ch:
            break
    return l


def source(fn, v):
    """the acquisition a pointer comes from, through one field"""
    seen = set()
    st = [v]
    res = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        d = fn.defs.get(x)
        if d is None:
            continue
        if acquire(d) == 0:
            res.add(d)
        elif d.op == "load":
            k = key(fn, d.args[0])
            for i in fn.insts():
                if i.op == "store" and key(fn, i.args[1]) == k:
                    st.append(i.args[0])
        elif d.op in ("phi",):
            st.extend(y for _, y in d.args)
        elif d.op in ("bitcast", "select"):
            st.extend(d.args)
    return res.pop() if len(res) == 1 else None
