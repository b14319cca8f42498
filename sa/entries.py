"""Entry points: functions a client of the library can reach without going through another library function."""


def direct_callers(prog):
    memo = getattr(prog, "_callers", None)
    if memo is None:
        memo = {}
        for f, d in prog.funcs.items():
            for c in d.get("calls", []):
                memo.setdefault(c[2:] if c.startswith("v:") else c, set()).add(f)
        prog._callers = memo
    return memo


def taken(prog):
    memo = getattr(prog, "_taken", None)
    if memo is None:
        memo = set()
        for d in prog.funcs.values():
            memo.update(d.get("takes", []))
        for tis in prog.vtables.values():
            for vt, off, fl in tis:
                memo.update(fl)
        prog._taken = memo
    return memo


def access(prog, f):
    """declared access of a member function, and the file its class is declared in"""
    memo = getattr(prog, "_acc", None)
    if memo is None:
        memo = {}
        for c in prog.classes.values():
            for e in c["elems"]:
                if e["k"] == "f" and e.get("ln"):
                    memo[e["ln"]] = (e["acc"], c.get("file", ""))
        prog._acc = memo
    if f in memo:
        return memo[f]
    # structors are declared without a linkage name
    n = prog.base(f)
    cls, _, last = n.rpartition("::")
    for c in prog.classes.values():
        if c["name"] == cls and not c.get("fwd"):
            for e in c["elems"]:
                if e["k"] == "f" and e["n"] == last:
                    return (e["acc"], c.get("file", ""))
    return (None, "")


def is_entry(prog, f):
    if f in taken(prog):
        return True
    acc, file = access(prog, f)
    if file.startswith("include/") and acc in ("public", "protected"):
        return True
    # implicitly generated members of public classes and free functions nobody in the library calls
    return not any(prog.funcs[c].get("repo") for c in direct_callers(prog).get(f, ()) if c != f and c in prog.funcs)
