"""Value provenance helpers on flattened functions."""
import re


def is_const(v):
    return isinstance(v, str) and (v[0] == "#" or v in ("null", "undef", "zeroinit", "const"))


def cint(v):
    if isinstance(v, str) and v.startswith("#") and not v.startswith("#f") and v != "#big":
        return int(v[1:])
    return None


def addr(fn, v, depth=0):
    """(base, constant offset, [(index value, scale)...]) of a pointer value"""
    off, vo = 0, []
    while True:
        i = fn.defs.get(v)
        if i is None:
            if isinstance(v, str) and v.startswith("@") and "+" in v:
                b, o = v.rsplit("+", 1)
                return b, off + int(o), vo
            return v, off, vo
        if i.op == "getelementptr":
            if "off" not in i.d:
                return v, off, vo
            off += i.d["off"]
            vo = vo + [tuple(x) for x in i.d.get("vo", [])]
            v = i.d["p"]
            continue
        if i.op in ("bitcast", "freeze", "addrspacecast"):
            v = i.args[0]
            continue
        if i.op == "phi" and depth < 6:
            vs = {addr(fn, x, depth + 1)[:2] for _, x in i.args if x != v} if len(i.args) < 6 else set()
            if len(vs) == 1:
                b, o = vs.pop()
                if b != v:
                    return b, off + o, vo
        return v, off, vo


def derives(fn, v, stop=lambda x: False, loads=True, calls=True, _seen=None):
    """set of root values (args, globals, constants, allocas, loads/calls when not traversed) v is computed from"""
    seen, st, res = set(), [v], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        i = fn.defs.get(x)
        if i is None or stop(x):
            res.add(x)
            continue
        if i.op == "alloca":
            res.add(x)
            continue
        if i.op == "load":
            if not loads:
                res.add(x)
                continue
            st.append(i.args[0])
            continue
        if i.is_call():
            res.add(x)
            if calls:
                st.extend(i.args)
            continue
        if i.op == "phi":
            st.extend(y for _, y in i.args)
            continue
        st.extend(i.args)
        if "p" in i.d:
            st.append(i.d["p"])
        st.extend(y for y, _ in i.d.get("vo", []))
    res.discard(v) if v not in fn.defs and False else None
    return res


def flows(fn, v, limit=4000):
    """every value v may be computed from, following loads, calls' arguments and the contents stored (by store,
    memcpy or a call that also receives the object) into local objects"""
    if getattr(fn, "_stores", None) is None:
        st = {}
        for i in fn.insts():
            if i.op == "store":
                st.setdefault(addr(fn, i.args[1])[0], []).append(i.args[0])
            elif i.is_call():
                ptrs = [a for a in i.args if isinstance(a, str)]
                bases = [addr(fn, a)[0] for a in ptrs]
                for k, b in enumerate(bases):
                    d = fn.defs.get(b)
                    if d is not None and d.op == "alloca":
                        st.setdefault(b, []).extend(a for j, a in enumerate(ptrs) if j != k)
                        st[b].append(i.id)
        fn._stores = st
    seen, work = set(), [v]
    while work and len(seen) < limit:
        x = work.pop()
        if x in seen or not isinstance(x, str):
            continue
        seen.add(x)
        i = fn.defs.get(x)
        if i is None:
            continue
        if i.op == "alloca":
            work.extend(fn._stores.get(x, []))
            continue
        if i.op == "phi":
            work.extend(y for _, y in i.args)
            continue
        work.extend(i.args)
        if "p" in i.d:
            work.append(i.d["p"])
        work.extend(y for y, _ in i.d.get("vo", []))
    return seen


def key(fn, v, depth=0):
    """structural identity of a value: loads from the same address are taken as the same value"""
    if depth > 20:
        return v
    i = fn.defs.get(v)
    if i is None:
        return v
    if i.op == "load":
        return ("load", key(fn, i.args[0], depth + 1))
    if i.op == "getelementptr" and "off" in i.d:
        b, o, vo = addr(fn, v)
        return ("gep", key(fn, b, depth + 1) if b != v else b, o, tuple((key(fn, x, depth + 1), s) for x, s in vo))
    if i.op in ("bitcast", "freeze"):
        return key(fn, i.args[0], depth + 1)
    if i.op in ("add", "sub", "mul", "ashr", "lshr", "shl", "ptrtoint", "zext", "sext", "trunc", "sdiv", "udiv", "icmp",
                "fadd", "fsub", "fmul", "fdiv", "fcmp", "sitofp", "uitofp", "fptosi", "and", "or", "xor", "fneg"):
        return (i.op, i.get("pred")) + tuple(key(fn, a, depth + 1) for a in i.args)
    return v
