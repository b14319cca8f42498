"""Which mutexes are certainly held, along every path of a flattened function."""
import re
from val import addr, key
from checks.c02 import lock_event

PTH = {"pthread_mutex_lock": "mlock", "pthread_mutex_unlock": "munlock"}


def identity(fn, v):
    """('static', name) | ('own', ...) for a mutex address"""
    b, o, vo = addr(fn, v)
    prog = fn.prog
    if isinstance(b, str) and b.startswith("@"):
        g = prog.globals.get(b[1:], {})
        return ("thread-local", b) if g.get("tls") else ("static", b, o)
    d = fn.defs.get(b)
    if d is None:
        return ("member", b, o)
    if d.op == "alloca":
        return ("local", b)
    if d.op == "load":
        p, po, _ = addr(fn, d.args[0])
        if isinstance(p, str) and p.startswith("@"):
            g = prog.globals.get(p[1:], {})
            return ("thread-local", p) if g.get("tls") else ("static", p, po, "->", o)
        i = identity(fn, d.args[0])
        return (i[0] if i[0] in ("member", "local", "thread-local") else "unknown", key(fn, b) if False else b, o)
    if d.is_call() and (d.callee or "").startswith(("llvm.threadlocal.address", "_ZTW")):
        return ("thread-local", d.args[0] if d.args else d.callee)
    return ("unknown", b, o)


def lock_step(prog, i, fn):
    """normalised lock event or None"""
    if not i.is_call() or not i.callee:
        return None
    if i.callee in PTH:
        return (PTH[i.callee], addr(fn, i.args[0])[:2], i.args[0])
    ev = lock_event(prog, i, fn)
    if ev is None:
        return None
    k = ev[0]
    d = prog.callee_dem(i) or ""
    if k in ("acquire", "adopt", "try", "defer"):
        if "shared_lock<" in d.split("(")[0]:
            k = "shared"
        return (k, ev[1], i.args[1])
    if k in ("mlock", "munlock"):
        return (k, ev[1], i.args[0])
    return ev


def apply(fn, held, ev, recursive=False):
    """held: frozenset of (guard, mutex identity, owned); returns (held, relocked mutex or None)"""
    k = ev[0]
    if k in ("acquire", "adopt", "try", "defer", "shared"):
        m = identity(fn, ev[2])
        again = None
        if k == "acquire" and any(o and x == m for g, x, o in held):
            again = m
        h = frozenset(x for x in held if x[0] != ev[1])
        if k == "adopt":
            h = frozenset(x for x in h if not (x[0] == "direct" and x[1] == m))
        return h | {(ev[1], m, k in ("acquire", "adopt"))}, again
    if k == "mlock":
        m = identity(fn, ev[2])
        again = m if any(o and x == m for g, x, o in held) else None
        return held | {("direct", m, True)}, again
    if k == "munlock":
        m = identity(fn, ev[2])
        return frozenset(x for x in held if not (x[0] == "direct" and x[1] == m)), None
    if k == "relock":
        again = next((m for g, m, o in held if g == ev[1] and any(x == m and o2 and g2 != g for g2, x, o2 in held)), None)
        return frozenset((g, m, True) if g == ev[1] else (g, m, o) for g, m, o in held), again
    if k == "release":
        return frozenset((g, m, False) if g == ev[1] else (g, m, o) for g, m, o in held), None
    if k == "dtor":
        return frozenset(x for x in held if x[0] != ev[1]), None
    return held, None
