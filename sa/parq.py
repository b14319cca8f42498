"""Roles of the thread-shared queue's methods, inferred from what they do."""


def closure(prog, f, seen=None):
    seen = set() if seen is None else seen
    st = [f]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        d = prog.funcs.get(x)
        if d:
            st.extend(c[2:] if c.startswith("v:") else c for c in d.get("calls", []))
    return seen


def queue_roles(prog):
    """mangled method name -> 'push' | 'pop' (blocking) | 'trypop' | 'other'"""
    memo = getattr(prog, "_qroles", None)
    if memo is not None:
        return memo
    res = {}
    for f, d in prog.funcs.items():
        dm = prog.dem(f)
        if "thread::ThreadSafeQueue<" not in dm.split("(")[0] or not d["def"]:
            continue
        bn = prog.base(f)
        if not bn.startswith("k52::parallel::thread::ThreadSafeQueue::"):
            continue
        names = {prog.base(c) for c in closure(prog, f)}
        lasts = {n.split("::")[-1] for n in names if n.startswith(("std::queue::", "std::deque::", "std::list::", "std::vector::"))}
        wait = any("condition_variable" in n and "wait" in n.split("::")[-1] for n in names)
        if lasts & {"pop", "pop_front", "pop_back"}:
            res[f] = "pop" if wait else "trypop"
        elif lasts & {"push", "emplace", "push_back", "emplace_back", "push_front"}:
            res[f] = "push"
        else:
            res[f] = "other"
    prog._qroles = res
    return res


def is_perform(prog, i):
    return i.is_call() and "v" in i.d and prog.vslot_name(i.d["v"])[1] == "Perform"


INTR = ("ti", "_ZTIN5boost18thread_interruptedE")
STD = ("derived", "_ZTISt9exception")
OTHER = ("other",)
