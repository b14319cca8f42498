"""C25: what one MPI process sends is what its peer receives."""
import re
from checks.c18 import Run, Types
from checks.c19 import configured, fields, settings, makers
from flow import explore
from ir import ACCESSORS

TECHNIQUE = ("sequence analysis of the message operations on every path of the transfer functions, compared pairwise (type, tag, member, role of a type identifier), typestate of the pool's protocol, and a completeness "
             "comparison with the settings of each class")
LEVEL_NOTE = "every Send/Receive pair, task result and the MPI pool, compiled against declaration-only headers; messages inside loops are not judged"
EXPLANATION = """
The MPI configuration is compiled against declaration-only headers. For every class with a Send and a Receive the messages of each normally returning path are listed in order. Rules: sequence (both sides handle the same messages: the
same types, tags and nested objects in the same order), member (a member that is sent is received into the same member), role (where an object's type identifier is sent, the receiver looks up an object of that role; the content that
follows belongs to the object identified last), peer (messages go to and come from the process and communicator that were passed in), complete (every setting of a class that the constructors take is sent), protocol (the pool sends a
task's identifier, then the task, and expects the result from the same worker; a worker receives identifier and task, performs it and sends the result, in this order; at the end every worker from rank 1 on is told to stop).
"""
ASSUMPTIONS = ["Boost.MPI delivers messages between two processes in the order they were sent", "the serialisation of library types is symmetric"]
CONFIGS = ["mpi"]
WANT = re.compile(r"^k52::.*::(Send|Receive|ReceiveAsync)\(boost::mpi::communicator\*")
OPAQUE = [r"^std::", r"^boost::(shared_ptr|[a-rt-z])", r"IdentifyableObjectsManager", r"::(Clean|RegisterCount)\("]
COMM = re.compile(r"boost::mpi::communicator::(i?send|i?recv)<(.*)>\(int, int")


def sel(j):
    return [f for f, d in j["funcs"].items() if d.get("repo") and WANT.match(j["dem"].get(f, f))]


def calls(j):
    """member functions that receive something on their own, the steps of an asynchronous receipt"""
    owners = {re.match(r"^(k52::.*)::ReceiveAsync\(", j["dem"].get(f, f)).group(1) for f, d in j["funcs"].items() if d.get("repo") and re.match(r"^k52::.*::ReceiveAsync\(", j["dem"].get(f, f))}
    return [f for f, d in j["funcs"].items() if d.get("repo") and any(j["dem"].get(f, f).startswith(o + "::") for o in owners)]


def pool(j):
    return [f for f, d in j["funcs"].items() if d.get("repo") and re.match(r"^k52::parallel::mpi::MpiWorkerPool::(DoTasks|MpiWorkerPool|~MpiWorkerPool)\(", j["dem"].get(f, f))]


def jobs(config):
    return [{"id": "wire", "select": sel, "opaque": OPAQUE, "inline": ACCESSORS},
            {"id": "step", "select": calls, "opaque": OPAQUE, "inline": ACCESSORS},
            {"id": "pool", "select": pool, "opaque": OPAQUE, "inline": ACCESSORS},
            {"id": "chain", "select": lambda j: [x for x in pool(j) if "::DoTasks(" in j["dem"].get(x, x)], "opaque": OPAQUE + ["AsyncCallChain::"], "inline": ACCESSORS},
            {"id": "make", "select": makers, "opaque": [r"^std::", r"^boost::shared_ptr<.*>::(~?shared_ptr|operator=|reset|swap)", r"^boost::[a-np-z]", r"::CountTotalChromosomeSize"], "inline": ACCESSORS}]


class Msg:
    __slots__ = ("dir", "type", "tag", "inst", "rank", "comm", "what")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    def wire(self):
        return (self.type, self.tag)

    def text(self):
        return self.type + (" (tag %s)" % self.tag if self.tag not in (None, "#0") else "")


class Side:
    def __init__(self, prog, f, types):
        self.prog, self.f, self.run = prog, f, Run(prog, f, types)
        self.memo = {}

    def slot(self, i):
        return self.prog.vslot_name(i.get("v"))[-1] if i.is_call() and i.get("v") else None

    def base(self, v):
        d = self.f.defs.get(v)
        while d is not None and (d.op == "bitcast" or d.op == "getelementptr" and not d.d.get("vo")):
            v = d.d.get("p") or d.args[0]
            d = self.f.defs.get(v)
        return v

    def object(self, v):
        """access paths of an object a reference stands for, dispatch adjustments taken off"""
        res = set()
        for p in self.run.paths(v):
            p = self.run.norm(p)
            while p and (p[-1].startswith("._vptr") or p[-1] == "*"):
                p = p[:-1]
            res.add(p)
        return frozenset(res)

    def msg(self, i):
        if i.id in self.memo and i.id:
            return self.memo[i.id]
        m = None
        n = self.prog.dem(i.callee) if i.callee else ""
        c = COMM.search(n)
        s = self.slot(i)
        if c:
            a = i.args[1:] if i.get("sr") else i.args
            m = Msg(dir=c.group(1).lstrip("i"), type=re.sub(r"\s*\bconst\b\s*", "", c.group(2)), tag=a[2], rank=a[1], comm=a[0], inst=i, what=self.content(i, a[3]))
        elif s in ("Send", "Receive") and len(i.args) >= 2:
            m = Msg(dir="send" if s == "Send" else "recv", type="object", tag=None, rank=i.args[2] if len(i.args) > 2 else None, comm=i.args[1], inst=i, what=("object", self.object(i.args[0])))
        if i.id:
            self.memo[i.id] = m
        return m

    def content(self, i, ref):
        """what a message carries: a member, the identifier of an object, or something local"""
        ps = self.object(ref)
        if ps and all(p[0] == "this" and len(p) == 2 for p in ps):
            return ("member", ps)
        r = self.base(ref)
        ids, looks = [], []
        for c in self.f.calls():
            n = self.prog.dem(c.callee) if c.callee else ""
            if re.search(r"IdentifyableObjectsManager::GetId\b", n) and c.args and self.base(c.args[0]) == r:
                ids.append(c)
            if "IdentifyableObjectsManager::GetObject" in n and self.base(c.args[-1]) == r:
                looks.append(c)
        if len(ids) == 1:
            return ("id", self.object(ids[0].args[1]))
        if len(looks) == 1:
            for c in self.f.calls():
                if c.callee == "__dynamic_cast" and self.base(c.args[0]) == looks[0].id:
                    return ("lookup", c.args[2].lstrip("@"))
        if any(p[0] == "this" for p in ps):
            return ("member", ps)
        return None

    def paths(self):
        """message sequences of the normally returning paths, None when messages are sent in a loop"""
        f = self.f
        here = [i for i in f.calls() if self.msg(i)]
        if any(f.loop_of(i.bb) is not None for i in here):
            return None
        ix = {id(i): n for n, i in enumerate(here)}

        def step(i, st):
            return [("n", st + (ix[id(i)],))] if id(i) in ix else [("n", st)]
        try:
            exits, _ = explore(f, (), step, max_nodes=50000)
        except OverflowError:
            return None
        seqs = {e[2] for e in exits if e[0] == "ret"}
        return [[self.msg(here[n]) for n in s] for s in sorted(seqs)]


def bindings(f):
    """the steps of an asynchronous receipt in the order they are bound, for every normally returning path"""
    if any(f.loop_of(i.bb) is not None for i in f.calls() if i.get("pm")):
        return None
    try:
        exits, _ = explore(f, (), lambda i, st: [("n", st + (i.get("pm"),))] if i.is_call() and i.get("pm") else [("n", st)], max_nodes=50000)
    except OverflowError:
        return None
    return sorted({e[2] for e in exits if e[0] == "ret"})


def kinds(side, ps):
    return {k for p in ps for k in [side.run.kind(p)] if k}


def compare(ck, prog, cls, s, rs, send, recv):
    """send: messages of one path; recv: [(side, message)]"""
    where = "%s (%s / %s)" % (cls, s.f.loc, rs[0].f.loc)
    a, b = [m.wire() for m in send], [m.wire() for _, m in recv]
    same = a == b
    k = next((n for n in range(max(len(a), len(b))) if n >= len(a) or n >= len(b) or a[n] != b[n]), None)
    text = ""
    if not same:
        at = lambda l, n: "nothing" if n >= len(l) else l[n].text()
        text = "message %d: %s is sent, %s is received" % (k + 1, at(send, k), at([m for _, m in recv], k))
    ck.ob("sequence", where, same, "%s: the two sides do not handle the same messages: %s" % (cls, text), "sequence:" + cls)
    if not same:
        return
    for n, (x, (r, y)) in enumerate(zip(send, recv)):
        if x.what and y.what and x.what[0] == y.what[0] == "member":
            ok = not x.what[1].isdisjoint(y.what[1])
            ck.ob("member", "%s message %d at %s" % (cls, n + 1, x.inst.repo_loc), ok, "%s is sent at %s but received into %s" % (
                "/".join(p[-1].lstrip(".") for p in x.what[1]), x.inst.repo_loc, "/".join(p[-1].lstrip(".") for p in y.what[1])), "member:%s:%d" % (cls, n + 1))
        elif x.what and x.what[0] == "member" and y.what is None and y.type != "object":
            kept(ck, cls, n, x, r, y)
        elif x.what and y.what and x.what[0] == "id" and y.what[0] == "lookup":
            ks = kinds(s, x.what[1])
            want = prog.dem(y.what[1]).replace("typeinfo for ", "")
            cs = {m for t in ks for m in re.findall(r"k52::[\w:]+", t)}
            if not cs:
                ck.count("undecided")
                continue
            ok = any(related(prog, c, want) for c in cs)
            ck.ob("role", "%s identifier %d at %s" % (cls, n + 1, x.inst.repo_loc), ok, "the type identifier of a %s is sent at %s but looked up as a %s" % ("/".join(sorted(cs)), x.inst.repo_loc, want), "role:%s:%d" % (cls, n + 1))
    for side, ms in [(s, send)] + [(r, [m for q, m in recv if q is r]) for r in rs]:
        last = None
        for m in ms:
            if m.what and m.what[0] in ("id", "lookup"):
                last = m
            elif m.type == "object" and last is not None:
                if last.what[0] == "id":
                    ok = bool(last.what[1] & m.what[1]) or not last.what[1] or not m.what[1]
                else:
                    cs = {c for t in kinds(side, m.what[1]) for c in re.findall(r"k52::[\w:]+", t)}
                    ok = not cs or any(related(prog, c, prog.dem(last.what[1]).replace("typeinfo for ", "")) for c in cs)
                ck.ob("role", "%s content at %s" % (cls, m.inst.repo_loc), ok, "the content handled at %s does not belong to the object identified last at %s" % (m.inst.repo_loc, last.inst.repo_loc), "content:%s" % cls)


def kept(ck, cls, n, x, r, y):
    """a value received into a local variable reaches the member it was sent from"""
    f = r.f
    var = r.base((y.inst.args[1:] if y.inst.get("sr") else y.inst.args)[3])
    d = f.defs.get(var)
    if d is None or d.op != "alloca":
        ck.count("undecided")
        return
    mine, others = [], []
    for i in f.insts():
        src = dst = None
        if i.op == "store":
            l = f.defs.get(i.args[0])
            if l is not None and l.op == "load" and r.base(l.args[0]) == var:
                dst = i.args[1]
        elif i.is_call() and i.callee and len(i.args) > 1 and r.prog.base(i.callee).split("::")[-1] in ("operator=", "swap", "assign"):
            if r.base(i.args[1]) == var:
                dst = i.args[0]
            elif r.base(i.args[0]) == var and r.prog.base(i.callee).endswith("swap"):
                dst = i.args[1]
        if dst is not None:
            ps = {p for p in r.object(dst) if p[0] == "this" and len(p) == 2}
            if ps:
                (mine if ps & x.what[1] else others).append(i)
    if not mine and not others:
        ck.count("undecided")
        return
    where = "%s message %d at %s" % (cls, n + 1, x.inst.repo_loc)
    if not mine:
        ck.ob("member", where, False, "%s is sent at %s but kept in another member at %s" % ("/".join(p[-1].lstrip(".") for p in x.what[1]), x.inst.repo_loc, others[0].repo_loc), "member:%s:%d" % (cls, n + 1))
        return
    st, seen, lost = [y.inst.bb], set(), False
    if not any(i.bb == y.inst.bb and i.ix > y.inst.ix for i in mine):
        stop = {i.bb for i in mine}
        while st:
            b = st.pop()
            if b in seen or b in stop and b != y.inst.bb:
                continue
            seen.add(b)
            if f.blocks[b][-1].op == "ret":
                lost = True
            st += [t for t, lab in f.succ[b] if lab != "u"]
    ck.ob("member", where, not lost, "%s is sent at %s; the receiver can return without having kept what it received at %s" % ("/".join(p[-1].lstrip(".") for p in x.what[1]), x.inst.repo_loc, y.inst.repo_loc), "member:%s:%d" % (cls, n + 1))


def fresh(ck, cls, side):
    """content is received into a copy of the very object that was looked up for the identifier received"""
    f = side.f
    if any(re.search(r"type_info::operator|IdentifyableObjectsManager::GetId", side.prog.dem(i.callee or "")) for i in f.calls()):
        ck.count("undecided")
        return
    looks = {id(i) for i in f.calls() if "IdentifyableObjectsManager::GetObject" in side.prog.dem(i.callee or "")}
    if not looks:
        return
    bad = []

    def step(i, st):
        if id(i) in looks:
            return [("n", "looked")]
        if i.is_call():
            s = side.slot(i)
            if s == "Clone" and st == "looked":
                return [("n", "copied")]
            if s == "Receive" and st == "looked":
                bad.append(i)
            if s == "Receive":
                return [("n", None)]
        return [("n", st)]
    try:
        explore(f, None, step, max_nodes=50000)
    except OverflowError:
        ck.count("undecided")
        return
    ck.ob("role", "%s content in %s" % (cls, f.loc), not bad, "the content handled at %s can be received into an object that was not made from the one the identifier names" % (bad[0].repo_loc if bad else ""), "fresh:%s" % cls)


def remembered(ck, cls, async_, r):
    """the process and communicator used later are the ones passed in"""
    f = async_.f
    shift = 1 if f.d["args"] and f.d["args"][0].get("sret") else 0
    want = {"comm": "a%d" % (1 + shift), "rank": "a%d" % (2 + shift)}
    for i in r.f.calls():
        m = r.msg(i)
        if not m:
            continue
        for what, v in (("comm", m.comm), ("rank", m.rank)):
            d = r.f.defs.get(v) if isinstance(v, str) else None
            if d is None or d.op != "load":
                if isinstance(v, str) and v.startswith("#"):
                    ck.ob("peer", "%s at %s" % (cls, i.repo_loc), False, "the message at %s does not use the communicator and the process that were passed in" % i.repo_loc, "peer:" + cls)
                continue
            mem = {p for p in r.object(d.args[0]) if p[0] == "this" and len(p) == 2}
            ws = [j for j in f.insts() if j.op == "store" and mem & set(async_.object(j.args[1]))]
            if not mem or not ws:
                ck.count("undecided")
                continue
            for j in ws:
                e = f.defs.get(j.args[0]) if isinstance(j.args[0], str) else None
                ok = j.args[0] == want[what]
                if not ok and e is not None and (e.op in ("load", "invoke") or e.op == "call" and not str(e.callee).startswith("llvm.")):
                    ck.count("undecided")
                    continue
                ck.ob("peer", "%s at %s" % (cls, j.repo_loc), ok, "the %s remembered at %s for the messages that follow is not the one passed in" % ("communicator" if what == "comm" else "process", j.repo_loc), "peer:%s:%s" % (cls, what))


def related(prog, a, b):
    ca, cb = ("_ZTI" + mangle(a)), ("_ZTI" + mangle(b))
    return a == b or prog.derives(ca, cb) or prog.derives(cb, ca)


def mangle(n):
    return "N" + "".join("%d%s" % (len(x), x) for x in n.split("::")) + "E"


def check(ck, prog):
    types = Types(prog)
    sides = {}
    for f in prog.jobs["wire"]:
        m = re.match(r"^(k52::.*)::(Send|Receive|ReceiveAsync)\(", f.dem)
        sides.setdefault(m.group(1), {})[m.group(2)] = Side(prog, f, types)
    steps = {f.name: f for f in prog.jobs["step"]}
    conf = settings(prog)
    ids = {c["name"]: k for k, c in prog.classes.items()}
    n = 0
    for cls, d in sorted(sides.items()):
        s = d.get("Send")
        if s is None:
            ck.count("undecided")
            continue
        sp = s.paths()
        if sp is not None and not sp:
            continue                                        # refuses to be sent
        rs, rp = [], None
        if "ReceiveAsync" in d:
            chains = bindings(d["ReceiveAsync"].f)
            if chains and all(b in steps for c in chains for b in c):
                one = {b: Side(prog, steps[b], types) for c in chains for b in c}
                rs = list(one.values())
                each = {b: r.paths() for b, r in one.items()}
                if all(e is not None and len(e) == 1 for e in each.values()):
                    rp = [[(one[b], m) for b in c for m in each[b][0]] for c in chains]
        elif "Receive" in d:
            rs = [d["Receive"]]
            e = rs[0].paths()
            rp = None if e is None else [[(rs[0], m) for m in x] for x in e]
        if sp is None or not rp or any(m.dir == "recv" for x in sp for m in x):
            ck.count("undecided")
            continue
        n += 1
        for a in sp:
            best = next((b for b in rp if [m.wire() for m in a] == [m.wire() for _, m in b]), rp[0])
            compare(ck, prog, cls, s, rs, a, best)
        for b in rp:
            if not any([m.wire() for m in a] == [m.wire() for _, m in b] for a in sp) and len(rp) > 1:
                compare(ck, prog, cls, s, rs, sp[0], b)
        # peers
        for side in [s] + (rs if "Receive" in d else []):
            comm = next((a["i"] for a in side.f.d["args"] if "communicator" in str(a.get("dt", ""))), "a1") if side.f.d["args"] and "i" in side.f.d["args"][0] else "a1"
            for i in side.f.calls():
                m = side.msg(i)
                if not m:
                    continue
                want = "a2" if len(side.f.d["args"]) > 2 else "#0"
                ok = side.base(m.comm) == comm and (m.rank is None or m.rank == want)
                ck.ob("peer", "%s at %s" % (cls, i.repo_loc), ok, "the message at %s does not use the communicator and the process that were passed in" % i.repo_loc, "peer:" + cls)
        for r in rs:
            fresh(ck, cls, r)
            if "ReceiveAsync" in d and "Receive" not in d:
                remembered(ck, cls, d["ReceiveAsync"], r)
        # settings
        if cls in conf and all(m.what and m.what[0] == "member" for a in sp for m in a):
            for name, off, t in fields(prog, ids[cls]):
                if not name.startswith("_vptr") and configured(conf[cls].get(off)) is True:
                    ok = all(any(("this", "." + name) in m.what[1] for m in a) for a in sp)
                    ck.ob("complete", "%s::%s" % (cls, name), ok, "%s::%s is set by the constructors or setters but not sent to the other process" % (cls, name), "complete:%s:%s" % (cls, name))
    ck.need(n, "classes sent between processes")
    protocol(ck, prog, types)
    answers(ck, prog)


def protocol(ck, prog, types):
    for f in prog.jobs["pool"]:
        w = Side(prog, f, types)
        vs = {id(i): w.slot(i) for i in f.calls() if i.get("v")}
        if "::DoTasks(" in f.dem:
            marks = {}
            for i in f.calls():
                m = w.msg(i)
                if m and m.dir == "send" and m.type.startswith("std::") and "string" in m.type:
                    marks[id(i)] = ("id", m.rank)
                elif vs.get(id(i)) == "Send":
                    marks[id(i)] = ("task", i.args[2] if len(i.args) > 2 else None)
                elif vs.get(id(i)) == "ReceiveAsync":
                    a = i.args[1:] if i.get("sr") else i.args
                    marks[id(i)] = ("result", a[2] if len(a) > 2 else None)
            walk(ck, f, marks, ["id", "task", "result"], "a task handed to a worker", True)
        elif "::~" not in f.dem:
            marks = {}
            for i in f.calls():
                m = w.msg(i)
                s = vs.get(id(i))
                if m and m.dir == "recv" and "string" in m.type:
                    marks[id(i)] = ("identifier", None)
                elif s == "Receive":
                    marks[id(i)] = ("task", None)
                elif s == "Perform":
                    marks[id(i)] = ("performance", None)
                elif s == "Send":
                    marks[id(i)] = ("result", None)
            walk(ck, f, marks, ["identifier", "task", "performance", "result"], "the worker's loop", False)
        else:
            for i in f.calls():
                m = w.msg(i)
                if not m or m.dir != "send":
                    continue
                d = f.defs.get(m.rank)
                if d is None or d.op != "phi":
                    ck.count("undecided")
                    continue
                l = next((l for l in f.loops() if l.header == d.bb), None)
                starts = [v for b, v in d.args if l is not None and b not in l.body]
                if l is None or not all(v.startswith("#") for v in starts):
                    ck.count("undecided")
                    continue
                end(ck, f, i, d, l)
                ck.ob("protocol", "end of work at %s" % i.repo_loc, all(v == "#1" for v in starts), "the end of work is announced from rank %s on, but the workers start at rank 1" % starts[0].lstrip("#"), "protocol:end")


def end(ck, f, send, phi, l):
    """the loop that announces the end of work reaches the last rank"""
    outs = [b for b in l.body if f.blocks[b][-1].d.get("cond") and any(y not in l.body for y, _ in f.succ[b])]
    if len(outs) != 1:
        ck.count("undecided")
        return
    at = outs[0]
    c = f.defs.get(f.blocks[at][-1].d.get("cond"))
    nxt = f.defs.get(next((v for b, v in phi.args if b in l.body), None))
    if c is None or c.op != "icmp" or phi.id not in c.args or nxt is None or nxt.op != "add" or phi.id not in nxt.args:
        ck.count("undecided")
        return
    lim = c.args[1] if c.args[0] == phi.id else c.args[0]
    k, d = 0, f.defs.get(lim)
    while d is not None and d.op in ("add", "sub", "sext", "zext"):
        if d.op in ("add", "sub"):
            if not str(d.args[1]).lstrip("#").lstrip("-").isdigit():
                break
            k += int(d.args[1][1:]) * (1 if d.op == "add" else -1)
        d = f.defs.get(d.args[0])
    if d is None or not d.is_call() or not f.prog.base(d.callee or "").endswith("communicator::size"):
        ck.count("undecided")
        return
    inside = next(lab for y, lab in f.succ[at] if y in l.body)
    p = c.get("pred")
    if c.args[0] != phi.id:
        p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(p, p)
    if inside == "f":
        p = {"slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "eq": "ne", "ne": "eq"}.get(p)
    if not f.dominates(f.blocks[at][-1], send):
        ck.count("undecided")
        return
    last = k - 1 if p in ("slt", "ult", "ne") else k if p in ("sle", "ule") else None
    step = next((x for x in nxt.args if x != phi.id), None)
    if last is None:
        ck.count("undecided")
        return
    ck.ob("protocol", "end of work at %s: ranks" % send.repo_loc, last == -1 and step == "#1", "the end of work is announced in steps of %s up to rank size%+d" % (str(step).lstrip("#"), last), "protocol:end:last")


def answers(ck, prog):
    """an expectation is dropped only when nothing more is to be received for it"""
    for f in prog.jobs["chain"]:
        fin = [i for i in f.calls() if prog.base(i.callee or "").endswith("AsyncCallChain::IsCurrentCallFinished")]
        more = [i for i in f.calls() if prog.base(i.callee or "").endswith("AsyncCallChain::WillBeNextCall")]
        gone = [i for i in f.calls() if re.search(r"^std::(__cxx11::)?(list|vector|deque)::(erase|pop_front|pop_back|clear|remove)$", prog.base(i.callee or "")) and "ResultExpectation" in prog.dem(i.callee or "")]
        if not fin or not more or not gone:
            ck.count("undecided")
            continue
        done = set()
        for b in range(len(f.blocks)):
            c, pol = f.blocks[b][-1].d.get("cond"), True
            for _ in range(6):
                d = f.defs.get(c)
                if d is None or d.is_call():
                    break
                if d.op == "xor":
                    pol = not pol
                elif d.op not in ("zext", "trunc", "freeze"):
                    break
                c = d.args[0]
            if c in {i.id for i in more}:
                done |= {(b, y) for y, lab in f.succ[b] if lab == ("f" if pol else "t")}
        if not done:
            ck.count("undecided")
            continue
        stop = {i.bb for i in fin}
        bad = None
        for i in fin:
            st, seen = [y for y, lab in f.succ[i.bb] if lab != "u"], set()
            while st:
                x = st.pop()
                if x in seen or x in stop:
                    continue
                seen.add(x)
                bad = bad or next((g for g in gone if g.bb == x), None)
                st += [y for y, lab in f.succ[x] if lab != "u" and (x, y) not in done]
        ck.ob("protocol", "answers in %s" % f.dem.split("(")[0], bad is None, "an expected answer can be dropped at %s although more of it is still to be received" % (bad.repo_loc if bad else ""), "protocol:answers")


def loaded(f, v):
    d = f.defs.get(v)
    return d is not None and (d.op == "load" or d.is_call())


def walk(ck, f, marks, order, what, ranks):
    kinds_ = {k for k, _ in marks.values()}
    if not set(order) <= kinds_:
        ck.count("undecided")
        return
    bad = {}

    def step(i, st):
        if id(i) in marks:
            k, r = marks[id(i)]
            at, rank = st
            if order[at] != k:
                bad.setdefault("%s comes where %s is due" % (k, order[at]), i)
                return []
            if ranks and at and r != rank and not (loaded(f, r) or loaded(f, rank)):
                bad.setdefault("%s concerns another worker" % k, i)
                return []
            return [("n", ((at + 1) % len(order), r))]
        if i.op == "ret" and st[0]:
            bad.setdefault("%s never follows" % order[st[0]], i)
        return [("n", st)]
    try:
        explore(f, (0, None), step, max_nodes=200000)
    except OverflowError:
        ck.count("undecided")
        return
    why = next(iter(bad), "")
    ck.ob("protocol", "%s in %s" % (what, f.dem.split("(")[0]), not bad, "%s: %s at %s" % (what, why, bad[why].repo_loc if bad else ""), "protocol:" + what)


MINIMUM = {"sequence": 3}
