"""Pretty-printer used while developing the checks: show.py REGEX [opaque...]"""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import core, ir

def pp(fn):
    p = fn.prog
    print("==", fn.dem, fn.loc, [(a.get("n"), a.get("dt", a["t"])) for a in fn.d["args"]])
    for b, L in enumerate(fn.blocks):
        print(" bb%d: preds %s" % (b, [(x, l) for x, l in fn.pred[b]]))
        for i in L:
            d = dict(i.d)
            s = ""
            if "v" in d:
                s = "VIRT " + "::".join(p.vslot_name(d["v"]))
            elif "f" in d:
                s = p.dem(d["f"])[:int(os.environ.get("W","150"))]
            ex = {k: d[k] for k in ("p", "off", "vo", "cond", "succ", "nb", "ub", "pred", "clauses", "cleanup", "cases", "def", "idx", "size", "n", "dt", "nt", "fp") if k in d}
            if "fp" in ex and "v" in d: ex.pop("fp")
            print("   %s = %s %s %s %s   ; %s" % (i.id, i.op, s, d.get("a", ""), ex, d.get("l", "")))

if __name__ == "__main__":
    os.environ.setdefault("K52SA_CACHE", "/tmp/k52cache")
    args = sys.argv[1:]
    acc = True
    if args[0] == "-n":
        acc = False; args = args[1:]
    job = {"id": "x", "roots": [args[0]], "opaque": args[1:]}
    if acc: job["inline"] = ir.ACCESSORS
    P = core.analyse([job])
    for f in P.jobs["x"]:
        pp(f)
